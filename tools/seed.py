#!/usr/bin/env python3
"""Maintains the planted bugs in /verif/seeded (used by hand; no check reads them).

  seed.py make SPEC.py          write seeded/<id>/ from a spec (SEEDS list)
  seed.py verify ID...          builds, passes the tests, demo 0 / nonzero
  seed.py catch ID... [-c C01]  run the checks of the property (or given ones)
Patched code runs in a private mount namespace where a scratch copy lies over /repo.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO_SH = """#!/bin/bash
# Run with cwd /repo after the build: 0 if the property holds for the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w %s -I. -I_build/googleapis -I"$here" "$here/demo.cc" %s -o "$tmp/demo" \\
  _build/libservice_control_client_lib.a _build/libdistribution_helper_lib.a _build/libgoogleapis.a -lprotobuf -lcrypto -lpthread || exit 2
cd "$tmp" && timeout 120 ./demo
"""


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(SEEDED, s["id"])
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (t, t))
            for f, old, new in s["edits"]:
                p = os.path.join(t, f)
                c = open(p).read()
                if c.count(old) != 1:
                    sys.exit("%s: %d matches in %s of:\n%s" % (s["id"], c.count(old), f, old))
                open(p, "w").write(c.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(run("git diff", cwd=t).stdout)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % (s.get("flags", ""), s.get("sources", "")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.cc"), "w").write(s["demo"].strip() + "\n")
        if "demo_util.h" in s["demo"]:
            shutil.copy(os.path.join(os.path.dirname(os.path.abspath(spec)), "demo_util.h"), d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", s["id"])


def in_copy(work, script):
    return run("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (work, script))


def fresh():
    t = tempfile.mkdtemp(prefix="seed")
    run("cp -a /repo/. %s" % t)
    return t


def verify(ids):
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for i in ids:
        d = os.path.join(SEEDED, i)
        t = fresh()
        try:
            ok = lambda r: "ok" if r.returncode == 0 else "rc=%d" % r.returncode
            r = in_copy(t, "bash /opt/vp/build.sh")
            r1 = in_copy(t, "bash %s/demo.sh" % d)
            a = in_copy(t, "git apply %s/patch.diff" % d)
            b = in_copy(t, "bash /opt/vp/build.sh")
            r2 = in_copy(t, "bash %s/demo.sh" % d)
            b2 = in_copy(t, "bash /opt/vp/test.sh %s/out.json" % t)
            res = json.load(open(t + "/out.json"))
            bad = sorted(set(stable) - set(res["passed"]))
            good = r1.returncode == 0 and a.returncode == 0 and b.returncode == 0 and r2.returncode not in (0, 2) and not bad
            print(i, "GOOD" if good else "BAD", "clean demo", ok(r1), "apply", ok(a), "build", ok(b), "patched demo", ok(r2), "failed tests", bad, flush=True)
            print("   patched demo says:", r2.stdout.strip().splitlines()[-1:] )
            if not good:
                print(r1.stdout[-1500:], a.stdout, b.stdout[-1500:] if b.returncode else "")
        finally:
            shutil.rmtree(t)


def catch(ids, checks):
    for i in ids:
        d = os.path.join(SEEDED, i)
        t = fresh()
        try:
            a = in_copy(t, "git apply %s/patch.diff" % d)
            for c in checks or [json.load(open(d + "/meta.json"))["property"]]:
                r = in_copy(t, "python3 %s/tools/vmc.py check %s" % (VERIF, c))
                lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "fail" in l.lower()]
                print(i, c, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % c in r.stdout else "rc=%d" % r.returncode, (lines or [r.stdout[-300:]])[:2], flush=True)
        finally:
            shutil.rmtree(t)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    checks = []
    while "-c" in args:
        k = args.index("-c")
        checks += args[k + 1].split(",")
        del args[k:k + 2]
    if cmd == "make":
        make(args[0])
    elif cmd == "verify":
        verify(args or sorted(os.listdir(SEEDED)))
    elif cmd == "catch":
        catch(args or sorted(os.listdir(SEEDED)), checks)
