#!/usr/bin/env python3
"""Driver: builds the harnesses from /repo's working tree and runs one check.

  vmc.py setup                     build everything the checks need
  vmc.py check C01 [--tier quick]  run one check, write evidence/C01.json
  vmc.py replay FILE               re-run a recorded counterexample
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

PB = ["google/rpc/status", "google/api/annotations", "google/api/http", "google/api/launch_stage",
      "google/api/metric", "google/api/label", "google/logging/type/log_severity", "google/type/money"] + [
      "google/api/servicecontrol/v1/" + x for x in
      ("service_controller", "operation", "quota_controller", "metric_value", "distribution", "check_error", "log_entry")]

VARIANTS = {
    # Sequential exploration: address sanitizer, assertions on.
    "seq": dict(cc="g++", flags="-std=c++17 -O2 -g1 -fsanitize=address -fno-omit-frame-pointer -w",
                lib="-std=c++17 -O2 -g1 -w", link="-fsanitize=address",
                libs=["mc.cc", "seqlock.cc"]),
    # The same without the sanitizer, for the deeper levels.
    "fast": dict(cc="g++", flags="-std=c++17 -O2 -g1 -w", lib="-std=c++17 -O2 -g1 -w", link="", libs=["mc.cc", "seqlock.cc"]),
    # Controlled scheduling: every access instrumented, hooks provided by lib/vsched.cc.
    "sched": dict(cc="clang++", flags="-std=c++17 -O1 -g1 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -fno-omit-frame-pointer -w",
                  lib="-std=c++17 -O2 -g1 -w -fno-omit-frame-pointer", link="", libs=["mc.cc", "vsched.cc"]),
}
LINK_LIBS = "-lprotobuf -lcrypto -lpthread -ldl"


class CommandFailed(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CommandFailed("command failed: %s\n%s\n" % (cmd[:300], r.stdout[:4000]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def atomic(cmd_fmt, out):
    tmp = "%s.%d.%d.tmp" % (out, os.getpid(), threading.get_ident())
    sh(cmd_fmt.format(out=tmp))
    os.rename(tmp, out)


def gen_pb():
    d = os.path.join(BUILD, "gen")
    stamp = os.path.join(d, "done")
    if os.path.exists(stamp):
        return d
    os.makedirs(d, exist_ok=True)
    wkt = " ".join("google/protobuf/%s.proto" % x for x in ("any", "descriptor", "duration", "struct", "timestamp"))
    sh("protoc -I/usr/include --include_imports --descriptor_set_out=%s/wkt.desc %s" % (d, wkt))
    sh("protoc --descriptor_set_in=%s/wkt.desc:%s/third_party/googleapis.desc --cpp_out=%s %s" %
       (d, VERIF, d, " ".join(x + ".proto" for x in PB)))
    open(stamp, "w").close()
    return d


def repo_sources():
    src = []
    for sub in ("src", "utils"):
        for p in sorted(glob.glob(os.path.join(REPO, sub, "**", "*.cc"), recursive=True)):
            b = os.path.basename(p)
            if b.endswith("_test.cc") or b.endswith("_test_util.cc") or b.startswith("mock"):
                continue
            src.append(p)
    return src


def repo_headers_digest():
    hs = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in (".git", "_build")]
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".inc", ".inl")):
                p = os.path.join(root, f)
                hs.append((p, digest(read(p))))
    return digest(*[a + b for a, b in sorted(hs)])


class Builder:
    def __init__(self, variant):
        self.v = VARIANTS[variant]
        self.name = variant
        self.dir = os.path.join(BUILD, variant)
        os.makedirs(self.dir, exist_ok=True)
        self.gen = gen_pb()
        self.inc = "-I%s -I%s/include -I%s -I%s/lib -I%s/harness" % (REPO, REPO, self.gen, VERIF, VERIF)

    def obj(self, src, flags, dep):
        key = digest(self.v["cc"], flags, src, read(src), dep)
        out = os.path.join(self.dir, os.path.basename(src).replace(".", "_") + "-" + key + ".o")
        if not os.path.exists(out):
            atomic("%s %s %s -c %s -o {out}" % (self.v["cc"], flags, self.inc, src), out)
        return out

    def build(self, harness_src, extra_flags="", extra_src=(), lock=True):
        fd = open(os.path.join(BUILD, "lock." + self.name), "w")
        if lock:
            fcntl.flock(fd, fcntl.LOCK_EX)
        v = self.v
        hdr = repo_headers_digest()
        libdep = digest(*[read(p) for p in sorted(glob.glob(VERIF + "/lib/*.h"))])
        hdep = digest(hdr, libdep, *[read(p) for p in sorted(glob.glob(VERIF + "/harness/*.h"))])
        jobs = [(os.path.join(self.gen, x + ".pb.cc"), v["flags"], "pb") for x in PB]
        jobs += [(s, v["flags"], hdr) for s in repo_sources()]
        jobs += [(os.path.join(VERIF, "lib", x), v["lib"], libdep) for x in v["libs"]]
        jobs += [(harness_src, v["flags"] + " " + extra_flags, hdep)]
        jobs += [(s, v["flags"] + " " + extra_flags, hdep) for s in extra_src]
        # biggest first
        jobs.sort(key=lambda j: (j[0] != harness_src, "pb.cc" not in j[0]))
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            futs = [ex.submit(self.obj, *j) for j in jobs]
            objs = [f.result() for f in futs]
        # Attempts to lock that can fail: whoever holds the mutex must be stoppable
        # before it unlocks.
        if self.name == "sched" and any("pthread_mutex_" + x in sh("nm -u " + " ".join(objs)) for x in ("trylock", "timedlock", "clocklock")):
            objs.append(self.obj(os.path.join(VERIF, "lib", "trylock.cc"), v["lib"], libdep))
        exe = os.path.join(self.dir, os.path.basename(harness_src)[:-3] + "-" + digest(*sorted(objs)))
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(self.dir, os.path.basename(harness_src)[:-3] + "-*")):
                if not old.endswith((".o", ".tmp")):
                    os.unlink(old)          # an older build of this harness
            atomic("%s %s -o {out} %s %s" % (v["cc"], v["link"], " ".join(sorted(objs)), LINK_LIBS), exe)
        for o in objs:
            os.utime(o)
        # keep the object cache small
        try:
            for o in sorted(glob.glob(self.dir + "/*.o"), key=os.path.getmtime)[:-600]:
                os.unlink(o)
        except FileNotFoundError:
            pass                            # another build keeps it small just now
        fd.close()
        return exe


def known_findings():
    """(listed keys with their property, texts)"""
    listed = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
                listed.append((f["property"], f["key"], line[7:].split(" ", 2)[2]))
    return listed


def harness_path(h):
    return os.path.join(VERIF, "harness", h + ".cc")


def run_check(pid, tier, seed):
    t0 = time.time()
    spec = CHECKS[pid]
    rep = os.path.join(VERIF, "replays")
    work = os.path.join(BUILD, "work.%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    os.makedirs(rep, exist_ok=True)
    known = [(k, t) for (p, k, t) in known_findings() if p == pid]
    cap = spec.get("cap", 240) if tier == "quick" else spec.get("cap_thorough", 3000)
    results, rc = [], 0
    parts = spec["parts"]
    # Build all parts first; the time cap is for exploring.
    exes = []
    for harness, variant, only in parts:
        exes.append((Builder(variant).build(harness_path(harness)), variant, harness, only))
    for exe, variant, harness, only in exes:
        out = os.path.join(work, "stats.json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--tier", tier, "--seed", str(seed), "--time", str(cap / len(parts)), "--out", out,
               "--replaydir", rep, "--workdir", work]
        if only == "first":
            cmd += ["--first"]
        for k, _ in known:
            cmd += ["--known", k]
        print("%s: exploring %s (%s)" % (pid, harness, variant), flush=True)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sys.stdout.write(r.stdout)
        if not os.path.exists(out):
            print("check machinery failed (%d)" % r.returncode)
            rc = 3
            break
        d = json.load(open(out))
        d["variant"], d["harness"] = variant, harness
        results.append(d)
        if d["violation"]:
            # tell the replay which program it belongs to
            txt = open(d["replay"]).read()
            open(d["replay"], "w").write("harness=%s\nvariant=%s\n" % (harness, variant) + txt)
            rc = 1
            break
        if r.returncode not in (0, 1):
            rc = 3
            break
    subprocess.run(["rm", "-rf", work])
    if results:
        write_evidence(pid, spec, tier, seed, results, time.time() - t0, known)
    hit = {}
    for d in results:
        for k in d["known"]:
            hit[k["key"]] = hit.get(k["key"], 0) + k["count"]
    if rc == 0:
        for k, text in known:
            if hit.get(k):
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, text))
    if rc == 1:
        d = results[-1]
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(d["replay"], VERIF)))
        print("  " + d["message"][:1500])
    elif rc == 0:
        print("%s: held on everything explored (%.1fs)" % (pid, time.time() - t0))
    return rc


def write_evidence(pid, spec, tier, seed, results, wall, known):
    states = transitions = validated = execs = outcomes = points = 0
    samples, scen, exhaustive = [], [], True
    for d in results:
        for s in d["scenarios"]:
            last = [l for l in s["levels"] if l["execs"]]
            states += s["states"]
            outcomes += s["outcomes"]
            for l in s["levels"]:
                transitions += l["steps"]
                execs += l["execs"]
                points += l["points"]
                validated += l["validated"]
                if not l["complete"]:
                    exhaustive = False
            scen.append(dict(harness=d["harness"], variant=d["variant"], scenario=s["name"], what=s["what"],
                             bound=s["level_name"], mode="state-merged" if s["merged"] else "stateless",
                             levels=[dict(bound=l["level"], executions=l["execs"], complete=l["complete"],
                                          seconds=l["secs"]) for l in s["levels"]],
                             completed_bound=max([l["level"] for l in s["levels"] if l["complete"]], default=None),
                             distinct_states=s["states"], distinct_outcomes=s["outcomes"],
                             longest_decision_vector=s["max_choices"],
                             replayed_identically=s["determinism_checked"]))
            for x in s["samples"][:2]:
                samples.append("[%s] %s" % (s["name"], x))
    cov = dict(executions=execs, decisions=points, distinct_outcomes=outcomes, samples=samples[:24], scenarios=scen,
               exhaustive=exhaustive)
    if spec["level"] == "model_checking":
        cov.update(states=states, transitions=transitions, traces_validated_against_impl=validated)
    else:
        cov.update(evaluations=transitions, distinct_nontrivial=outcomes, rule=spec["rule"])
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2),
              violations=sum(1 for d in results if d["violation"]))
    if known:
        ev["coverage"]["known_findings"] = [k for k, _ in known]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == "setup":
        todo = sorted({(h, v) for c in CHECKS.values() for (h, v, o) in c["parts"]})
        for v in sorted({v for _, v in todo}):
            hs = [h for h, x in todo if x == v]
            b = Builder(v)
            b.build(harness_path(hs[0]))          # shared objects
            with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                for f in [ex.submit(b.build, harness_path(h), lock=False) for h in hs[1:]]:
                    f.result()
            print("built %d harnesses (%s)" % (len(hs), v), flush=True)
        return 0
    if sys.argv[1] == "selftest":      # the scheduler finds planted errors and only those
        exe = Builder("sched").build(harness_path("selftest_sched"))
        bad = 0
        for name in sh(exe + " --list").split():
            out = os.path.join(BUILD, "selftest.json")
            r = subprocess.run([exe, "--scenario", name, "--tier", "quick", "--time", "60", "--out", out, "--replaydir", BUILD, "--workdir", BUILD],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            d = json.load(open(out))
            good = bool(d["violation"]) == name.startswith("bad-")
            bad += not good
            print("%-20s %s %s" % (name, "as expected" if good else "WRONG", (d["message"] or "")[:150] if d["violation"] else r.stdout.strip().split("\n")[-1]))
        return 1 if bad else 0
    if sys.argv[1] == "replay":
        f = dict(l.split("=", 1) for l in open(sys.argv[2]).read().split("\n")[:2])
        exe = Builder(f["variant"]).build(harness_path(f["harness"]))
        return subprocess.run([exe, "--replay", sys.argv[2]]).returncode
    pid = sys.argv[2]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run_check(pid, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CommandFailed as e:
        sys.stderr.write(str(e))
        sys.exit(3)
