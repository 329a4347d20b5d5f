// C33: fingerprints are the MD5 of exactly the bytes given, against an own
// implementation of RFC 1321.
#include <cmath>

#include "common.h"
#include "utils/md5.h"
using namespace h;
typedef class google::service_control_client::MD5 Hasher;

static string Reference(string m) {
  static const int r[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
  static uint32_t k[64];
  if (!k[0]) for (int i = 0; i < 64; ++i) k[i] = (uint32_t)(int64_t)std::floor(std::fabs(std::sin(i + 1.0)) * 4294967296.0);
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  const uint64_t bits = (uint64_t)m.size() * 8;
  m.push_back((char)0x80);
  while (m.size() % 64 != 56) m.push_back(0);
  for (int i = 0; i < 8; ++i) m.push_back((char)(bits >> (8 * i)));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16], a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 3; j >= 0; --j) w[i] = w[i] << 8 | (unsigned char)m[o + i * 4 + j]; }
    for (int i = 0; i < 64; ++i) {
      uint32_t f; int g;
      if (i < 16) { f = (b & c) | (~b & d); g = i; }
      else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
      else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
      else { f = c ^ (b | ~d); g = 7 * i % 16; }
      f += a + k[i] + w[g];
      const int s = r[i / 16 * 4 + i % 4];
      a = d; d = c; c = b; b += f << s | f >> (32 - s);
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  string out;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) out.push_back((char)(h[i] >> (8 * j)));
  return out;
}
static string Hex(const string& s) { string t; for (char c : s) t += mc::strf("%02x", (unsigned char)c); return t; }

static string Content(int kind, int n) {
  string s;
  for (int i = 0; i < n; ++i) s.push_back(kind == 0 ? 'a' : kind == 1 ? 0 : kind == 2 ? (char)0xff : kind == 3 ? (char)(i * 131 + i / 256 + 1) : i % 5 ? 'x' : 0);
  return s;
}
static void Feed(Hasher* m, const string& piece, int how) {
  if (how == 0) m->Update(piece.data(), piece.size());
  else if (how == 1) m->Update(piece);
  else if (how == 2) {                                 // C strings have no NUL inside
    const bool nul = piece.find('\0') != string::npos;
    if (nul) m->Update(piece.data(), piece.size()); else m->Update(piece.c_str());
  } else {                                             // whole ints, then the rest
    size_t i = 0;
    for (; i + sizeof(int) <= piece.size(); i += sizeof(int)) { int v; memcpy(&v, piece.data() + i, sizeof v); m->Update(v); }
    m->Update(piece.substr(i));
  }
}
static void Same(Hasher* m, const string& all, const string& how) {
  const string want = Reference(all);
  for (int i = 0; i < 2; ++i) {
    const string got = m->Digest();
    MC_CHECK(got == want, "%zu bytes %s: %s, expected %s%s", all.size(), how.c_str(), Hex(got).c_str(), Hex(want).c_str(), i ? " (asked again)" : "");
  }
  MC_CHECK(Hasher::DebugString(want) == Hex(want), "%s printed as %s", Hex(want).c_str(), Hasher::DebugString(want).c_str());
  mc::step();
}

// Every length, at once and in two pieces cut anywhere.
static void Lengths(int max) {
  const int kind = mc::choose(5, "content"), how = mc::choose(4, "overload");
  const int n = ChooseMany(max + 1);
  const string all = Content(kind, n);
  { Hasher m; MC_CHECK(m(all.data(), all.size()) == Reference(all), "%d bytes at once: %s", n, Hex(m.Digest()).c_str()); }
  for (int cut = 0; cut <= n; ++cut) {
    Hasher m;
    Feed(&m, all.substr(0, cut), how); Feed(&m, all.substr(cut), how);
    Same(&m, all, mc::strf("(content %d) cut at %d, overload %d", kind, cut, how));
  }
  mc::validated();
  mc::state(mc::strf("%d %d %d", kind, how, n));
  mc::outcome(Hex(Reference(all)));
}
// Every way to cut short messages into pieces, after a prefix of any phase.
static void Pieces(int n) {
  static const int prefix[] = {0, 1, 31, 52, 55, 56, 59, 60, 63, 64, 119};
  const int before = prefix[mc::choose(11, "prefix")], kind = mc::choose(5, "content"), how = mc::choose(4, "overload");
  const string all = Content(kind, before + n);
  for (int cuts = 0; cuts < 1 << (n - 1); ++cuts) {
    Hasher m;
    Feed(&m, all.substr(0, before), 0);
    string piece;
    for (int i = 0; i < n; ++i) { piece.push_back(all[before + i]); if (i == n - 1 || cuts >> i & 1) { Feed(&m, piece, how); Feed(&m, "", how % 3); piece.clear(); } }
    Same(&m, all, mc::strf("(content %d, %d before) cut as %x, overload %d", kind, before, cuts, how));
  }
  mc::validated();
  mc::state(mc::strf("%d %d %d %d", before, kind, how, n));
  mc::outcome(Hex(Reference(all)));
}
// Large messages around the powers of two, in pieces of every such size.
static void Large(int bits) {
  const int b = 9 + mc::choose(bits - 8, "size"), d = mc::choose(3, "offset") - 1, kind = mc::choose(5, "content"), piece = 1 << (5 + mc::choose(b - 4, "piece")), e = mc::choose(3, "piece offset") - 1;
  const string all = Content(kind, (1 << b) + d);
  Hasher m;
  for (size_t i = 0; i < all.size(); i += piece + e) Feed(&m, all.substr(i, piece + e), mc::strf("%d", b)[0] % 3);
  Same(&m, all, mc::strf("(content %d) in pieces of %d", kind, piece + e));
  mc::validated();
  mc::state(mc::strf("%d %d %d %d %d", b, d, kind, piece, e));
  mc::outcome(Hex(Reference(all)));
}
// Several objects alive, fed and asked in every order.
static void Objects(int n) {
  Hasher m[3];
  string fed[3];
  bool asked[3] = {false, false, false};
  for (int i = 0; i < n; ++i) {
    const int o = mc::choose(3, "object"), what = mc::choose(3, "what");
    if (what == 2) { Same(&m[o], fed[o], mc::strf("fed to object %d of 3", o)); asked[o] = true; continue; }
    if (asked[o]) { mc::prune(); return; }             // complete
    const string s = Content(3, what ? 61 + i : 3 + i);
    m[o].Update(s); fed[o] += s;
  }
  for (int o = 0; o < 3; ++o) Same(&m[o], fed[o], mc::strf("fed to object %d of 3, at the end", o));
  mc::validated();
  mc::state(mc::strf("%zu%d %zu%d %zu%d", fed[0].size(), asked[0], fed[1].size(), asked[1], fed[2].size(), asked[2]));
  mc::outcome(Hex(Reference(fed[0])));
}
// The printable form of every byte value at every place.
static void Printed(int) {
  const int place = mc::choose(16, "place");
  for (int v = 0; v < 256; ++v) {
    string s = Content(3, 16);
    s[place] = (char)v;
    MC_CHECK(Hasher::DebugString(s) == Hex(s), "byte %d at %d is printed as %s", v, place, Hasher::DebugString(s).c_str());
    mc::step();
  }
  mc::validated();
  mc::state(mc::strf("%d", place));
  mc::outcome(mc::strf("%d", place));
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C33", {
    {"lengths", Lengths, {130, 260}, {130, 260, 600}, "bytes", false, "messages of every length, cut in two at every place"},
    {"pieces", Pieces, {8, 11}, {8, 11, 14}, "bytes", false, "every way to cut a message, after prefixes of every phase"},
    {"large", Large, {17}, {17, 20}, "bits", false, "messages around 2^9 to 2^17 bytes (thorough: 2^20)"},
    {"objects", Objects, {4, 5}, {4, 5, 6, 7}, "operations", false, "three objects used in every order"},
    {"printed", Printed, {0}, {0}, "full", false, "printable form of every byte value at every place"},
  });
}
