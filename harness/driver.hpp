// Run-time driver: generates cases deterministically from (seed, index), runs them and
// keeps the case in flight in a memory-mapped file so that the supervisor can recover
// it from a crash or a hang.  Modes:
//   BIN run SEED FROM TO STRIDE CURFILE STATSFILE
//   BIN replay FILE [-v]
//   BIN shape
// Exit codes: 0 held; 42 oracle mismatch (message on stdout); 43 sanitizer; else crash.
#ifndef VERIF_DRIVER_HPP
#define VERIF_DRIVER_HPP
#include "core.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

namespace vf {

using Bytes = std::vector<u8>;

struct Rng {
  u64 s;
  explicit Rng(u64 a, u64 b = 0) : s(mix(mix(0x1234567, a), b)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

struct Ctx {
  bool nontrivial = false;
  bool verbose = false;
  bool replay = false;                             // one case run on its own
  std::string* desc = nullptr;                     // when set, the case describes itself
  std::map<std::string, u64>* labels = nullptr;
  std::set<std::string> seen;
  void label(const char* l) { if (labels && seen.insert(l).second) ++(*labels)[l]; }
  void say(const std::string& s) { if (desc && desc->size() < 4000) { *desc += s; *desc += '\n'; } }
};

// Provided by the harness ------------------------------------------------------------
struct Shape { unsigned header; unsigned rec; unsigned nops; unsigned maxops; };
extern const Shape vf_shape;
extern const char* const vf_rule;                  // what makes a case non-trivial
void vf_gen(Rng& r, Bytes& out);                   // one case
void vf_case(Src s, Ctx& c);                       // throws Mismatch on a violation

// The standard generator: a header, then fixed-size operation records with swarm
// weights per operation, varied length and varied argument distributions.
inline void swarm_gen(Rng& r, Bytes& out, const Shape& sh, const std::vector<unsigned>& base = {}) {
  for (unsigned i = 0; i < sh.header; i++) out.push_back((u8)r.next());
  unsigned m = r.below(100), n;
  if (m < 25) n = 1 + r.below(8); else if (m < 75) n = 4 + r.below(32); else if (m < 95) n = 20 + r.below(100); else n = 80 + r.below(240);
  n = std::min(n, sh.maxops);
  std::vector<unsigned> w(sh.nops);
  unsigned tot = 0;
  bool swarm = r.chance(3, 4);
  for (unsigned i = 0; i < sh.nops; i++) {
    unsigned b = base.empty() ? 4 : base[i];
    w[i] = b * (swarm ? (r.chance(1, 2) ? 1 : r.chance(1, 3) ? 6 : r.chance(1, 2) ? 0 : 2) : 1);
    tot += w[i];
  }
  if (!tot) { for (auto& x : w) x = 1; tot = sh.nops; }
  unsigned argmode = r.below(4);
  for (unsigned k = 0; k < n; k++) {
    u64 t = r.below(tot); unsigned op = 0;
    while (t >= w[op]) t -= w[op++];
    out.push_back((u8)op);
    for (unsigned j = 1; j < sh.rec; j++) {
      u64 v = r.next();
      switch (argmode) {
        case 0: out.push_back((u8)v); break;
        case 1: out.push_back((v & 0x300) ? (u8)(v % 8) : (u8)v); break;
        case 2: out.push_back((v & 0x300) == 0 ? 0 : (v & 0x300) == 0x100 ? 255 : (u8)v); break;
        default: out.push_back((u8)(v % 64)); break;
      }
    }
  }
}

// Runs the same history on the oracle and on the implementation and compares every
// observation, stopping at the first difference.
template <class Oracle, class Impl>
void differential(Src s, Ctx& c, Oracle&& oracle, Impl&& impl) {
  RecordSink r;
  try { oracle(s, r); }
  catch (const Mismatch& m) { std::fprintf(stderr, "HARNESS ERROR: oracle failed: %s\n", m.msg.c_str()); std::exit(99); }
  catch (const std::exception& e) { std::fprintf(stderr, "HARNESS ERROR: oracle threw %s\n", e.what()); std::exit(99); }
  CompareSink k{&r.r};
  std::string log;
  if (c.desc || c.verbose) k.log = &log;
  try { impl(s, k); k.finish(); }
  catch (const Mismatch&) { c.say(log); throw; }
  catch (const std::exception& e) { c.say(log); throw Mismatch{std::string("unexpected exception: ") + e.what() + k.where()}; }
  c.say(log);
  c.say("observations compared: " + std::to_string(k.i));
}

// A history of few operations over very large containers: the first `ops` records.
inline Src few(Src s, unsigned rec, unsigned ops) { s.n = std::min<std::size_t>(s.n, s.i + std::size_t(rec) * ops); return s; }
constexpr unsigned HUGE_N = 65540;                  // past what 16 bits can count

inline std::string hex(const u8* p, std::size_t n) {
  static const char* d = "0123456789abcdef"; std::string s;
  for (std::size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  return s;
}

inline std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    u8 c = (u8)ch;
    if (c == '"' || c == '\\') { o += '\\'; o += ch; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += ch;
  }
  return o + "\"";
}

// One case in this process. Returns true if it held.
inline bool run_one(const u8* p, std::size_t n, Ctx& c, std::string& msg) {
  try { vf_case(Src(p, n), c); return true; }
  catch (const Mismatch& m) { msg = m.msg; return false; }
}

} // namespace vf

#ifndef VF_NO_MAIN
#ifdef VF_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  if (n > 6000) return 0;
  vf::Ctx c; std::string msg;
  if (!vf::run_one(d, n, c, msg)) { std::fprintf(stderr, "PROPFAIL: %s\n", msg.c_str()); std::abort(); }
  return 0;
}
#else
int main(int argc, char** argv) {
  using namespace vf;
  if (argc >= 2 && !std::strcmp(argv[1], "shape")) {
    std::printf("%u %u %u\n%s\n", vf_shape.header, vf_shape.rec, vf_shape.nops, vf_rule);
    return 0;
  }
  if (argc >= 3 && !std::strcmp(argv[1], "replay")) {
    FILE* f = std::fopen(argv[2], "rb");
    if (!f) { std::fprintf(stderr, "cannot open %s\n", argv[2]); return 98; }
    Bytes b; int ch; while ((ch = std::fgetc(f)) != EOF) b.push_back((u8)ch);
    std::fclose(f);
    Ctx c; std::string d, msg;
    c.replay = true;
    if (argc >= 4) { c.verbose = true; c.desc = &d; }
    Bytes* heap = new Bytes(b);                     // exact-size heap copy for ASan
    heap->shrink_to_fit();
    bool ok = run_one(heap->data(), heap->size(), c, msg);
    if (argc >= 4) std::printf("%s\n", d.c_str());
    if (!ok) { std::printf("PROPFAIL: %s\n", msg.c_str()); std::fflush(stdout); _exit(42); }
    std::printf("held%s\n", c.nontrivial ? " (non-trivial)" : "");
    std::fflush(stdout); _exit(0);
  }
  if (argc < 8 || std::strcmp(argv[1], "run")) { std::fprintf(stderr, "usage\n"); return 98; }
  u64 seed = std::strtoull(argv[2], 0, 10), from = std::strtoull(argv[3], 0, 10), to = std::strtoull(argv[4], 0, 10), stride = std::strtoull(argv[5], 0, 10);
  const std::size_t MAP = 1 << 20;
  int fd = open(argv[6], O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, MAP)) return 98;
  u8* map = (u8*)mmap(nullptr, MAP, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (map == MAP_FAILED) return 98;
  std::map<std::string, u64> labels;
  std::unordered_set<u64> distinct;
  std::vector<std::string> samples;
  u64 evals = 0, nontriv = 0;
  int rc = 0; std::string msg;
  for (u64 i = from; i < to; i += stride) {
    Rng r(seed, i);
    Bytes b; vf_gen(r, b);
    if (b.size() > MAP - 64) b.resize(MAP - 64);
    u64 len = b.size();
    std::memcpy(map + 16, b.data(), len);
    std::memcpy(map + 8, &len, 8);
    std::memcpy(map, &i, 8);
    Ctx c; std::string d; c.labels = &labels;
    bool want = samples.size() < 2 && i >= from;
    if (want) c.desc = &d;
    bool ok = run_one(b.data(), b.size(), c, msg);
    ++evals;
    if (c.nontrivial) {
      ++nontriv; u64 h = 7; for (u8 x : b) h = mix(h, x); distinct.insert(h);
      if (want) { if (d.size() > 1500) d = d.substr(0, 1500) + "..."; samples.push_back("{\"index\":" + std::to_string(i) + ",\"bytes\":" + json_str(hex(b.data(), std::min<std::size_t>(b.size(), 400))) + ",\"history\":" + json_str(d) + "}"); }
    }
    if (!ok) { rc = 42; break; }
  }
  FILE* f = std::fopen(argv[7], "w");
  if (!f) return 98;
  std::fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"labels\":{", (unsigned long long)evals, (unsigned long long)nontriv);
  bool first = true;
  for (auto& [k, v] : labels) { std::fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(k).c_str(), (unsigned long long)v); first = false; }
  std::fprintf(f, "},\"samples\":[");
  for (std::size_t i = 0; i < samples.size(); i++) std::fprintf(f, "%s%s", i ? "," : "", samples[i].c_str());
  std::fprintf(f, "],\"message\":%s}\n", json_str(msg).c_str());
  std::fclose(f);
  std::string hf = std::string(argv[7]) + ".hashes";
  if ((f = std::fopen(hf.c_str(), "wb"))) { for (u64 h : distinct) std::fwrite(&h, 8, 1, f); std::fclose(f); }
  _exit(rc);
}
#endif
#endif
#endif
