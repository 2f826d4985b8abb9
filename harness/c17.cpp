#include "driver.hpp"
#include "interp_string.hpp"
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
#include <cest/string.hpp>
#include <cest/memory.hpp>
#include <cest/shared_ptr.hpp>
#include <memory>
#include <iostream>
#include <sstream>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
namespace vf {
constexpr unsigned OUT_OPS = 24, OUT_REC = 7;
const Shape vf_shape{0, OUT_REC, OUT_OPS, 80};
const char* const vf_rule = "A case is a list of 7-byte operation records, each one write (characters, C strings, strings with embedded nulls, int, unsigned, long, pointers, flush, endl, manipulators, printf and fprintf with many formats) to standard output or standard error; it is run once through std and once through cest with both descriptors redirected to files, and the bytes in each file are compared at the end and at every endl and flush; it is non-trivial if at least 4 writes are made.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

struct Never { int x; static void operator delete(void*) {} };             // lives in static storage: the same address in both runs
static int cells[64]; static Never cell;
struct Std {
  template <class T> using up = std::unique_ptr<T>; template <class T> using sp = std::shared_ptr<T>;
  using str = std::string;
  static std::ostream& os(unsigned w) { return w == 0 ? std::cout : w == 1 ? std::cerr : std::clog; }
  static std::ostream& endl(std::ostream& o) { return std::endl(o); }
  static void hex(std::ostream& o) { o << std::hex; } static void dec(std::ostream& o) { o << std::dec; } static void oct(std::ostream& o) { o << std::oct; }
  static void nl(std::ostream& o) { o << std::endl; }
  template <class... A> static int pf(const char* f, A&&... a) { return std::printf(f, std::forward<A>(a)...); }
  template <class... A> static int fpf(unsigned w, const char* f, A&&... a) { return std::fprintf(w ? stderr : stdout, f, std::forward<A>(a)...); }
};
struct Cst {
  template <class T> using up = cest::unique_ptr<T>; template <class T> using sp = cest::shared_ptr<T>;
  using str = cest::string;
  static cest::ostream& os(unsigned w) { return w == 0 ? cest::cout : w == 1 ? cest::cerr : cest::clog; }
  static void hex(cest::ostream& o) { o << cest::hex; } static void dec(cest::ostream& o) { o << cest::dec; } static void oct(cest::ostream& o) { o << cest::oct; }
  static void nl(cest::ostream& o) { o << cest::endl; }
  template <class... A> static int pf(const char* f, A&&... a) { return cest::printf(f, std::forward<A>(a)...); }
  template <class... A> static int fpf(unsigned w, const char* f, A&&... a) { return cest::fprintf(w ? cest::stderr : cest::stdout, f, std::forward<A>(a)...); }
};
struct Result { std::string out, err; std::vector<long> seen; std::vector<int> ret; };
static int real1 = -1, real2 = -1, f1 = -1, f2 = -1;
static std::string slurp(int fd) { off_t n = lseek(fd, 0, SEEK_END); std::string s(std::size_t(n), 0); if (n > 0 && pread(fd, s.data(), std::size_t(n), 0) != n) std::exit(99); return s; }
static void reset_streams() {
  for (std::ostream* o : {&std::cout, &std::cerr, &std::clog}) { o->clear(); o->flags(std::ios_base::dec | std::ios_base::skipws | (o == &std::cerr ? std::ios_base::unitbuf : std::ios_base::fmtflags(0))); o->width(0); }
}
// own: the streams have buffers of their own, so nothing is printed to a descriptor
template <class X> void program(Src s, Result& R, std::string* say, bool own = false) {
  using str = typename X::str;
  unsigned n = 0;
  auto seen = [&](unsigned w) { if (!own) R.seen.push_back(long(lseek(w == 0 ? f1 : f2, 0, SEEK_END))); };
  while (!s.done()) {
    unsigned op = s.byte() % OUT_OPS, w = s.byte() % 3, x = s.byte(), y = s.byte(), mode = s.byte(), seed = s.byte(), z = s.byte();
    auto& o = X::os(w);
    const int iv = x < 64 ? int(x) : x < 128 ? -int(y) : x < 192 ? int(u32(x) << 24 | u32(y) << 16 | z << 8 | seed) : x & 1 ? std::numeric_limits<int>::min() : std::numeric_limits<int>::max();
    const unsigned uv = unsigned(iv);
    const unsigned len = y < 200 ? y % 30 : y < 252 ? y * 3 : z < 240 ? 4090 + z % 16 : 65530 + z % 16;
    Buf<char> t(len + 1); fill(t.p, len, mode, seed);
    if (say) *say += "op " + std::to_string(op) + " stream " + std::to_string(w) + " " + std::to_string(iv) + " len " + std::to_string(len) + "\n";
    if (own && op >= 12 && op <= 18) continue;
    switch (op) {
      case 0: o << char(y); break;
      case 1: o << t.p; break;
      case 2: o << "literal text"; o << ' '; break;
      case 3: { str q(t.p, len); o << q; break; }
      case 4: { const str q(t.p, len); o << q << '|' << q; break; }
      case 5: case 6: o << iv; break;
      case 7: o << uv << ' ' << iv; break;
      case 8: X::nl(o); seen(w); break;   // what this stream has delivered so far
      case 9: X::hex(o); break;
      case 10: X::dec(o); break;
      case 11: X::oct(o); break;
      case 12: { static const char* const f[8] = {"plain\n", "100%%", "%%d%%", "a%%b%%%%c", "", "tab\there", "%%", "no newline"}; R.ret.push_back(z & 1 ? X::pf(f[x % 8]) : X::fpf(w & 1, f[x % 8])); break; }
      case 13: R.ret.push_back(z & 1 ? X::pf("%d %u %x %o\n", iv, uv, uv, uv) : X::fpf(w & 1, "%d %u %x %o\n", iv, uv, uv, uv)); break;
      case 14: R.ret.push_back(z & 1 ? X::pf("[%s][%10s][%-8.3s]", t.p, t.p, t.p) : X::fpf(w & 1, "[%s][%10s][%-8.3s]", t.p, t.p, t.p)); break;
      case 15: { const char cc = char(y); R.ret.push_back(z & 1 ? X::pf("<%c%c>", cc, char(x)) : X::fpf(w & 1, "<%c%c>", cc, char(x))); break; }   // may be null characters
      case 16: { double d = iv / 64.0; R.ret.push_back(z & 1 ? X::pf("%f %.3e %g %8.2f", d, d, d, d) : X::fpf(w & 1, "%f %.3e %g %8.2f", d, d, d, d)); break; }
      case 17: { long long l = (long long)iv << (x % 33); R.ret.push_back(z & 1 ? X::pf("%lld %llx %zu %5ld%%", l, (unsigned long long)l, std::size_t(x), long(iv)) : X::fpf(w & 1, "%lld %llx %zu %5ld%%", l, (unsigned long long)l, std::size_t(x), long(iv))); break; }
      case 18: { int wd = int(x % 30), pr = int(y % 12); R.ret.push_back(z & 1 ? X::pf("%*d|%-*d|%.*s|%+d|%05d", wd, iv, wd, iv, pr, t.p, iv, iv) : X::fpf(w & 1, "%*d|%-*d|%.*s|%+d|%05d", wd, iv, wd, iv, pr, t.p, iv, iv)); break; }
      case 19: o << (long(iv) << (x % 33)) << ' ' << long(y); break;
      case 20: o.flush(); seen(w); break;
      case 21: { int* const q = y & 1 ? &cells[x % 64] : nullptr; typename X::template up<int> u(q); o << u; u.release(); if (z & 1) { const void* v = &cells[z % 64]; o << ' ' << v; } break; }
      case 22: { typename X::template sp<Never> u(y & 1 ? new (&cell) Never : nullptr); o << u << '.' << u; break; }
      default: { o << t.p << ' ' << iv << char('a' + x % 26); X::hex(o); o << uv; X::dec(o); X::nl(o); break; }
    }
    ++n;
  }
}
template <class X> Result capture(Src s, std::string* say) {
  if (real1 < 0) {
    real1 = dup(1); real2 = dup(2);
    f1 = memfd_create("out", 0); f2 = memfd_create("err", 0);
    if (f1 < 0 || f2 < 0) { FILE* a = tmpfile(); FILE* b = tmpfile(); if (!a || !b) std::exit(99); f1 = dup(fileno(a)); f2 = dup(fileno(b)); }
    // so that the standard streams see a file, as under a redirection
  }
  if (ftruncate(f1, 0) || ftruncate(f2, 0)) std::exit(99);
  lseek(f1, 0, SEEK_SET); lseek(f2, 0, SEEK_SET);
  std::cout.flush(); std::clog.flush(); std::fflush(nullptr);
  dup2(f1, 1); dup2(f2, 2);
  reset_streams();
  Result R;
  program<X>(s, R, say);
  std::cout.flush(); std::clog.flush(); std::fflush(nullptr);
  dup2(real1, 1); dup2(real2, 2);
  R.out = slurp(f1); R.err = slurp(f2);
  return R;
}
// Each of the three streams printing to a buffer of its own
struct Marked : std::stringbuf { unsigned syncs = 0; int sync() override { ++syncs; return 0; } };
template <class X> void separate(Src s, std::string (&got)[3]) {
  Marked b[3]; std::ostream* const o[3] = {&std::cout, &std::cerr, &std::clog}; std::streambuf* was[3];
  for (int i = 0; i < 3; i++) was[i] = o[i]->rdbuf(&b[i]);
  reset_streams();
  Result R; program<X>(s, R, nullptr, true);
  for (int i = 0; i < 3; i++) { o[i]->rdbuf(was[i]); got[i] = b[i].str() + " and " + std::to_string(b[i].syncs) + " flushes, flags " + std::to_string(unsigned(o[i]->flags())); }
  reset_streams();
}
static std::string show(const std::string& s, std::size_t at) { std::size_t b = at < 20 ? 0 : at - 20; return json_str(s.substr(b, 60)); }
static void same(const std::string& a, const std::string& b, const char* what) {
  if (a == b) return;
  std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  throw Mismatch{std::string(what) + " differs at byte " + std::to_string(i) + ": std " + show(a, i) + " (" + std::to_string(a.size()) + " bytes), cest " + show(b, i) + " (" + std::to_string(b.size()) + " bytes)"};
}
void vf_case(Src s, Ctx& c) {
  c.nontrivial = s.n / OUT_REC >= 4;
  Result a = capture<Std>(s, nullptr), b = capture<Cst>(s, c.desc);
  static const char* const name[3] = {"what cout printed", "what cerr printed", "what clog printed"};
  if (s.n % 2) { std::string p[3], q[3]; separate<Std>(s, p); separate<Cst>(s, q); for (int i = 0; i < 3; i++) same(p[i], q[i], name[i]); }
  if (s.n % 8 == 0) {                                                      // again: it must keep no memory, this time at least
    for (int k = 0;; k++) { std::size_t before = __sanitizer_get_current_allocated_bytes(); { Result r = capture<Cst>(s, nullptr); } std::size_t after = __sanitizer_get_current_allocated_bytes(); if (after <= before) break; if (k == 2) throw Mismatch{"writing keeps " + std::to_string(after - before) + " bytes of memory every time"}; }
  }
  c.say("stdout " + std::to_string(a.out.size()) + " bytes, stderr " + std::to_string(a.err.size()) + " bytes");
  same(a.out, b.out, "standard output"); same(a.err, b.err, "standard error");
  if (a.ret != b.ret) { std::size_t i = 0; while (i < a.ret.size() && i < b.ret.size() && a.ret[i] == b.ret[i]) ++i; throw Mismatch{"printf-family call " + std::to_string(i) + " returned a different count" + (i < a.ret.size() && i < b.ret.size() ? ": std " + std::to_string(a.ret[i]) + ", cest " + std::to_string(b.ret[i]) : std::string())}; }
  if (a.seen != b.seen) throw Mismatch{"endl did not deliver the same bytes to the descriptor as std::endl"};
}
} // namespace vf
