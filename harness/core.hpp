// Shared, constexpr-friendly pieces: byte source, observation sinks, element makers.
#ifndef VERIF_CORE_HPP
#define VERIF_CORE_HPP
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace vf {

using u8 = unsigned char;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

constexpr u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
  return h;
}

// Total decoder over a byte string: once the bytes are used up it yields zeros and
// done() is true, so every byte string is a valid case.
struct Src {
  const u8* p; std::size_t n; std::size_t i = 0;
  constexpr Src(const u8* p_, std::size_t n_) : p(p_), n(n_) {}
  constexpr bool done() const { return i >= n; }
  constexpr u8 byte() { return i < n ? p[i++] : u8(0); }
  constexpr unsigned u16() { unsigned a = byte(); return a | unsigned(byte()) << 8; }
  constexpr u64 u64v() { u64 r = 0; for (int k = 0; k < 8; k++) r |= u64(byte()) << (8 * k); return r; }
  constexpr unsigned below(unsigned m) { return m ? byte() % m : 0; }      // m <= 256
  constexpr unsigned below16(unsigned m) { return m ? u16() % m : 0; }
  // a count: 0..3 mostly small, sometimes mid, sometimes near `big`
  constexpr unsigned count(unsigned big) {
    unsigned b = byte();
    if (big >= 1000 && b >= 140) { unsigned c = byte(); return (big >> (b % 6)) - 4 + c % 9; }     // a long history
    if (b < 160) return b % 6;
    if (b < 224) return b % 33;
    if (b < 248) return (b % 8) * 7 + byte() % 32;
    unsigned c = byte();
    return big ? (c < 128 ? big - 4 + c % 9 : (c * 37u) % (big + 1)) : c % 64;
  }
};

// Thrown by the comparing sink at the first difference.
struct Mismatch { std::string msg; };

// Sinks ------------------------------------------------------------------------------
// obs(tag, value): an observable result. op(name,a,b): an operation about to be made.
// check(cond, what): an invariant of the implementation under test alone.
struct HashSink {                                   // constexpr
  static constexpr bool no_throw = true;            // no exceptions: not allowed in constant expressions
  u64 h = 1469598103934665603ULL; u64 n = 0; bool bad = false;
  constexpr void op(const char*, u64 = 0, u64 = 0) {}
  constexpr void obs(const char*, u64 v) { h = mix(h, v); ++n; }
  constexpr void check(bool c, const char*) { if (!c) { bad = true; h = mix(h, 0xbadbadbadULL); } }
};

struct Rec { u64 v; const char* tag; };

struct RecordSink {                                 // oracle run
  static constexpr bool no_throw = false;
  std::vector<Rec> r; u64 ops = 0;
  void op(const char*, u64 = 0, u64 = 0) { ++ops; }
  void obs(const char* t, u64 v) { r.push_back({v, t}); }
  void at_most(const char* t, u64 v) { obs(t, v); }
  void check(bool c, const char* w) { if (!c) throw Mismatch{std::string("oracle invariant: ") + w}; }
};

struct CompareSink {                                // implementation run
  static constexpr bool no_throw = false;
  const std::vector<Rec>* r; std::size_t i = 0; std::string last; std::string* log = nullptr;
  void op(const char* n, u64 a = 0, u64 b = 0) {
    cur = n; ca = a; cb = b;
    if (log) { *log += n; *log += '(' + std::to_string(a) + ',' + std::to_string(b) + ")\n"; }
  }
  const char* cur = "start"; u64 ca = 0, cb = 0;
  std::string where() const { return std::string(" [during ") + cur + "(" + std::to_string(ca) + "," + std::to_string(cb) + "), observation " + std::to_string(i) + "]"; }
  void obs(const char* t, u64 v) {
    if (i >= r->size()) throw Mismatch{std::string("extra observation ") + t + "=" + std::to_string(v) + where()};
    const Rec& e = (*r)[i];
    if (e.v != v) throw Mismatch{std::string(t) + ": expected " + std::to_string(e.v) + ", got " + std::to_string(v) + where()};
    ++i;
  }
  void at_most(const char* t, u64 v) { obs(t, i < r->size() && v < (*r)[i].v ? (*r)[i].v : v); }   // a cost bounded by the oracle's
  void check(bool c, const char* w) { if (!c) throw Mismatch{std::string("invariant: ") + w + where()}; }
  void finish() { if (i != r->size()) throw Mismatch{std::string("missing observations, next ") + (*r)[i].tag + where()}; }
};

// Called after every operation with all the containers of a history; only the sinks of
// the lifetime and allocator checks look at them.
template <class S, class V> constexpr void tick(S& k, V (&v)[3]) { if constexpr (requires { k.tick(v); }) k.tick(v); }

// Elements -----------------------------------------------------------------------------
template <class T> struct Elem;                     // make(unsigned), val(const T&)
template <> struct Elem<int> {
  static constexpr int make(unsigned n) { return int(n) - 7; }
  static constexpr u64 val(int x) { return u64(std::int64_t(x)); }
};
template <> struct Elem<long> {
  static constexpr long make(unsigned n) { return long(n) - 7; }
  static constexpr u64 val(long x) { return u64(x); }
};
template <> struct Elem<unsigned char> {
  static constexpr unsigned char make(unsigned n) { return (unsigned char)n; }
  static constexpr u64 val(unsigned char x) { return x; }
};
template <> struct Elem<double> {
  static constexpr double make(unsigned n) { return n * 0.5; }
  static constexpr u64 val(double x) { return u64(std::int64_t(x * 2)); }
};
template <> struct Elem<std::string> {
  static std::string make(unsigned n) { return std::string(n % 40, char('a' + n % 26)) + std::to_string(n); }
  static u64 val(const std::string& s) { u64 h = s.size(); for (char c : s) h = mix(h, (u8)c); return h; }
};
// A heap-owning element usable in constant expressions. Default value 0.
struct Own {
  int* p;
  constexpr Own() : p(new int(0)) {}
  constexpr explicit Own(int v) : p(new int(v)) {}
  constexpr Own(const Own& o) : p(new int(*o.p)) {}
  constexpr Own& operator=(const Own& o) { if (this != &o) *p = *o.p; return *this; }
  constexpr ~Own() { delete p; }
  constexpr bool operator==(const Own& o) const { return *p == *o.p; }
  constexpr bool operator<(const Own& o) const { return *p < *o.p; }
};
template <> struct Elem<Own> {
  static constexpr Own make(unsigned n) { return Own(int(n) - 7); }
  static constexpr u64 val(const Own& x) { return u64(std::int64_t(*x.p)); }
};
struct alignas(32) Wide {
  int a[9] = {};
  constexpr Wide() = default;
  constexpr bool operator==(const Wide& o) const { return a[0] == o.a[0] && a[8] == o.a[8]; }
  constexpr bool operator<(const Wide& o) const { return a[0] < o.a[0]; }
};
template <> struct Elem<Wide> {
  static constexpr Wide make(unsigned n) { Wide w; w.a[0] = int(n); w.a[8] = int(n) + 3; return w; }
  static constexpr u64 val(const Wide& w) { return mix(u64(w.a[0]), u64(w.a[8])); }
};

// A structure without constructors: T() is all zeros.
struct Pod { int a; double b; char c[12]; constexpr bool operator==(const Pod& o) const { return a == o.a && b == o.b && c[0] == o.c[0] && c[11] == o.c[11]; } constexpr bool operator<(const Pod& o) const { return a < o.a; } };
template <> struct Elem<Pod> {
  static constexpr Pod make(unsigned n) { return Pod{int(n), n * 0.5, {char(n), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, char(n >> 3)}}; }
  static constexpr u64 val(const Pod& x) { u64 h = mix(u64(x.a), u64(std::int64_t(x.b * 2))); for (char c : x.c) h = mix(h, u64(c)); return h; }
};

template <class It, class S>
constexpr void obs_range(S& k, const char* tag, It b, It e, std::size_t limit) {
  std::size_t n = 0;
  using T = std::remove_cvref_t<decltype(*b)>;
  for (; !(b == e); ++b) {
    if (n++ > limit) { k.check(false, "iteration does not reach the end after size() steps"); return; }
    k.obs(tag, Elem<T>::val(*b));
  }
  k.obs(tag, 0x5157u + n);
}

} // namespace vf
#endif
