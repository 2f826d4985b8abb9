#include "driver.hpp"
#include <cest/swap.hpp>
#include <cest/cmath.hpp>
#include <memory>
#include <tuple>
namespace vf {
constexpr unsigned SREC = 4, SOPS = 6, SLOTS = 64;
const Shape vf_shape{1, SREC, SOPS, 60};
const char* const vf_rule = "A case is a header choosing the value type (int, std::string, move-only, copy-counting, vector of strings, pointer, long double, a class that overloads comma, address-of and arithmetic) and a list of 4-byte records, each rotating between 0 and 24, or 25, 31, 32, 33, 40, 63 or 64 (int, std::string and copy-counting), of 64 variables with swap or swapr; the variables are compared with std::rotate on a model; it is non-trivial if at least 3 calls have two or more arguments.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
struct MoveOnly { std::unique_ptr<unsigned> p; explicit MoveOnly(unsigned v) : p(new unsigned(v)) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
struct Counter {
  unsigned v; static inline u64 copies, moves;
  explicit Counter(unsigned x) : v(x) {}
  Counter(const Counter& o) : v(o.v) { ++copies; } Counter& operator=(const Counter& o) { v = o.v; ++copies; return *this; }
  Counter(Counter&& o) noexcept(false) : v(o.v) { ++moves; o.v = ~0u; } Counter& operator=(Counter&& o) noexcept(false) { unsigned t = o.v; o.v = ~0u; v = t; ++moves; return *this; }
};
// The operators of the value type are its own business: none of them takes part in a swap.
struct Greedy {
  unsigned v; explicit Greedy(unsigned x) : v(x) {} Greedy(Greedy&& o) noexcept : v(o.v) { o.v = ~0u; } Greedy& operator=(Greedy&& o) noexcept { unsigned t = o.v; o.v = ~0u; v = t; return *this; }
  friend Greedy& operator,(Greedy& a, Greedy&) { return a; } template <class U> friend Greedy& operator,(Greedy& a, U&&) { return a; }
  template <class U> friend Greedy& operator+(Greedy& a, U&&) { a.v += 1; return a; } template <class U> friend Greedy& operator^(Greedy& a, U&&) { a.v = 0; return a; }
  bool operator==(const Greedy&) const { return true; } bool operator!() const { return true; } Greedy* operator&() const { return nullptr; }
};
template <class T> T mk(unsigned n); template <class T> unsigned val(const T&);
template <> Greedy mk<Greedy>(unsigned n) { return Greedy(n); } template <> unsigned val(const Greedy& g) { return g.v; }
template <> int mk<int>(unsigned n) { return int(n); } template <> unsigned val(const int& x) { return unsigned(x); }
template <> std::string mk<std::string>(unsigned n) { return std::string(n % 50, 'x') + std::to_string(n); } template <> unsigned val(const std::string& s) { unsigned n = 0; for (char c : s) if (c != 'x') n = n * 10 + unsigned(c - '0'); return s == mk<std::string>(n) ? n : ~0u - 1; }
template <> MoveOnly mk<MoveOnly>(unsigned n) { return MoveOnly(n); } template <> unsigned val(const MoveOnly& m) { return m.p ? *m.p : ~0u; }
template <> Counter mk<Counter>(unsigned n) { return Counter(n); } template <> unsigned val(const Counter& m) { return m.v; }
using VS = std::vector<std::string>;
template <> VS mk<VS>(unsigned n) { return VS(n % 7 + 1, std::to_string(n)); } template <> unsigned val(const VS& v) { return v.empty() ? ~0u : unsigned(std::stoul(v[0])) + (v.size() == std::stoul(v[0]) % 7 + 1 ? 0 : 1000000); }
static unsigned pool[100000];
using P = unsigned*;
template <> P mk<P>(unsigned n) { return &pool[n % 100000]; } template <> unsigned val(const P& p) { return unsigned(p - pool); }
template <> long double mk<long double>(unsigned n) { return n; } template <> unsigned val(const long double& x) { return unsigned(x); }

template <unsigned N, class T, std::size_t... I> void call(T** v, bool r, std::index_sequence<I...>) { if (r) nary::swapr(*v[I]...); else nary::swap(*v[I]...); }
template <class T> constexpr bool many = std::is_same_v<T, int> || std::is_same_v<T, Counter> || std::is_same_v<T, std::string>;
template <class T> void dispatch(unsigned n, T** v, bool r) {
  switch (n) {
#define K(N) case N: return call<N>(v, r, std::make_index_sequence<N>());
    K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10) K(11) K(12) K(13) K(14) K(15) K(16)
    default: if constexpr (many<T>) switch (n) {
    K(17) K(18) K(19) K(20) K(21) K(22) K(23) K(24) K(25) K(31) K(32) K(33) K(40) K(63) K(64)
    }
#undef K
  }
}
template <class T> void run(Src s, Ctx& c) {
  std::vector<T> x; std::vector<unsigned> m;
  for (unsigned i = 0; i < SLOTS; i++) { x.push_back(mk<T>(i * 37 + 5)); m.push_back(i * 37 + 5); }
  Counter::copies = Counter::moves = 0;
  unsigned calls = 0, big = 0;
  while (!s.done()) {
    unsigned op = s.byte() % SOPS, n = s.byte() % 40, start = s.byte(), step = s.byte();
    static const unsigned large[] = {25, 31, 32, 33, 40, 63, 64}; n = n < 17 ? n : n < 32 ? n - 16 : n < 39 ? large[n - 32] : 24; if (n == 15 && start % 2) n = 17 + step % 8; if (n > 16 && !many<T>) n %= 17;
    bool r = op & 1;
    static const unsigned steps[] = {1, 5, 7, 11, 13, 17, 19, 23};
    T* a[SLOTS]; unsigned at[SLOTS];
    for (unsigned i = 0; i < n; i++) { at[i] = (start + i * steps[step % 8]) % SLOTS; a[i] = std::addressof(x[at[i]]); }
    c.say(std::string(r ? "swapr " : "swap ") + std::to_string(n) + " from " + std::to_string(start % SLOTS) + " step " + std::to_string(steps[step % 8]));
    const u64 mv = Counter::moves;
    auto rotate = [&](bool rr) { std::vector<unsigned> o; for (unsigned i = 0; i < n; i++) o.push_back(m[at[i]]); if (n) { if (rr) std::rotate(o.rbegin(), o.rbegin() + 1, o.rend()); else std::rotate(o.begin(), o.begin() + 1, o.end()); } for (unsigned i = 0; i < n; i++) m[at[i]] = o[i]; };
    dispatch(n, a, r); rotate(r);
    if (op >= 4) { dispatch(n, a, !r); rotate(!r); }                        // the inverse restores the values
    if (Counter::copies) throw Mismatch{"a value was copied"};
    if (Counter::moves - mv > (op >= 4 ? 2 : 1) * (n + 1)) throw Mismatch{std::to_string(Counter::moves - mv) + " moves for " + std::to_string(n) + " arguments"};
    for (unsigned i = 0; i < SLOTS; i++) if (val(x[i]) != m[i]) throw Mismatch{std::string(r ? "swapr" : "swap") + " of " + std::to_string(n) + " variables: variable " + std::to_string(i) + " holds " + std::to_string(val(x[i])) + ", expected " + std::to_string(m[i])};
    c.label(n < 2 ? "arity 0..1" : n < 17 ? "arity 2..16" : n < 26 ? "arity 17..25" : "arity 31..64"); ++calls; if (n >= 2) ++big;
  }
  c.nontrivial = big >= 3;
  (void)calls;
}
static_assert(noexcept(nary::swap()) && noexcept(nary::swapr()));
constexpr bool at_compile_time() {
  int a = 1, b = 2, c = 3, d = 4; nary::swap(a, b, c, d); bool r = a == 2 && b == 3 && c == 4 && d == 1;
  nary::swapr(a, b, c, d); r = r && a == 1 && b == 2 && c == 3 && d == 4; nary::swapr(a, b, c); return r && a == 3 && b == 1 && c == 2 && d == 4;
}
void vf_case(Src s, Ctx& c) {
  static constexpr bool ok = at_compile_time();
  if (!ok) throw Mismatch{"wrong rotation in a constant expression"};
  switch (s.byte() % 8) {
    case 0: return run<int>(s, c); case 1: return run<std::string>(s, c); case 2: return run<MoveOnly>(s, c); case 3: return run<Counter>(s, c);
    case 4: return run<VS>(s, c); case 5: return run<P>(s, c); case 6: return run<Greedy>(s, c); default: return run<long double>(s, c);
  }
}
} // namespace vf
