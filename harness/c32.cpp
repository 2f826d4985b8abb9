// Awkward element types: everything the standard allows an element to be.
// Compiled once per pair of types, with VF_UNIT 0..9.
#ifndef VF_UNIT
#error "compiled once per pair of element types, with VF_UNIT 0..9"
#endif
#if VF_UNIT != 9
#define VF_NO_MAIN
#endif
#include "driver.hpp"
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/memory.hpp>
#include <cest/queue.hpp>
#include <cest/set.hpp>
#include <cest/shared_ptr.hpp>
#include <cest/swap.hpp>
#include <cest/vector.hpp>
#include <deque>
#include <forward_list>
#include <initializer_list>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <vector>
namespace vf {
constexpr unsigned OPS = 20, REC = 4;
#if VF_UNIT == 9
extern const Shape vf_shape{2, REC, OPS, 120};
extern const char* const vf_rule = "A case is a header choosing a container and an awkward element type and a list of 4-byte operation records over three containers; it is non-trivial if it makes at least 5 operations.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
#endif

inline long alive = 0;
struct Heap {                                       // what most of them hold: something to leak or read too late
  int* p; explicit Heap(int v) : p(new int(v)) { ++alive; } Heap(const Heap& o) : p(new int(*o.p)) { ++alive; } Heap& operator=(const Heap& o) { *p = *o.p; return *this; } ~Heap() { --alive; delete p; }
};
struct Live { Live() { ++alive; } Live(const Live&) { ++alive; } Live& operator=(const Live&) { return *this; } ~Live() { --alive; } };
// the comma operator is not available, and ! and bool lie
struct Odd {
  Heap h; explicit Odd(int v) : h(v) {}
  template <class U> void operator,(U&&) const = delete; template <class U> friend void operator,(U&&, const Odd&) = delete;
  explicit operator bool() const { return false; } bool operator!() const { return true; }
  int get() const { return *h.p; }
};
struct NoDefault { Heap h; explicit NoDefault(int v) : h(v) {} int get() const { return *h.p; } };
struct NoAssign { const int v; Heap h; explicit NoAssign(int x) : v(x), h(x) {} NoAssign(const NoAssign&) = default; NoAssign& operator=(const NoAssign&) = delete; int get() const { return v == *h.p ? v : -1; } };
struct MoveOnly { std::unique_ptr<int> p; Live l; MoveOnly() {} explicit MoveOnly(int v) : p(new int(v)) {} MoveOnly(MoveOnly&&) noexcept = default; MoveOnly& operator=(MoveOnly&&) noexcept = default; int get() const { return p ? *p : -7; } };
struct MoveThrow { std::unique_ptr<int> p; Live l; explicit MoveThrow(int v) : p(new int(v)) {} MoveThrow(MoveThrow&& o) noexcept(false) : p(std::move(o.p)) {} MoveThrow& operator=(MoveThrow&& o) noexcept(false) { p = std::move(o.p); return *this; } int get() const { return p ? *p : -7; } };
struct Pinned { int v; Heap h; explicit Pinned(int x) : v(x), h(x) {} Pinned(int x, int y) : v(x + y), h(x + y) {} Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete; int get() const { return v == *h.p ? v : -1; } };
struct Greedy {                                     // made from anything, but only a copy or move keeps the value
  int v; Heap h; Greedy(int x, int) : v(x), h(x) {}
  template <class U> requires (!std::is_same_v<std::remove_cvref_t<U>, Greedy>) explicit Greedy(U&&) : v(-5), h(-5) {}
  Greedy(const Greedy&) = default; Greedy(Greedy&& o) noexcept : v(o.v), h(o.h) {} Greedy& operator=(const Greedy&) = default;
  template <class U> requires (!std::is_same_v<std::remove_cvref_t<U>, Greedy>) Greedy& operator=(U&&) { v = -6; return *this; }
  int get() const { return v; }
};
struct Listy {                                      // braces make a list of one instead of a copy
  int v; int depth = 0; Heap h; explicit Listy(int x) : v(x), h(x) {}
  Listy(std::initializer_list<Listy> l) : v(l.size() ? l.begin()->v : 0), depth(l.size() ? l.begin()->depth + 1 : 1), h(v) {}
  Listy(const Listy&) = default; Listy& operator=(const Listy&) = default;
  int get() const { return v + depth * 1000000; }
};
struct OwnNew {                                     // cannot be made with a plain new expression
  Heap h; explicit OwnNew(int v) : h(v) {} static void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void*) = delete; static void operator delete(void*) = delete; int get() const { return *h.p; }
};
struct Poly { Heap h; explicit Poly(int v) : h(v) {} Poly(const Poly&) = default; Poly& operator=(const Poly&) = default; virtual ~Poly() {} virtual int get() const { return *h.p; } };
struct Last final : Poly { using Poly::Poly; int extra[7] = {1, 2, 3, 4, 5, 6, 7}; int get() const final { return *h.p + extra[6] - 7; } };
struct Agg { int a; short b; char c[3]; int get() const { return a + b + c[2]; } };
enum class Colour : short {};
struct alignas(64) Aligned { int v; Live l; char pad[70]; explicit Aligned(int x) : v(x) { pad[69] = char(x); } int get() const { return (reinterpret_cast<std::uintptr_t>(this) % 64 ? -1 : v) + 0 * pad[69]; } };
struct Empty : Live { Empty() {} explicit Empty(int) {} int get() const { return 1; } };
struct Volatile { volatile int v; Heap h; explicit Volatile(int x) : v(x), h(x) {} Volatile(const Volatile& o) : v(o.v), h(o.h) {} Volatile& operator=(const Volatile& o) { v = o.v; h = o.h; return *this; } int get() const { return v; } };
#define ORDER(T) inline bool operator<(const T& a, const T& b) { return a.get() < b.get(); }
ORDER(Odd) ORDER(NoDefault) ORDER(NoAssign) ORDER(Greedy) ORDER(Listy) ORDER(OwnNew) ORDER(Poly) ORDER(Agg) ORDER(Aligned) ORDER(Empty) ORDER(Volatile)

// containers of the very type they are a member of
struct Tree {
  int v; cest::vector<Tree> a; cest::list<Tree> b; cest::forward_list<Tree> d;
  explicit Tree(int x) : v(x) { if (x % 4 == 1) { Tree t(x * 4); a.push_back(t); b.push_back(t); d.push_front(t); a.push_back(*this); } if (x % 4 == 2) { Tree t(x * 2 + 1); b.push_front(t); b.push_front(*this); } }
  int get() const { int r = v; for (auto& t : a) r = r * 3 + t.get(); for (auto& t : b) r = r * 5 + t.get(); for (auto& t : d) r = r * 7 + t.get(); return r & 0xffffff; }
};
struct Bush {
  int v; cest::map<int, Bush> a; cest::shared_ptr<Bush> b; cest::unique_ptr<Bush> c; cest::deque<int> d;
  explicit Bush(int x) : v(x) { for (int i = 0; i < x % 3; i++) a.insert({i, Bush(x * 3 + 3)}); if (x % 3 == 1) b = cest::shared_ptr<Bush>(new Bush(3)); if (x % 3 == 2) c = cest::make_unique<Bush>(6); }
  Bush(const Bush& o) : v(o.v), a(o.a), b(o.b), d(o.d) { if (o.c) c = cest::make_unique<Bush>(*o.c); }
  Bush& operator=(const Bush& o) { v = o.v; a = o.a; b = o.b; d = o.d; if (o.c) c = cest::make_unique<Bush>(*o.c); else c = cest::unique_ptr<Bush>(); return *this; }
  int get() const { int r = v; for (auto i = a.begin(); !(i == a.end()); ++i) r = r * 3 + (*i).second.get(); if (b) r = r * 5 + b->get(); if (c) r = r * 7 + c->get(); return r & 0xffffff; }
};
ORDER(Tree) ORDER(Bush)

template <class T> T mk(int v) {
  if constexpr (std::is_same_v<T, Greedy>) return Greedy(v, 0);
  else if constexpr (std::is_same_v<T, Agg>) return Agg{v, 3, {1, 2, 3}};
  else if constexpr (std::is_same_v<T, bool>) return v % 3 == 0;
  else if constexpr (std::is_pointer_v<T>) { static int cells[64]; return v % 5 ? cells + v % 64 : nullptr; }
  else if constexpr (requires { T::move_only_pointer; }) return T(v);
  else return T(v);
}
template <class T> u64 gv(const T& t) {
  if constexpr (requires { t.get(); { t.get() } -> std::same_as<int>; }) return u64(t.get());
  else if constexpr (requires { t.first; }) return mix(gv(t.first), gv(t.second));
  else if constexpr (std::is_pointer_v<T>) return t ? u64(t - mk<T>(64)) + 100 : 1;   // cells
  else if constexpr (std::is_enum_v<T>) return u64(short(t));
  else return u64(t);
}
template <class C> u64 every(const C& c, std::size_t lim, bool& bad) {
  u64 h = 1; std::size_t n = 0;
  for (auto i = c.begin(); !(i == c.end()); ++i) { if (n++ > lim) { bad = true; break; } h = mix(h, gv(*i)); }
  return mix(h, n);
}
// K: the cest container of the pair (its interface decides which operations are made); T: the element
template <class K, class C, class T, class S> void run(Src s, S& k) {
  constexpr bool copy = std::is_copy_constructible_v<T>, move = std::is_move_constructible_v<T>, assign = copy && std::is_copy_assignable_v<T>, massign = std::is_move_assignable_v<T>, dflt = std::is_default_constructible_v<T>;
  constexpr bool VEC = requires (const K& c) { c.capacity(); }, FWD = requires (K& c) { c.before_begin(); }, QUE = requires (K& c) { c.pop(); }, MAP = requires { typename K::mapped_type; }, SET = requires { typename K::key_compare; } && !MAP;
  constexpr bool LST = requires (K& c, typename K::iterator i) { c.splice(i, c); } || (!VEC && !FWD && !QUE && !MAP && !SET && !requires (K& c) { c[0]; });
  constexpr bool DEQ = !VEC && requires (K& c) { c[0]; } && !MAP;
  C v[3]; int serial = 0; std::size_t lens[3] = {};
  auto see = [&](C& c, std::size_t n) {
    bool bad = false;
    if constexpr (QUE) { k.obs("size", c.size()); if (!c.empty()) { k.obs("front", gv(std::as_const(c).front())); k.obs("back", gv(std::as_const(c).back())); } }
    else { k.obs("contents", every(c, n + 400, bad)); k.check(!bad, "iteration does not end"); k.obs("empty", c.empty()); }
    if constexpr (!FWD && !QUE) k.obs("size", c.size());
    if constexpr (VEC || DEQ) if (c.size()) { const C& d = c; k.obs("[]", gv(d[c.size() / 2])); if constexpr (VEC) k.obs("at", gv(d.at(c.size() - 1))); k.obs("ends", mix(gv(c.front()), gv(d.back()))); }
    if constexpr (VEC) if (c.size()) k.check(c.data() == std::addressof(c[0]) && c.data() + c.size() - 1 == std::addressof(c.back()), "data() is not the first element");
    if constexpr (FWD || LST) if (!c.empty()) { k.obs("front", gv(c.front())); auto i = c.begin(); k.check(i.operator->() == std::addressof(c.front()), "-> is not the element"); }
    if constexpr (SET || MAP || DEQ) if (!c.empty()) { auto i = c.begin(); k.check(i.operator->() == std::addressof(*i), "-> is not the element"); }
  };
  while (!s.done()) {
    const unsigned op = s.byte() % OPS, x = s.byte(), y = s.byte(), z = s.byte(); const unsigned a = x % 3, b = y % 3; C& u = v[a]; std::size_t& n = lens[a]; ++serial;
    const int val = SET || MAP ? int(z % 40) : serial;
    auto nth = [&](std::size_t q) { if constexpr (requires { u.begin(); }) { auto i = u.begin(); while (q--) ++i; return i; } };
    if (op >= 17) {
      if constexpr (assign && copy) { k.op("copy assign", a, b); v[a] = v[b]; lens[a] = lens[b]; see(v[b], lens[b]); }
    } else if (op == 16) {
      if constexpr (copy) { k.op("copy construct", b); C t(v[b]); see(t, lens[b]); }
    } else if (op == 15) {
      if constexpr (requires (K& c) { c.clear(); }) { if (z % 4 == 0) { k.op("clear", a); u.clear(); n = 0; } }
    } else if (op == 14) {
      if constexpr (VEC || FWD) { k.op("swap", a, b); v[a].swap(v[b]); std::swap(lens[a], lens[b]); see(v[b], lens[b]); }
    } else if (op == 13) {
      if constexpr (VEC) { k.op("move construct", a); C t(std::move(u)); C w(std::move(t)); u.swap(w); }
    } else if constexpr (VEC || DEQ || LST || FWD) {
      switch (op) {
        case 0: case 1: case 2: if constexpr (copy && !FWD) { k.op("push_back(const&)", a); const T t = mk<T>(val); u.push_back(t); ++n; } else if constexpr (copy) { k.op("push_front(const&)", a); const T t = mk<T>(val); u.push_front(t); ++n; } break;
        case 3: case 4: if constexpr (move && !FWD) { k.op("push_back(&&)", a); u.push_back(mk<T>(val)); ++n; } else if constexpr (move) { k.op("push_front(&&)", a); u.push_front(mk<T>(val)); ++n; } break;
        case 5: if constexpr (!VEC) { if constexpr (copy) { k.op("push_front(const&)", a); const T t = mk<T>(val); u.push_front(t); ++n; } } break;
        case 6: if constexpr (!VEC) { if constexpr (move) { k.op("push_front(&&)", a); u.push_front(mk<T>(val)); ++n; } } break;
        case 7: if (n) { k.op("pop", a); if constexpr (FWD) u.pop_front(); else if constexpr (VEC) u.pop_back(); else if (z & 1) u.pop_back(); else u.pop_front(); --n; } break;
        case 8: if constexpr (VEC) { if constexpr (move) { k.op("reserve", a); u.reserve(n + z % 30); } } else if constexpr (LST) { if constexpr (copy) { k.op("insert(const&)", a); const T t = mk<T>(val); auto i = u.insert(nth(z % (n + 1)), t); k.obs("inserted", gv(*i)); ++n; } }
                else if constexpr (FWD) { if constexpr (copy) { k.op("insert_after", a); const T t = mk<T>(val); auto i = u.before_begin(); for (std::size_t q = z % (n + 1); q--;) ++i; i = u.insert_after(i, t); k.obs("inserted", gv(*i)); ++n; } } break;
        case 9: if constexpr (VEC) { if constexpr (massign) { std::size_t i = z % (n + 1), j = i + y % (n - i + 1); k.op("erase", i, j); auto r = u.erase(u.begin() + i, u.begin() + j); k.obs("returned", u64(r - u.begin())); n -= j - i; } }
                else if constexpr (LST) { if (n) { k.op("erase", a); u.erase(nth(z % n)); --n; } }
                else if constexpr (FWD) { if (n) { k.op("erase_after", a); auto i = u.before_begin(); for (std::size_t q = z % n; q--;) ++i; u.erase_after(i); --n; } } break;
        case 10: if constexpr (VEC) { if constexpr (dflt && move) { if (y % 5 == 0) { k.op("construct with a size", a); C t(std::size_t(z % 9)); see(t, z % 9); C w(std::move(t)); u.swap(w); n = z % 9; } else { k.op("resize", a); n = z % 40; u.resize(n); } } } else if constexpr (LST) { if constexpr (move) { k.op("insert(&&)", a); u.insert(nth(z % (n + 1)), mk<T>(val)); ++n; } }
                 else if constexpr (FWD) { if constexpr (move) { k.op("insert_after(&&)", a); auto i = u.before_begin(); for (std::size_t q = z % (n + 1); q--;) ++i; u.insert_after(i, mk<T>(val)); ++n; } } break;
        case 11: if constexpr (LST && std::is_constructible_v<T, int>) { k.op("emplace", a); auto i = u.emplace(nth(z % (n + 1)), val); k.obs("emplaced", gv(*i)); ++n; } else if constexpr (VEC && copy) { k.op("list construct", a); C t = {mk<T>(1), mk<T>(2), mk<T>(int(z))}; see(t, 3); C w{mk<T>(4)}; see(w, 1); } break;
        default: if constexpr (LST && std::is_constructible_v<T, int>) { k.op("emplace at the ends", a); if (z & 1) k.obs("back", gv(u.emplace_back(val))); else k.obs("front", gv(u.emplace_front(val))); ++n; if constexpr (std::is_constructible_v<T, int, int>) { u.emplace_back(val, 2); ++n; } } else if constexpr (DEQ && copy) { k.op("list construct", a); C t = {mk<T>(1), mk<T>(2), mk<T>(int(z))}; see(t, 3); } break;
      }
    } else if constexpr (QUE) {
      if (op < 5) { if constexpr (copy) { k.op("push(const&)", a); const T t = mk<T>(val); u.push(t); ++n; } }
      else if (op < 9) { if constexpr (move) { k.op("push(&&)", a); u.push(mk<T>(val)); ++n; } }
      else if (n) { k.op("pop", a); u.pop(); --n; }
    } else if constexpr (SET) {
      if (op < 8) { k.op("insert", val); const T t = mk<T>(val); auto r = u.insert(t); k.obs("inserted", r.second); k.obs("at", gv(*r.first)); n += r.second; }
      else { k.op("find", val); const T t = mk<T>(val); auto i = u.find(t); k.obs("found", !(i == u.end())); auto j = std::as_const(u).find(t); k.obs("const found", !(j == std::as_const(u).end())); }
    } else if constexpr (MAP) {
      using Q = typename C::key_type; using M = typename C::mapped_type;
      if (op < 8) { k.op("insert", val); const typename C::value_type t(mk<Q>(val), mk<M>(serial)); auto r = u.insert(t); k.obs("inserted", r.second); k.obs("at", gv(*r.first)); n += r.second; }
      else { k.op("find", val); const Q t = mk<Q>(val); auto i = u.find(t); k.obs("found", !(i == u.end())); if (!(i == u.end())) k.obs("mapped", gv(i->second)); }
    }
    see(v[a], lens[a]);
  }
  for (int i = 0; i < 3; i++) { k.op("final", u64(i)); see(v[i], lens[i]); }
}
template <class T> constexpr bool ordered = requires (const T& a, const T& b) { a < b; } && std::is_copy_constructible_v<T>;
// nothing is left when the containers are gone, or destroyed more often than made
template <class F> void balanced(F f) {
  const long before = alive; f();
  if (alive != before) throw Mismatch{std::to_string(alive - before) + " elements are left after the containers were destroyed"};
}
template <class T> void with(Src s, Ctx& c, unsigned what, const char* l) {
  c.label(l); c.say(std::string("elements: ") + l + ", container " + std::to_string(what % 9));
#define DUO(CC, SC, E) return balanced([&] { differential(s, c, [&](Src q, auto& k) { run<CC, SC, E>(q, k); }, [&](Src q, auto& k) { run<CC, CC, E>(q, k); }); })
#define P2(...) __VA_ARGS__
  constexpr bool move = std::is_move_constructible_v<T>;
  switch (what % 9) {
    case 0: if constexpr (move && !std::is_same_v<T, bool>) DUO(cest::vector<T>, std::vector<T>, T); break;
    case 1: if constexpr (move) DUO(cest::deque<T>, std::deque<T>, T); break;
    case 2: break;
    case 3: DUO(cest::forward_list<T>, std::forward_list<T>, T);
    case 4: if constexpr (ordered<T>) DUO(cest::set<T>, std::set<T>, T); break;
    case 5: if constexpr (ordered<T>) DUO(P2(cest::map<T, T>), P2(std::map<T, T>), T); break;
    case 6: if constexpr (std::is_copy_constructible_v<T>) DUO(P2(cest::map<int, T>), P2(std::map<int, T>), T); break;
    case 7: if constexpr (move) DUO(cest::queue<T>, std::queue<T>, T); break;
    default: if constexpr (move) DUO(P2(cest::queue<T, cest::list<T>>), P2(std::queue<T, std::list<T>>), T); break;
  }
  DUO(cest::list<T>, std::list<T>, T);
}
#define UNIT(N, A, B) void unit##N(Src s, Ctx& c, unsigned what, bool second) { if (second) with<B>(s, c, what, #B); else with<A>(s, c, what, #A); }
#if VF_UNIT == 0
UNIT(0, Odd, NoDefault)
#elif VF_UNIT == 1
UNIT(1, NoAssign, MoveOnly)
#elif VF_UNIT == 2
UNIT(2, MoveThrow, Pinned)
#elif VF_UNIT == 3
UNIT(3, Greedy, Listy)
#elif VF_UNIT == 4
UNIT(4, OwnNew, Poly)
#elif VF_UNIT == 5
UNIT(5, Agg, Colour)
#elif VF_UNIT == 6
UNIT(6, Aligned, Empty)
#elif VF_UNIT == 7
UNIT(7, bool, int*)
#elif VF_UNIT == 8
UNIT(8, Last, Volatile)
#elif VF_UNIT == 9
UNIT(9, Tree, Bush)
void unit0(Src, Ctx&, unsigned, bool); void unit1(Src, Ctx&, unsigned, bool); void unit2(Src, Ctx&, unsigned, bool); void unit3(Src, Ctx&, unsigned, bool);
void unit4(Src, Ctx&, unsigned, bool); void unit5(Src, Ctx&, unsigned, bool); void unit6(Src, Ctx&, unsigned, bool); void unit7(Src, Ctx&, unsigned, bool); void unit8(Src, Ctx&, unsigned, bool);
void vf_case(Src s, Ctx& c) {
  const unsigned what = s.byte(), type = s.byte();
  c.nontrivial = (s.n - s.i) / REC >= 5;
  void (*const all[])(Src, Ctx&, unsigned, bool) = {unit0, unit1, unit2, unit3, unit4, unit5, unit6, unit7, unit8, unit9};
  all[type / 2 % 10](s, c, what, type % 2);
}
#endif
} // namespace vf
