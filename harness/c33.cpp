// Values that are handed over are moved: copies of elements, counted operation by
// operation, are never more than those the standard's container makes.
#include "driver.hpp"
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/memory.hpp>
#include <cest/queue.hpp>
#include <cest/set.hpp>
#include <cest/vector.hpp>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <vector>
namespace vf {
constexpr unsigned OPS = 24, REC = 4;
const Shape vf_shape{2, REC, OPS, 200};
const char* const vf_rule = "A case is a header choosing a container and an element type (cheap to move, moved at a risk, copied only, or a pair) and a list of 4-byte operation records over three containers; the copies of elements made by each operation are counted and may not exceed those of the standard's container; it is non-trivial if it makes at least 5 operations.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

inline unsigned copies, moves;
// KIND 0: moved without a risk; 1: its move may throw; 2: it has no move of its own
template <int KIND> struct Item {
  int v; std::vector<int> w;                        // something that a move takes away
  Item() : v(-1) {}
  explicit Item(int x) : v(x), w(unsigned(x) % 3 + 1, x) {}
  Item(int x, int y) : Item(x * 64 + y) {}
  Item(const Item& o) : v(o.v), w(o.w) { ++copies; }
  Item(Item&& o) noexcept(KIND != 1) requires (KIND != 2) : v(o.v), w(std::move(o.w)) { ++moves; o.w.clear(); }
  Item& operator=(const Item& o) { v = o.v; w = o.w; ++copies; return *this; }
  Item& operator=(Item&& o) noexcept(KIND != 1) requires (KIND != 2) { v = o.v; w = std::move(o.w); o.w.clear(); ++moves; return *this; }
  u64 get() const { u64 h = mix(u64(v), w.size()); for (int i : w) h = mix(h, u64(i)); return h; }
  bool operator<(const Item& o) const { return v < o.v; }
};
template <int K> u64 gv(const Item<K>& t) { return t.get(); }
template <class A, class B> u64 gv(const std::pair<A, B>& t) { return mix(gv(t.first), gv(t.second)); }
inline u64 gv(int i) { return u64(i); }
template <class C> u64 every(const C& c, std::size_t lim, bool& bad) {
  u64 h = 1; std::size_t n = 0;
  for (auto i = c.begin(); !(i == c.end()); ++i) { if (n++ > lim) { bad = true; break; } h = mix(h, gv(*i)); }
  return mix(h, n);
}
template <class K, class C, class T, class S> void run(Src s, S& k) {
  constexpr bool VEC = requires (const K& c) { c.capacity(); }, FWD = requires (K& c) { c.before_begin(); }, QUE = requires (K& c) { c.pop(); }, MAP = requires { typename K::mapped_type; }, SET = requires { typename K::key_compare; } && !MAP;
  constexpr bool DEQ = !VEC && !MAP && requires (K& c) { c[0]; }, LST = !VEC && !FWD && !QUE && !MAP && !SET && !DEQ;
  C v[3]; std::size_t lens[3] = {}; int serial = 0;
  auto mk = [&](int x) { if constexpr (MAP) return typename C::value_type(typename C::key_type(x % 60), typename C::mapped_type(x)); else return T(x); };
  auto see = [&](C& c, std::size_t n) {
    bool bad = false;
    if constexpr (QUE) { k.obs("size", c.size()); if (!c.empty()) k.obs("ends", mix(gv(c.front()), gv(c.back()))); }
    else { k.obs("contents", every(c, n + 400, bad)); k.check(!bad, "iteration does not end"); }
  };
  // copies made by one operation
  // (when a vector must copy to grow, only those made without growing are compared: how far it grows is its own affair)
  auto cap = [&](C& c) -> std::size_t { if constexpr (VEC && std::is_same_v<C, K> && !std::is_nothrow_move_constructible_v<T>) return c.capacity(); else return 0; };
  auto cost = [&](const char* name, unsigned a, auto f) { k.op(name, a); copies = 0; const std::size_t room = cap(v[a % 3]); f(); const unsigned n = copies; k.at_most("copies of elements", cap(v[a % 3]) == room ? n : 0); };
  auto exact = [&](const char* name, unsigned a, auto f) { k.op(name, a); copies = moves = 0; f(); const unsigned n = copies, m = moves; k.at_most("copies of elements", n); k.at_most("moves of elements", m); };
  while (!s.done()) {
    const unsigned op = s.byte() % OPS, x = s.byte(), y = s.byte(), z = s.byte(), a = x % 3, b = y % 3; C& u = v[a]; std::size_t& n = lens[a]; ++serial;
    const int val = SET || MAP ? int(z) : serial;
    auto t = mk(val); auto& own = t;
    auto nth = [&](std::size_t q) { if constexpr (!QUE) { auto i = u.begin(); while (q--) ++i; return i; } };
    auto gap = [&](std::size_t q) { if constexpr (FWD) { auto i = u.before_begin(); while (q--) ++i; return i; } };
    if (op == 23) { if (a != b) cost("copy assign", a, [&] { v[a] = v[b]; }), lens[a] = lens[b], see(v[b], lens[b]); }
    else if (op == 22) { k.op("copy construct", b); copies = 0; C w(v[b]); const unsigned m = copies; k.at_most("copies of elements", m); see(w, lens[b]); }
    else if (op == 21) { if constexpr (!QUE) if (z % 4 == 0) cost("clear", a, [&] { u.clear(); }), n = 0; }
    else if (op == 20) { if constexpr (VEC || FWD) exact("swap", a, [&] { v[a].swap(v[b]); }), std::swap(lens[a], lens[b]); }
    else if (op == 19) { if constexpr (VEC) exact("move construct and assign", a, [&] { C w(std::move(u)); C q; q = std::move(w); u = std::move(q); }); }
    else if constexpr (SET || MAP) {
      if (op < 14) cost("insert", a, [&] { auto r = u.insert(t); n += r.second; k.obs("inserted", r.second); });
      else if (op < 16) { if constexpr (SET) cost("insert with a hint", a, [&] { auto i = u.insert(u.begin(), t); k.obs("at", gv(*i)); }), n = u.size(); }
      else cost("find", a, [&] { if constexpr (MAP) { auto i = u.find(t.first); k.obs("found", !(i == u.end())); } else { auto i = u.find(t); k.obs("found", !(i == u.end())); } });
    } else if constexpr (QUE) {
      if (op < 5) cost("push(const&)", a, [&] { u.push(t); }), ++n;
      else if (op < 12) cost("push(&&)", a, [&] { u.push(std::move(own)); }), ++n;
      else if (op < 14) {
        if constexpr (requires { typename K::container_type; requires std::is_same_v<typename K::container_type, std::deque<T>>; }) {   // one that can be moved
          k.op("queue of a moved container", z % 20); typename C::container_type w; for (unsigned i = 0; i < z % 20; i++) w.push_back(T(int(i)));
          copies = 0; C q(std::move(w)); const unsigned m = copies; k.at_most("copies of elements", m); see(q, z % 20);
        }
      } else if (n) cost("pop", a, [&] { u.pop(); }), --n;
    } else {
      switch (op) {
        case 0: case 1: cost("insert a copy at the end", a, [&] { if constexpr (FWD) u.push_front(t); else u.push_back(t); }); ++n; break;
        case 2: case 3: case 4: case 5: cost("hand over at the end", a, [&] { if constexpr (FWD) u.push_front(std::move(own)); else u.push_back(std::move(own)); }); ++n; break;
        case 6: if constexpr (DEQ || LST) { cost("push_front(const&)", a, [&] { u.push_front(t); }); ++n; } break;
        case 7: case 8: if constexpr (DEQ || LST) { cost("push_front(&&)", a, [&] { u.push_front(std::move(own)); }); ++n; } break;
        case 9: if constexpr (LST) { cost("insert(const&)", a, [&] { u.insert(nth(z % (n + 1)), t); }); ++n; } if constexpr (FWD) { cost("insert_after(const&)", a, [&] { u.insert_after(gap(z % (n + 1)), t); }); ++n; } break;
        case 10: case 11: if constexpr (LST) { cost("insert(&&)", a, [&] { u.insert(nth(z % (n + 1)), std::move(own)); }); ++n; } if constexpr (FWD) { cost("insert_after(&&)", a, [&] { u.insert_after(gap(z % (n + 1)), std::move(own)); }); ++n; } break;
        case 12: if constexpr (LST) { exact("emplace of its arguments", a, [&] { u.emplace(nth(z % (n + 1)), val, 7); u.emplace_back(val); u.emplace_front(val, 3); }); n += 3; } if constexpr (VEC) cost("reserve", a, [&] { u.reserve(n + z % 60); }); break;
        case 13: if constexpr (LST) { cost("emplace of a value", a, [&] { auto o = mk(val); u.emplace(nth(z % (n + 1)), std::move(own)); u.emplace_back(std::move(o)); }); n += 2; } if constexpr (VEC) { cost("resize", a, [&] { u.resize(z % 50); }); n = z % 50; } break;
        case 14: if constexpr (LST) { if (n) { exact("erase", a, [&] { u.erase(nth(z % n)); }); --n; } } if constexpr (FWD) { if (n) { exact("erase_after", a, [&] { u.erase_after(gap(z % n)); }); --n; } } break;
        case 15: if constexpr (VEC) { k.op("construct with a size"); copies = 0; C w(std::size_t(z % 20)); const unsigned m = copies; k.at_most("copies of elements", m); see(w, z % 20); } if constexpr (LST || FWD) { if (n) { exact("pop_front", a, [&] { u.pop_front(); }); --n; } } break;
        case 16: if constexpr (DEQ || (VEC && std::is_nothrow_move_constructible_v<T>)) { k.op("list construct"); copies = 0; unsigned m; C w = [&] { std::initializer_list<T> l{T(1), T(2), T(int(z)), T(4), T(5)}; copies = 0; return C(l); }(); m = copies; k.at_most("copies of elements", m); see(w, 5); break; }
        default: if (n) { exact("pop", a, [&] { if constexpr (FWD) u.pop_front(); else if constexpr (VEC) u.pop_back(); else if (z & 1) u.pop_front(); else u.pop_back(); }); --n; } break;
      }
    }
    see(v[a], lens[a]);
    if constexpr (!MAP) k.obs("value given", gv(t));
  }
}
// the owner of one object: its constructor's arguments arrive as they were given
template <template <class> class P, class S, class Make> void owners(Src s, S& k, Make make) {
  struct Box { Item<0> a; Item<0> b; int* n; Box(Item<0> x, Item<0>&& y, const Item<0>& z, int& c) : a(std::move(x)), b(std::move(y)), n(&c) { c += int(z.w.size()); } Box(Item<0>&& x, int&& c) : a(std::move(x)), n(nullptr) { c = 5; } };
  int cell = 0;
  while (!s.done()) {
    const unsigned op = s.byte() % OPS; const int x = s.byte(), y = s.byte(); s.byte();
    Item<0> p(x), q(y), r(x + y); int loc = y;
    if (op % 3 == 0) { k.op("make from values"); copies = 0; auto o = make.template operator()<Box>(std::move(p), std::move(q), r, cell); const unsigned m = copies; k.at_most("copies of the arguments", m); k.obs("object", mix(gv(o->a), gv(o->b))); k.obs("cell", u64(cell)); k.check(o->n == &cell, "a reference argument was copied"); }
    else if (op % 3 == 1) { k.op("make from two rvalues"); copies = 0; auto o = make.template operator()<Box>(std::move(p), std::move(loc)); const unsigned m = copies; k.at_most("copies of the arguments", m); k.obs("object", gv(o->a)); k.obs("rvalue", u64(loc)); }
    else { k.op("make a copy, hand it on"); copies = moves = 0; auto o = make.template operator()<Item<0>>(p); auto* raw = o.get(); P<Item<0>> h(std::move(o)); P<Item<0>> g; g = std::move(h); const unsigned m = copies, w = moves; k.at_most("copies of the object", m); k.at_most("moves of the object", w); k.check(g.get() == raw, "the object moved"); k.obs("object", gv(*g)); }
  }
}
template <class T> using SU = std::unique_ptr<T>;
template <class T> using CU = cest::unique_ptr<T>;
template <int K> void with(Src s, Ctx& c, unsigned what) {
  using T = Item<K>;
#define P2(...) __VA_ARGS__
#define DUO(CC, SC) return differential(s, c, [&](Src q, auto& k) { run<CC, SC, T>(q, k); }, [&](Src q, auto& k) { run<CC, CC, T>(q, k); })
  switch (what % 11) {
    case 0: case 1: DUO(cest::vector<T>, std::vector<T>);
    case 2: DUO(cest::deque<T>, std::deque<T>);
    case 3: DUO(cest::list<T>, std::list<T>);
    case 4: DUO(cest::forward_list<T>, std::forward_list<T>);
    case 5: DUO(cest::queue<T>, std::queue<T>);
    case 6: DUO(P2(cest::queue<T, cest::list<T>>), P2(std::queue<T, std::list<T>>));
    case 7: DUO(P2(cest::queue<T, std::deque<T>>), P2(std::queue<T, std::deque<T>>));
    case 8: DUO(cest::set<T>, std::set<T>);
    case 9: DUO(P2(cest::map<T, T>), P2(std::map<T, T>));
    default: return differential(s, c,
      [&](Src q, auto& k) { owners<SU>(q, k, []<class B, class... A>(A&&... x) { return std::make_unique<B>(std::forward<A>(x)...); }); },
      [&](Src q, auto& k) { owners<CU>(q, k, []<class B, class... A>(A&&... x) { return cest::make_unique<B>(std::forward<A>(x)...); }); });
  }
}
void vf_case(Src s, Ctx& c) {
  const unsigned what = s.byte(), type = s.byte() % 3;
  c.nontrivial = (s.n - s.i) / REC >= 5;
  static const char* const names[] = {"a quiet move", "a move that may throw", "copies only"}; c.label(names[type]); c.say(std::string("elements: ") + names[type] + ", container " + std::to_string(what % 11));
  switch (type) { case 0: return with<0>(s, c, what); case 1: return with<1>(s, c, what); default: return with<2>(s, c, what); }
}
} // namespace vf
