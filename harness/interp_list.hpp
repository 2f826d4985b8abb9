// Histories over list- and forward_list-like types, observed through their public interface.
#ifndef VERIF_INTERP_LIST_HPP
#define VERIF_INTERP_LIST_HPP
#include "core.hpp"
#include <iterator>
namespace vf {
constexpr unsigned LIST_OPS = 22, LIST_REC = 5;
constexpr unsigned FL_OPS = 16, FL_REC = 5;

template <class L> constexpr auto nth(L& l, std::size_t i) { auto it = l.begin(); while (i--) ++it; return it; }

template <class L, class S> constexpr void observe_list(L& l, S& k) {
  using E = Elem<typename L::value_type>;
  const L& c = l;
  const std::size_t n = c.size();
  k.obs("size", n); k.obs("empty", c.empty());
  if constexpr (requires { c.max_size(); }) k.check(c.max_size() >= n && c.max_size() > 1000000, "max_size() is too small");
  if (n) { k.obs("front", E::val(l.front())); k.obs("cfront", E::val(c.front())); k.obs("back", E::val(l.back())); k.obs("cback", E::val(c.back())); }
  auto fwd = [&](auto b, auto e, const char* t) {
    u64 g = 0; std::size_t m = 0;
    for (; !(b == e); ++b) { if (m++ > n) { k.check(false, "iteration does not reach the end after size() steps"); return; } g = mix(g, E::val(*b)); }
    k.obs(t, g); k.obs(t, m);
  };
  auto bwd = [&](auto b, auto e, const char* t) {
    u64 g = 0; std::size_t m = 0;
    while (!(b == e)) { if (m++ > n) { k.check(false, "backward iteration does not reach begin() after size() steps"); return; } --e; g = mix(g, E::val(*e)); }
    k.obs(t, g); k.obs(t, m);
  };
  fwd(l.begin(), l.end(), "forwards"); fwd(c.begin(), c.end(), "const forwards"); fwd(c.cbegin(), c.cend(), "cforwards");
  bwd(l.begin(), l.end(), "backwards"); bwd(c.begin(), c.end(), "const backwards");
}

template <class L, class It> constexpr u64 index_of(L& l, It it) {
  u64 i = 0; const std::size_t n = l.size();
  for (auto b = l.begin(); !(b == it); ++b) if (i++ > n) return ~u64(0);
  return i;
}

template <class L, class S>
constexpr void run_list(Src s, S& k, std::size_t lim) {
  using T = typename L::value_type;
  using E = Elem<T>;
  L v[3];
  unsigned serial = 0;
  while (!s.done()) {
    unsigned op = s.byte() % LIST_OPS, a = s.byte() % 3, x = s.byte(), y = s.byte(), z = s.byte();
    unsigned b = x % 3;
    L& u = v[a];
    std::size_t n = u.size(), i = (x * 256u + y) % (n + 1), j = n ? (x * 256u + y) % n : 0;
    ++serial;
    if (n >= lim && (op <= 11 || op == 19)) op = 12 + op % 4;
    switch (op) {
      case 0: { k.op("push_back(const&)", a); const T t = E::make(serial); u.push_back(t); k.obs("arg", E::val(t)); break; }
      case 1: k.op("push_back(&&)", a); u.push_back(E::make(serial)); break;
      case 2: { k.op("push_front(const&)", a); const T t = E::make(serial); u.push_front(t); k.obs("arg", E::val(t)); break; }
      case 3: k.op("push_front(&&)", a); u.push_front(E::make(serial)); break;
      case 4: { k.op("emplace_back", a); auto& r = u.emplace_back(E::make(serial)); k.obs("emplace_back returns", E::val(r)); k.check(&r == &u.back(), "emplace_back does not return the new element"); break; }
      case 5: { k.op("emplace_front", a); auto& r = u.emplace_front(E::make(serial)); k.obs("emplace_front returns", E::val(r)); k.check(&r == &u.front(), "emplace_front does not return the new element"); break; }
      case 6: case 7: { k.op("insert(const&)", a, i); const T t = E::make(serial); auto it = u.insert(nth(u, i), t); k.obs("insert at", index_of(u, it)); k.obs("insert returns", E::val(*it)); break; }
      case 8: { k.op("insert(&&)", a, i); auto it = u.insert(nth(u, i), E::make(serial)); k.obs("insert at", index_of(u, it)); k.obs("insert returns", E::val(*it)); break; }
      case 9: case 10: { k.op("emplace", a, i); auto it = u.emplace(nth(u, i), E::make(serial)); k.obs("emplace at", index_of(u, it)); k.obs("emplace returns", E::val(*it)); break; }
      case 11: { k.op("emplace()", a, i); auto it = u.emplace(nth(u, i)); k.obs("emplace at", index_of(u, it)); break; }
      case 12: k.op("pop_back", a); if (n) u.pop_back(); break;
      case 13: k.op("pop_front", a); if (n) u.pop_front(); break;
      case 14: case 15: if (n) { k.op("erase", a, j); auto it = u.erase(nth(u, j)); k.obs("erase returns", index_of(u, it)); if (!(it == u.end())) k.obs("erase value", E::val(*it)); } break;
      case 16: k.op("clear", a); if (z & 1) u.clear(); break;
      case 17: { k.op("copy assign", a, b); L& r = (v[a] = v[b]); k.check(&r == &v[a], "operator= does not return *this"); observe_list(v[b], k); break; }
      case 18: { k.op("copy construct", a, b); L t(v[b]); observe_list(t, k); if (y & 1) { t.push_back(E::make(serial)); t.push_front(E::make(serial + 1)); observe_list(v[b], k); } u = t; observe_list(t, k); break; }
      case 19: { unsigned c = lim > 60000 ? z * 300u : lim > 1000 ? z * 4u : z % 24; k.op("insert run", a, c); auto it = nth(u, i); for (unsigned q = 0; q < c; q++) { it = u.insert(it, E::make(serial + q)); if (q & 1) ++it; } k.obs("run ends at", index_of(u, it)); break; }
      case 20: { unsigned c = lim > 60000 ? z * 100u : lim > 1000 ? z : z % 24; k.op("erase run", a, c); auto it = nth(u, i); for (unsigned q = 0; q < c && !(it == u.end()); q++) { it = u.erase(it); if ((q & 1) && !(it == u.end())) ++it; } k.obs("run ends at", index_of(u, it)); break; }
      default: if (n) { k.op("write", a, j); switch (z % 3) { case 0: *nth(u, j) = E::make(serial); break; case 1: u.front() = E::make(serial); break; default: u.back() = E::make(serial); } k.obs("arrow", E::val(*nth(u, j).operator->())); } break;
    }
    observe_list(v[a], k);
    tick(k, v);
  }
  for (int q = 0; q < 3; q++) { k.op("final", q); observe_list(v[q], k); }
}

template <class L> constexpr std::size_t fl_size(const L& l, std::size_t lim) { std::size_t n = 0; for (auto b = l.begin(); !(b == l.end()); ++b) if (n++ > lim) break; return n; }
template <class L, class It> constexpr u64 fl_index(L& l, It it) {
  u64 i = 0;
  for (auto b = l.begin(); !(b == it); ++b) { if (b == l.end() || i > 100000) return ~u64(0); i++; }
  return i;
}
template <class L, class S> constexpr void observe_fl(L& l, S& k, std::size_t lim) {
  using E = Elem<typename L::value_type>;
  const L& c = l;
  k.obs("empty", c.empty());
  if (!c.empty()) { k.obs("front", E::val(l.front())); k.obs("cfront", E::val(c.front())); }
  auto fwd = [&](auto b, auto e, const char* t) {
    u64 g = 0; std::size_t m = 0;
    for (; !(b == e); ++b) { if (m++ > lim) { k.check(false, "iteration does not end"); return; } g = mix(g, E::val(*b)); }
    k.obs(t, g); k.obs(t, m);
  };
  fwd(l.begin(), l.end(), "forwards"); fwd(c.begin(), c.end(), "const forwards"); fwd(c.cbegin(), c.cend(), "cforwards");
}
template <class L, class S>
constexpr void run_fl(Src s, S& k, std::size_t lim) {
  using T = typename L::value_type;
  using E = Elem<T>;
  L v[3];
  unsigned serial = 0;
  const std::size_t cap = 2 * lim + 100;
  while (!s.done()) {
    unsigned op = s.byte() % FL_OPS, a = s.byte() % 3, x = s.byte(), y = s.byte(), z = s.byte();
    unsigned b = x % 3;
    L& u = v[a];
    std::size_t n = fl_size(u, cap), i = (x * 256u + y) % (n + 1), j = n ? (x * 256u + y) % n : 0;
    ++serial;
    if (n >= lim && (op < 6 || op == 13)) op = 6 + op % 4;
    auto before = [&](std::size_t q) { auto it = u.before_begin(); while (q--) ++it; return it; };
    switch (op) {
      case 0: { k.op("push_front(const&)", a); const T t = E::make(serial); u.push_front(t); k.obs("arg", E::val(t)); break; }
      case 1: k.op("push_front(&&)", a); u.push_front(E::make(serial)); break;
      case 2: case 3: { k.op("insert_after(const&)", a, i); const T t = E::make(serial); auto it = u.insert_after(before(i), t); k.obs("insert at", fl_index(u, it)); k.obs("insert returns", E::val(*it)); break; }
      case 4: case 5: { k.op("insert_after(&&)", a, i); auto it = u.insert_after(before(i), E::make(serial)); k.obs("insert at", fl_index(u, it)); k.obs("insert returns", E::val(*it)); break; }
      case 6: k.op("pop_front", a); if (n) u.pop_front(); break;
      case 7: if (n) { k.op("erase_after", a, j); auto it = u.erase_after(before(j)); k.obs("erase returns", fl_index(u, it)); k.obs("at end", it == u.end()); } break;
      case 8: case 9: { std::size_t f = i, l = f + 1 + (z % (n - f + 1)); k.op("erase_after(range)", f, l);   // positions counted from before_begin
          auto last = l > n ? u.end() : before(l); auto it = u.erase_after(before(f), last); k.obs("range erase returns", fl_index(u, it)); k.obs("at end", it == u.end()); break; }
      case 10: k.op("clear", a); if (z & 1) u.clear(); break;
      case 11: { k.op("copy assign", a, b); L& r = (v[a] = v[b]); k.check(&r == &v[a], "operator= does not return *this"); observe_fl(v[b], k, cap); break; }
      case 12: { k.op("copy construct", a, b); L t(v[b]); observe_fl(t, k, cap); if (y & 1) { t.push_front(E::make(serial)); observe_fl(v[b], k, cap); } if (y & 2) u.swap(t); else u = t; observe_fl(t, k, cap); break; }
      case 13: { unsigned c = lim > 60000 ? z * 300u : lim > 1000 ? z * 4u : z % 24; k.op("insert run", a, c); auto it = before(i); for (unsigned q = 0; q < c; q++) it = u.insert_after(it, E::make(serial + q)); k.obs("run ends at", fl_index(u, it)); break; }
      case 14: k.op("swap", a, b); v[a].swap(v[b]); observe_fl(v[b], k, cap); break;
      default: if (n) { k.op("write", a, j); if (z % 2) *nth(u, j) = E::make(serial); else u.front() = E::make(serial); k.obs("arrow", E::val(*nth(u, j).operator->())); } break;
    }
    observe_fl(v[a], k, cap);
    tick(k, v);
  }
  for (int q = 0; q < 3; q++) { k.op("final", q); observe_fl(v[q], k, cap); }
}
} // namespace vf
#endif
