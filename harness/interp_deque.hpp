// Histories over a deque-like type, observed through its public interface.
#ifndef VERIF_INTERP_DEQUE_HPP
#define VERIF_INTERP_DEQUE_HPP
#include "core.hpp"
namespace vf {
constexpr unsigned DEQ_OPS = 20;
constexpr unsigned DEQ_REC = 6;

template <class D, class S> constexpr void observe_deq(D& v, S& k) {
  using E = Elem<typename D::value_type>;
  const D& cv = v;
  const std::size_t n = cv.size();
  k.obs("size", n); k.obs("empty", cv.empty());
  u64 h = 0;
  if (n <= 200) { for (std::size_t i = 0; i < n; i++) h = mix(h, E::val(cv[i])); }
  else {
    for (std::size_t i = 0; i < 6; i++) h = mix(mix(h, E::val(cv[i])), E::val(cv[n - 1 - i]));
    for (std::size_t i = 1; i < 32; i++) { h = mix(h, E::val(v[i * (n - 1) / 32])); h = mix(h, E::val(cv[i * (n - 1) / 32])); }
  }
  k.obs("content by []", h);
  if (n) { k.obs("front", E::val(v.front())); k.obs("cfront", E::val(cv.front())); k.obs("back", E::val(v.back())); k.obs("cback", E::val(cv.back())); }
  k.check(std::size_t(v.end() - v.begin()) == n, "end() - begin() != size()");
  k.check(std::size_t(cv.end() - cv.begin()) == n && std::size_t(cv.cend() - cv.cbegin()) == n, "const end() - begin() != size()");
  k.check((v.begin() == v.end()) == (n == 0), "begin() == end() does not mean empty");
}
template <class D, class S> constexpr void observe_deq_deep(D& v, S& k) {
  using E = Elem<typename D::value_type>;
  const D& cv = v;
  const std::size_t n = cv.size();
  u64 h = 0;
  for (std::size_t i = 0; i < n; i++) { h = mix(h, E::val(v[i])); k.check(&cv[i] == &v[i], "const and non-const [] name different elements"); }
  k.obs("content", h);
  auto fwd = [&](auto b, auto e, const char* t) {
    u64 g = 0; std::size_t m = 0;
    for (; !(b == e); ++b) { if (m++ > n) { k.check(false, "iteration does not reach the end after size() steps"); return; } g = mix(g, E::val(*b)); }
    k.obs(t, g); k.obs(t, m);
  };
  fwd(v.begin(), v.end(), "iterate"); fwd(cv.begin(), cv.end(), "const iterate"); fwd(cv.cbegin(), cv.cend(), "citerate");
  auto bwd = [&](auto b, auto e, const char* t) {
    u64 g = 0; std::size_t m = 0;
    while (!(b == e)) { if (m++ > n) { k.check(false, "backward iteration does not reach begin() after size() steps"); return; } --e; g = mix(g, E::val(*e)); }
    k.obs(t, g); k.obs(t, m);
  };
  // distances from a few places to every other
  auto dist = [&](auto b, auto e, const char* t) {
    bool ok = true;
    for (std::size_t p : {std::size_t(0), n / 3, std::size_t(h % (n + 1)), n}) {
      auto q = b; q += std::ptrdiff_t(p); auto it = b;
      for (std::size_t i = 0; i <= n; i++) { const auto d = std::ptrdiff_t(i) - std::ptrdiff_t(p); ok = ok && it - q == d && q - it == -d && (it < q) == (d < 0) && (it == q) == (d == 0); if (i < n) ++it; }
      ok = ok && it == e;
    }
    k.check(ok, t);
  };
  if (!S::no_throw) { dist(v.begin(), v.end(), "iterator distances are wrong"); dist(cv.begin(), cv.end(), "const_iterator distances are wrong"); }
  bwd(v.begin(), v.end(), "iterate backwards"); bwd(cv.begin(), cv.end(), "const iterate backwards");
}
// Bulk counts: mostly small; else around the multiples of half a storage chunk.
constexpr unsigned deq_count(Src& o, unsigned big) {
  unsigned b = o.byte(), c = o.byte();
  if (b < 110 || big < 512) return b % 4 ? c % 7 : c % 80;
  unsigned base = 512u * (1 + (big > 60000 ? b * 5u : b) % (big / 512));
  return base - 6 + c % 13;
}
template <class D, class S>
constexpr void run_deq(Src s, S& k, unsigned big, std::size_t lim) {
  using T = typename D::value_type;
  using E = Elem<T>;
  D v[3];
  unsigned serial = 0;
  while (!s.done()) {
    unsigned op = s.byte() % DEQ_OPS, a = s.byte() % 3, x = s.byte(), y = s.byte();
    Src o(s.p + s.i < s.p + s.n ? s.p + s.i : s.p, s.n - s.i < 2 ? s.n - s.i : 2);
    s.byte(); s.byte();
    unsigned b = x % 3;
    D& u = v[a];
    std::size_t n = u.size();
    ++serial;
    auto room = [&](unsigned c) { return n + c > lim ? (n < lim ? unsigned(lim - n) : 0u) : c; };
    switch (op) {
      case 0: { k.op("push_back(const&)", a); const T t = E::make(serial); u.push_back(t); k.obs("arg", E::val(t)); break; }
      case 1: k.op("push_back(&&)", a); u.push_back(E::make(serial)); break;
      case 2: { k.op("push_front(const&)", a); const T t = E::make(serial); u.push_front(t); k.obs("arg", E::val(t)); break; }
      case 3: k.op("push_front(&&)", a); u.push_front(E::make(serial)); break;
      case 4: k.op("pop_back", a); if (n) u.pop_back(); break;
      case 5: k.op("pop_front", a); if (n) u.pop_front(); break;
      case 6: case 7: { unsigned c = room(deq_count(o, big)); k.op("push_back many", a, c); for (unsigned i = 0; i < c; i++) u.push_back(E::make(serial + i)); break; }
      case 8: case 9: { unsigned c = room(deq_count(o, big)); k.op("push_front many", a, c); for (unsigned i = 0; i < c; i++) u.push_front(E::make(serial + i)); break; }
      case 10: { unsigned c = deq_count(o, big); k.op("pop_back many", a, c); for (unsigned i = 0; i < c && u.size(); i++) u.pop_back(); break; }
      case 11: { unsigned c = deq_count(o, big); k.op("pop_front many", a, c); for (unsigned i = 0; i < c && u.size(); i++) u.pop_front(); break; }
      case 12: { unsigned c = deq_count(o, big); k.op("slide forwards", a, c); if (n) for (unsigned i = 0; i < c; i++) { u.push_back(E::make(serial + i)); u.pop_front(); } break; }
      case 13: { unsigned c = deq_count(o, big); k.op("slide backwards", a, c); if (n) for (unsigned i = 0; i < c; i++) { u.push_front(E::make(serial + i)); u.pop_back(); } break; }
      case 14: k.op("clear", a); u.clear(); break;
      case 15: { k.op("copy assign", a, b); D& r = (v[a] = v[b]); k.check(&r == &v[a], "operator= does not return *this"); observe_deq(v[b], k); break; }
      case 16: { k.op("copy construct", a, b); D t(v[b]); observe_deq_deep(t, k); if (y & 1) { t.push_back(E::make(serial)); t.push_front(E::make(serial + 1)); observe_deq(v[b], k); } if (y & 2) { u = t; } observe_deq(t, k); break; }
      case 17: { k.op("list construct", a, y % 4);
          switch (y % 4) { case 0: { D t = {E::make(x)}; u = t; break; } case 1: { D t{E::make(x), E::make(y)}; u = t; break; }
            case 2: { D t = {E::make(x), E::make(y), E::make(x), E::make(3), E::make(5)}; t.push_front(E::make(x)); u = t; break; } default: { D t{}; observe_deq(t, k); u = t; } } break; }
      case 18: { if (n) { std::size_t i = (x * 256u + y) % n; k.op("write", a, i);
          switch (o.byte() % 4) { case 0: u[i] = E::make(serial); break; case 1: u.front() = E::make(serial); break; case 2: u.back() = E::make(serial); break;
            default: { auto it = u.begin(); for (std::size_t j = 0; j < i; j++) ++it; *it = E::make(serial); k.obs("arrow", E::val(*it.operator->())); } } } break; }
      default: k.op("iterate", a); observe_deq_deep(u, k); break;
    }
    observe_deq(v[a], k);
    tick(k, v);
  }
  for (int i = 0; i < 3; i++) { k.op("final", i); observe_deq(v[i], k); observe_deq_deep(v[i], k); }
}
} // namespace vf
#endif
