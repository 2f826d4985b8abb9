// Histories over a vector-like type V, observed through its public interface.
#ifndef VERIF_INTERP_VECTOR_HPP
#define VERIF_INTERP_VECTOR_HPP
#include "core.hpp"
#include <stdexcept>
namespace vf {

constexpr unsigned VEC_OPS = 24;
constexpr unsigned VEC_REC = 6;

template <class V, class S>
constexpr void observe_vec(V& v, S& k) {
  using T = typename V::value_type;
  const V& cv = v;
  k.obs("size", cv.size());
  k.obs("empty", cv.empty());
  k.check(cv.capacity() >= cv.size(), "capacity() < size()");
  std::size_t n = cv.size();
  u64 h = 0;
  for (std::size_t i = 0; i < n; i++) h = mix(h, Elem<T>::val(cv[i]));
  k.obs("content by const []", h);
  if (n) {
    k.obs("front", Elem<T>::val(v.front())); k.obs("cfront", Elem<T>::val(cv.front()));
    k.obs("back", Elem<T>::val(v.back()));   k.obs("cback", Elem<T>::val(cv.back()));
    k.check(&v[0] == v.data() && &cv[0] == cv.data(), "data() is not the first element");
  }
  k.check(std::size_t(v.end() - v.begin()) == n && std::size_t(cv.end() - cv.begin()) == n && std::size_t(cv.cend() - cv.cbegin()) == n, "end() - begin() != size()");
}

template <class V, class S>
constexpr void observe_vec_deep(V& v, S& k) {
  const V& cv = v;
  obs_range(k, "iterate", v.begin(), v.end(), v.size());
  obs_range(k, "const iterate", cv.begin(), cv.end(), cv.size());
  obs_range(k, "citerate", cv.cbegin(), cv.cend(), cv.size());
  obs_range(k, "reverse", v.rbegin(), v.rend(), v.size());
  obs_range(k, "const reverse", cv.rbegin(), cv.rend(), cv.size());
}

// lim: the largest size aimed at
template <class V, class S>
constexpr void run_vec(Src s, S& k, unsigned big, std::size_t lim) {
  using T = typename V::value_type;
  using E = Elem<T>;
  V v[3];
  unsigned serial = 0;
  while (!s.done()) {
    unsigned op = s.byte() % VEC_OPS, a = s.byte() % 3, x = s.byte(), y = s.byte();
    Src o(s.p + s.i < s.p + s.n ? s.p + s.i : s.p, s.n - s.i < 2 ? s.n - s.i : 2);
    s.byte(); s.byte();
    unsigned b = x % 3;
    V& u = v[a];
    std::size_t n = u.size();
    ++serial;
    switch (op) {
      case 0: case 1: { k.op("push_back(const&)", a); const T t = E::make(serial); u.push_back(t); k.obs("arg", E::val(t)); break; }
      case 2: { k.op("push_back(&&)", a); u.push_back(E::make(serial)); break; }
      case 3: { k.op("pop_back", a); if (n) u.pop_back(); break; }
      case 4: { unsigned c = o.count(big); if (c > lim) c = lim; k.op("resize", a, c); u.resize(c); break; }
      case 5: { unsigned c = o.count(big); if (c > lim) c = lim; k.op("reserve", a, c); std::size_t c0 = u.capacity(); u.reserve(c); k.check(u.capacity() >= c, "reserve: capacity below request"); k.check(u.capacity() >= c0, "reserve shrank"); break; }
      case 6: case 7: { std::size_t i = n ? (x * 7u + y) % (n + 1) : 0, j = i + (n - i ? o.byte() % (n - i + 1) : 0);
          k.op("erase", i, j); auto it = u.erase(u.begin() + i, u.begin() + j); k.obs("erase returns", u64(it - u.begin())); break; }
      case 8: { k.op("clear", a); u.clear(); break; }
      case 9: case 10: { k.op("copy assign", a, b); V& r = (v[a] = v[b]); k.check(&r == &v[a], "operator= does not return *this"); observe_vec(v[b], k); break; }
      case 11: { k.op("copy construct", a, b); V t(v[b]); observe_vec(t, k); if (y & 1) { t.push_back(E::make(serial)); observe_vec(v[b], k); } v[a].swap(t); observe_vec(t, k); break; }
      case 12: { k.op("move construct", a, b); V t(std::move(v[b])); k.obs("moved-from size", v[b].size()); v[a].swap(t); break; }
      case 13: { k.op("move assign", a, b); if (a != b) { v[a] = std::move(v[b]); v[b].clear(); } break; }
      case 14: { unsigned c = o.count(big); if (c > lim) c = lim; k.op("count construct", a, c); V t((typename V::size_type)c); k.obs("count size", t.size()); u.swap(t); break; }
      case 15: { k.op("list construct", a, y % 5);
          switch (y % 5) { case 0: { V t = {E::make(x)}; u.swap(t); break; } case 1: { V t{E::make(x), E::make(y)}; u.swap(t); break; }
            case 2: { V t = {E::make(x), E::make(y), E::make(x)}; u.swap(t); break; } case 3: { V t = {E::make(x), E::make(y), E::make(3), E::make(4), E::make(5)}; u.swap(t); break; }
            default: { V t{}; u.swap(t); } } break; }
      case 16: { if (n) { std::size_t i = (x * 256u + y) % n; k.op("write", a, i);
          switch (o.byte() % 6) { case 0: u[i] = E::make(serial); break; case 1: u.at(i) = E::make(serial); break; case 2: *(u.begin() + i) = E::make(serial); break; case 3: u.data()[i] = E::make(serial); break; case 4: u.front() = E::make(serial); break; default: u.back() = E::make(serial); } } break; }
      case 17: { k.op("at", a);
          if (n) { std::size_t i = (x * 256u + y) % n; const V& cu = u; k.obs("at", E::val(u.at(i))); k.obs("const at", E::val(cu.at(i))); }
          if (!S::no_throw) {
            std::size_t i = n + (y & 1 ? 0 : x); bool th = false; const V& cu = u;
            try { (void)u.at(i); } catch (const std::out_of_range&) { th = true; } k.obs("at throws out_of_range", th); th = false;
            try { (void)cu.at(i); } catch (const std::out_of_range&) { th = true; } k.obs("const at throws out_of_range", th); th = false;
            try { (void)u.at(std::size_t(-1) - x); } catch (const std::out_of_range&) { th = true; } k.obs("at(huge) throws", th);
          } break; }
      case 18: { k.op("==", a, b); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) k.obs("==", v[i] == v[j]); break; }
      case 19: { k.op("swap", a, b); v[a].swap(v[b]); observe_vec(v[b], k); break; }
      case 20: case 21: { unsigned c = o.count(big); if (n + c > lim) c = n < lim ? unsigned(lim - n) : 0; k.op("push many", a, c);
          for (unsigned i = 0; i < c; i++) u.push_back(E::make(serial + i)); break; }
      case 22: { unsigned c = o.count(big); k.op("pop many", a, c); for (unsigned i = 0; i < c && u.size(); i++) u.pop_back(); break; }
      default: { k.op("iterate", a); observe_vec_deep(u, k); break; }
    }
    observe_vec(v[a], k);
    tick(k, v);
  }
  for (int i = 0; i < 3; i++) { k.op("final", i); observe_vec(v[i], k); observe_vec_deep(v[i], k); }
}

} // namespace vf
#endif
