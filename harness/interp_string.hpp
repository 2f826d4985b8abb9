// Histories over a string-like type, observed through its public interface.
#ifndef VERIF_INTERP_STRING_HPP
#define VERIF_INTERP_STRING_HPP
#include "core.hpp"
#include <limits>
#include <iterator>
namespace vf {

constexpr unsigned STR_OPS = 24;
constexpr unsigned STR_REC = 8;

// An exactly sized heap buffer, so that a read or write past it is seen.
template <class C> struct Buf {
  C* p; std::size_t n;
  constexpr explicit Buf(std::size_t n_) : p(new C[n_]{}), n(n_) {}
  Buf(const Buf&) = delete;
  constexpr ~Buf() { delete[] p; }
};

// A single-pass iterator over a buffer.
template <class C> struct InIt {
  using iterator_category = std::input_iterator_tag; using value_type = C; using difference_type = std::ptrdiff_t; using pointer = const C*; using reference = C;
  const C* p;
  constexpr C operator*() const { return *p; }
  constexpr InIt& operator++() { ++p; return *this; }
  constexpr InIt operator++(int) { InIt t = *this; ++p; return t; }
  friend constexpr bool operator==(const InIt& a, const InIt& b) { return a.p == b.p; }
  friend constexpr bool operator!=(const InIt& a, const InIt& b) { return a.p != b.p; }
};

// Characters: a small alphabet so that searches and comparisons often nearly match,
// with the null character and the extreme values of the type in it.
template <class C> constexpr C letter(unsigned mode, unsigned v) {
  using L = std::numeric_limits<C>;
  switch (mode % 7) {
    case 0: return C('a');
    case 1: return C('a' + v % 2);
    case 2: return v % 5 ? C('a' + v % 2) : C(0);
    case 3: return C('a' + v % 5);
    case 4: { const C t[9] = {C('a'), C('b'), L::max(), L::min(), C(0x80), C(0x7f), C(0), C(-1), C('z')}; return t[v % 9]; }
    case 5: return C(v);                               // any character
    default: return v % 9 ? C('a') : C('b');
  }
}

template <class C> constexpr void fill(C* p, std::size_t n, unsigned mode, unsigned seed) {
  u64 r = seed * 0x9e3779b97f4a7c15ULL + 1;
  for (std::size_t i = 0; i < n; i++) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; p[i] = letter<C>(mode, unsigned(r >> 20) & 0xffff); }
}

template <class T, class S> constexpr void observe_str(T& v, S& k) {
  using C = typename T::value_type;
  const T& cv = v;
  const std::size_t n = cv.size();
  k.obs("size", n); k.obs("length", cv.length()); k.obs("empty", cv.empty());
  k.check(cv.capacity() >= n, "capacity() < size()");
  u64 h = 0;
  for (std::size_t i = 0; i < n; i++) h = mix(h, u64(cv[i]));
  k.obs("content", h);
  k.check(cv.data() == cv.c_str() && cv.data() == const_cast<const T&>(v).data() && v.data() == cv.data(), "data() and c_str() differ");
  k.check(cv.c_str()[n] == C(), "no terminating null");
  if (n) {
    k.obs("front", u64(cv.front())); k.obs("back", u64(cv.back())); k.obs("front'", u64(v.front())); k.obs("back'", u64(v.back()));
  }
  k.check(std::size_t(v.end() - v.begin()) == n && std::size_t(cv.end() - cv.begin()) == n && std::size_t(cv.cend() - cv.cbegin()) == n, "end() - begin() != size()");
}

template <class T, class S> constexpr void observe_str_deep(T& v, S& k) {
  const T& cv = v;
  u64 h = 1, g = 1, f = 1;
  std::size_t n = 0;
  for (auto& c : v) { if (n++ > v.size()) break; h = mix(h, u64(c)); }
  for (const auto& c : cv) g = mix(g, u64(c));
  for (auto it = cv.cbegin(); it != cv.cend(); ++it) f = mix(f, u64(*it));
  k.obs("iterate", h); k.obs("const iterate", g); k.obs("citerate", f);
}

constexpr u64 sign(int r) { return r < 0 ? 1 : r > 0 ? 2 : 0; }

template <class T, class S> constexpr void compare_all(T* v, unsigned a, unsigned b, S& k) {
  const T &x = v[a], &y = v[b];
  k.obs("compare(str)", sign(x.compare(y)));
  k.obs("compare(ptr)", sign(x.compare(y.c_str())));
  k.obs("== ss", x == y); k.obs("== sp", x == y.c_str()); k.obs("== ps", x.c_str() == y);
  k.obs("!= ss", x != y); k.obs("!= sp", x != y.c_str()); k.obs("!= ps", x.c_str() != y);
  k.obs("< ss", x < y); k.obs("< sp", x < y.c_str()); k.obs("< ps", x.c_str() < y);
}

template <class T, class S>
constexpr void run_str(Src s, S& k, unsigned big, std::size_t lim, bool alias = true) {
  using C = typename T::value_type;
  T v[3];
  unsigned serial = 0;
  auto pos = [](unsigned p) { return p == std::size_t(-1) ? ~u64(0) : u64(p); };
  (void)pos;
  while (!s.done()) {
    unsigned op = s.byte() % STR_OPS, a = s.byte() % 3, x = s.byte(), y = s.byte();
    unsigned mode = s.byte(), seed = s.byte();
    Src o(s.p + s.i < s.p + s.n ? s.p + s.i : s.p, s.n - s.i < 2 ? s.n - s.i : 2);
    s.byte(); s.byte();
    unsigned b = x % 3;
    if (!alias && a == b) b = (a + 1) % 3;
    T& u = v[a];
    std::size_t n = u.size();
    ++serial;
    auto at = [&](unsigned r) -> std::size_t { return r < 200 ? (n > 2000 && r >= 100 ? (r - 100) * (n / 100) : (r * 5u) % (n + 1)) : r < 225 ? n : r < 240 ? n + 1 : r < 250 ? n + r : T::npos - (r - 250); };
    switch (op) {
      case 0: k.op("push_back", a); u.push_back(letter<C>(mode, y + serial)); break;
      case 1: { k.op("+= char", a); T& r = (u += letter<C>(mode, y + serial)); k.check(&r == &u, "+= does not return *this"); break; }
      case 2: k.op("pop_back", a); if (n) u.pop_back(); break;
      case 3: case 4: { unsigned c = o.count(big); if (n + c > lim) c = n < lim ? unsigned(lim - n) : 0; k.op("append(ptr,count)", a, c);
          Buf<C> t(c); fill(t.p, c, mode, seed); T& r = u.append(t.p, c); k.check(&r == &u, "append does not return *this"); break; }
      case 5: k.op("append(str)", a, b); if (n + v[b].size() <= lim) u.append(v[b]); break;
      case 6: k.op("+= str", a, b); if (n + v[b].size() <= lim) u += v[b]; break;
      case 7: k.op("clear", a); u.clear(); break;
      case 8: { unsigned c = o.count(big); if (c > lim) c = lim; k.op("reserve", a, c); u.reserve(c); k.check(u.capacity() >= c, "reserve: capacity below request"); break; }
      case 9: { k.op("= str", a, b); T& r = (u = v[b]); k.check(&r == &u, "= does not return *this"); observe_str(v[b], k); break; }
      case 10: { unsigned c = o.count(big); if (c > lim) c = lim; k.op("= ptr", a, c); Buf<C> t(c + 1); fill(t.p, c, mode, seed); u = t.p; break; }
      case 11: { unsigned c = o.count(big); if (c > lim) c = lim; k.op("construct(ptr,count)", a, c); Buf<C> t(c); fill(t.p, c, mode, seed); T w(t.p, c); observe_str(w, k); u = w; observe_str(w, k); break; }
      case 12: { unsigned c = o.count(big); if (c > lim) c = lim; k.op("construct(ptr)", a, c); Buf<C> t(c + 1); fill(t.p, c, mode, seed); T w(t.p); observe_str(w, k); u = w; break; }
      case 13: { unsigned c = o.count(big); if (c > lim) c = lim; k.op("construct(iter)", a, c); Buf<C> t(c); fill(t.p, c, mode, seed); T w(InIt<C>{t.p}, InIt<C>{t.p + c}); observe_str(w, k); if (y & 1) w.push_back(C('q')); u = w; break; }
      case 14: { k.op("copy construct", a, b); T w(v[b]); observe_str(w, k); w.push_back(C('q')); observe_str(w, k); observe_str(v[b], k); break; }
      case 15: { std::size_t p = at(y); k.op("find(char)", a, p); C c = letter<C>(mode, seed); k.obs("find(char,pos)", u.find(c, p)); k.obs("find(char)", u.find(c)); break; }
      case 16: { std::size_t p = at(y); k.op("find(str)", a, p); k.obs("find(str,pos)", u.find(v[b], p)); k.obs("find(str)", u.find(v[b])); break; }
      case 17: case 18: {                                   // a needle cut out of the string, sometimes altered
          std::size_t p = at(y), q = n ? seed % n : 0, c = n ? o.byte() : 0; if (n) c = c < 150 ? c % 9 : c < 210 ? c % 40 : (n - q) * (c - 209) / 46; if (c > n - q) c = n - q; k.op("find(own piece)", p, c);
          Buf<C> t(c + 1); for (std::size_t i = 0; i < c; i++) t.p[i] = u[q + i];
          if (unsigned w = o.byte(); c && (w & 3) == 0) t.p[w & 4 ? c - 1 : (w * 67u + y) % c] = letter<C>(mode, x);
          k.obs("find(ptr,pos,count)", u.find(t.p, p, c)); k.obs("find(ptr,pos)", u.find(t.p, p)); k.obs("find(ptr)", u.find(t.p)); break; }
      case 19: { std::size_t p = at(y); unsigned c = o.byte() % 12; k.op("find(ptr)", p, c); Buf<C> t(c + 1); fill(t.p, c, mode, seed);
          k.obs("find(ptr,pos,count)", u.find(t.p, p, c)); k.obs("find(ptr,pos)", u.find(t.p, p)); k.obs("find(ptr)", u.find(t.p)); break; }
      case 20: { k.op("compare", a, b); compare_all(v, a, b, k); compare_all(v, b, a, k);
          T w(u); if (w.size() && (y & 1)) w[((x * 256u + seed) * (w.size() > 65535 ? 3u : 1u)) % w.size()] = letter<C>(mode, y); else if (y & 2) w.push_back(letter<C>(mode, y)); else if (w.size()) w.pop_back();
          k.obs("compare near", sign(u.compare(w))); k.obs("near <", u < w); k.obs("near >", w < u); k.obs("near ==", u == w); break; }
      case 21: if (n) { std::size_t i = (x * 256u + y) % n; C c = letter<C>(mode, seed); k.op("write", a, i);
          switch (o.byte() % 5) { case 0: u[i] = c; break; case 1: *(u.begin() + i) = c; break; case 2: u.data()[i] = c; break; case 3: u.front() = c; break; default: u.back() = c; } } break;
      case 22: { unsigned c = o.count(big); if (n + c > lim) c = n < lim ? unsigned(lim - n) : 0; k.op("push many", a, c); for (unsigned i = 0; i < c; i++) u.push_back(letter<C>(mode, i + seed)); break; }
      default: k.op("iterate", a); observe_str_deep(u, k); break;
    }
    observe_str(v[a], k);
    tick(k, v);
  }
  for (unsigned i = 0; i < 3; i++) if (const T& u = v[i]; u.size() > 2000) {             // deep inside a long string
    const std::size_t n = u.size();
    for (std::size_t p : {n - 1, n - n / 3, n / 2 + 7, n > 65600 ? std::size_t(65530 + n % 60) : n / 5}) {
      k.op("deep", i, p); k.obs("find(char,pos)", u.find(u[p], p)); k.obs("find(char)", u.find(u[p]));
      const std::size_t c = n - p < 9 ? n - p : 9; Buf<C> t(c + 1); for (std::size_t q = 0; q < c; q++) t.p[q] = u[p + q];
      k.obs("find(ptr,pos,count)", u.find(t.p, p, c)); k.obs("find(ptr,pos)", u.find(t.p, p - p % 2, c)); k.obs("find(str,pos)", u.find(T(t.p, c), p)); k.obs("find(str)", u.find(T(t.p, c)));
      T w(u); w[p] = C(w[p] + 1); k.obs("compare deep", sign(u.compare(w))); k.obs("== deep", u == w); k.obs("< deep", u < w);
    }
  }
  for (unsigned i = 0; i < 3; i++) { k.op("final", i); observe_str(v[i], k); observe_str_deep(v[i], k); for (unsigned j = 0; j < 3; j++) compare_all(v, i, j, k); }
}

} // namespace vf
#endif
