// Histories over set- and map-like types with many key types and orderings.
#ifndef VERIF_INTERP_TREE_HPP
#define VERIF_INTERP_TREE_HPP
#include "core.hpp"
#include <functional>
#include <iterator>
#include <string_view>
namespace vf {
constexpr unsigned SET_OPS = 16, SET_REC = 5;
constexpr unsigned MAP_OPS = 16, MAP_REC = 5;

// Keys carry the serial number of the insertion that made them, which no ordering looks
// at, so that "the first inserted of each class is kept" is observable.
struct Tagged {
  int k; unsigned tag;
  // deliberately no operator==
};
template <> struct Elem<Tagged> { static constexpr u64 val(const Tagged& t) { return mix(u64(std::int64_t(t.k)), t.tag); } };
struct ByK { constexpr bool operator()(const Tagged& a, const Tagged& b) const { return a.k < b.k; } };
struct ByKDown { constexpr bool operator()(const Tagged& a, const Tagged& b) const { return b.k < a.k; } };
struct ByClass { constexpr bool operator()(const Tagged& a, const Tagged& b) const { return a.k / 4 < b.k / 4; } };        // weak order
struct ByMod { constexpr bool operator()(const Tagged& a, const Tagged& b) const { return (a.k % 13) * 100 + a.k / 64 < (b.k % 13) * 100 + b.k / 64; } };
struct Transp {                                                                                                            // transparent
  using is_transparent = void;
  constexpr bool operator()(const Tagged& a, const Tagged& b) const { return a.k < b.k; }
  constexpr bool operator()(const Tagged& a, long b) const { return a.k < b; }
  constexpr bool operator()(long a, const Tagged& b) const { return a < b.k; }
  constexpr bool operator()(const Tagged& a, double b) const { return a.k < b; }
  constexpr bool operator()(double a, const Tagged& b) const { return a < b.k; }
};
// An ordering that is chosen when a container is made, and that copies take with them.
struct Turned {
  using is_transparent = void;
  static inline int turn = 0; int d = turn;
  bool less(long a, long b) const { return d == 0 ? a < b : d == 1 ? b < a : a / 4 < b / 4; }
  bool operator()(const Tagged& a, const Tagged& b) const { return less(a.k, b.k); }
  bool operator()(const Tagged& a, long b) const { return less(a.k, b); }
  bool operator()(long a, const Tagged& b) const { return less(a, b.k); }
  bool operator()(const Tagged& a, double b) const { return d == 2 ? less(a.k, long(b)) : less(2L * a.k, long(2 * b)); }
  bool operator()(double a, const Tagged& b) const { return d == 2 ? less(long(a), b.k) : less(long(2 * a), 2L * b.k); }
};
template <class C> concept turned = requires { C::turn; };
template <class K> struct KeyOf { static constexpr K make(int k, unsigned) { return K(k); } };
// every magnitude and sign, in the order of k
template <> struct KeyOf<long> { static constexpr long make(int k, unsigned) { return k >= 4095 ? 0x7fffffffffffffffL : k <= 0 ? -0x7fffffffffffffffL - 1 : (k - 2048L) * 0x10000000000000L; } };
template <> struct KeyOf<Tagged> { static constexpr Tagged make(int k, unsigned t) { return {k, t}; } };
template <> struct KeyOf<std::string> { static std::string make(int k, unsigned) { return std::string(std::size_t(k % 7), 'k') + std::to_string(k); } };
template <> struct KeyOf<Own> { static constexpr Own make(int k, unsigned) { return Own(k); } };

template <class C> concept transparent = requires { typename C::is_transparent; };

// A key number: universe small (many duplicates) or large, in several orders.
constexpr int key_of(unsigned mode, unsigned x, unsigned y, unsigned serial) {
  switch (mode % 6) {
    case 0: return int(x % 12);
    case 1: return int((x * 256u + y) % 400);
    case 2: return int(serial * 3 % 2048);
    case 3: return int((4000 - serial * 2) & 0xfff);
    case 4: return int(serial % 2 ? serial : 1000 - serial) & 0xfff;
    default: return int(x % 64);
  }
}

template <class V> constexpr const auto& key_part(const V& v) { return v; }

template <class T, class S> constexpr void observe_set(const T& c, S& k) {
  using E = Elem<typename T::value_type>;
  const std::size_t n = c.size();
  k.obs("size", n); k.obs("empty", c.empty());
  u64 h = 0; std::size_t m = 0;
  for (auto b = c.begin(); !(b == c.end()); ++b) { if (m++ > n) { k.check(false, "iteration does not end"); return; } h = mix(h, E::val(*b)); }
  k.obs("iterate", h); k.obs("steps", m);
}
template <class T, class S> constexpr void observe_set_deep(T& v, S& k) {
  using E = Elem<typename T::value_type>;
  const T& c = v;
  const std::size_t n = c.size();
  u64 h = 0, g = 0; std::size_t m = 0;
  for (auto b = c.cbegin(); b != c.cend(); b++) { if (m++ > n) { k.check(false, "iteration does not end"); return; } h = mix(h, E::val(*b.operator->())); }
  for (auto b = v.begin(); b != v.end(); ++b) g = mix(g, E::val(*b));
  k.obs("citerate", h); k.obs("non-const iterate", g);
  // ascending and found
  bool ok = true, found = true; typename T::key_compare cmp{};
  if (n) { auto p = c.begin(), q = p; for (++q; q != c.end(); ++p, ++q) ok = ok && cmp(*p, *q); for (p = c.begin(); p != c.end(); ++p) found = found && v.find(*p) == p && c.find(*p) == p; }
  k.check(ok || turned<typename T::key_compare>, "elements are not strictly ascending"); k.check(found, "an element is not found");
}

template <class T, class S>
constexpr void run_set(Src s, S& k, unsigned kmode, std::size_t lim) {
  using Key = typename T::value_type;
  using E = Elem<Key>;
  if constexpr (turned<typename T::key_compare>) T::key_compare::turn = 0;
  T v[3];
  unsigned serial = 0;
  while (!s.done()) {
    unsigned op = s.byte() % SET_OPS, a = s.byte() % 3, x = s.byte(), y = s.byte(), z = s.byte();
    unsigned b = x % 3;
    T& u = v[a]; const T& cu = u;
    ++serial;
    if constexpr (turned<typename T::key_compare>) T::key_compare::turn = int(y % 3);
    int kn = key_of(kmode, x, y, serial);
    if (u.size() >= lim && op < 9) op = 10;
    auto ins = [&](int kk) { const Key key = KeyOf<Key>::make(kk, serial); auto r = u.insert(key); k.obs("inserted", r.second); k.obs("insert returns", E::val(*r.first)); k.check(cu.find(key) == r.first, "find does not agree with insert"); };
    switch (op) {
      case 0: case 1: case 2: k.op("insert", a, u64(kn)); ins(kn); break;
      case 3: case 4: { k.op("insert(hint)", a, u64(kn)); const Key key = KeyOf<Key>::make(kn, serial); const Key hk = KeyOf<Key>::make(int(z), 0);
          auto h = z & 1 ? u.begin() : z & 2 ? u.find(hk) : u.end(); auto it = u.insert(h, key); k.obs("hinted insert returns", E::val(*it)); break; }
      case 5: case 6: case 7: case 8: { unsigned c = lim > 60000 ? z * 300u : lim > 1000 ? z * 3u : z % 40; k.op("insert run", a, c); int base = kn, step = op == 5 ? 1 : op == 6 ? -1 : op == 7 ? 7 : 0;
          for (unsigned i = 0; i < c; i++) { int kk = step ? base + int(i) * step : base + int(i % 2 ? i : 60 - i); kk &= lim > 60000 ? 0x3ffff : 0xfff; const Key key = KeyOf<Key>::make(kk, serial * 64 + i); auto r = u.insert(key); k.obs("inserted", r.second); if (!(i & (lim > 60000 ? 32767u : lim > 1000 ? 127u : 7u))) observe_set(u, k); } break; }
      case 9: k.op("clear", a); if (z % 4 == 0) u.clear(); else if (z % 4 == 1) { std::destroy_at(&u); std::construct_at(&u); } break;
      case 10: { k.op("copy assign", a, b); T& r = (v[a] = v[b]); k.check(&r == &v[a], "operator= does not return *this"); observe_set(v[b], k); break; }
      case 11: { k.op("copy construct", a, b); T t(v[b]); observe_set_deep(t, k); if (y & 1) { t.insert(KeyOf<Key>::make(kn, serial)); observe_set(v[b], k); } if (y & 2) u = t; observe_set(t, k); break; }
      case 12: case 13: { k.op("find", a, u64(kn)); const Key key = KeyOf<Key>::make(kn, 0); auto it = u.find(key); auto ct = cu.find(key);
          k.obs("found", it != u.end()); k.obs("const found", ct != cu.end()); if (it != u.end()) k.obs("found value", E::val(*it)); if (ct != cu.end()) k.obs("const found value", E::val(*ct)); break; }
      case 14: if constexpr (transparent<typename T::key_compare>) {
          k.op("find(other type)", a, u64(kn));
          if constexpr (std::is_same_v<Key, Tagged>) {
            auto i1 = u.find(long(kn)); auto i2 = cu.find(long(kn)); auto i3 = u.find(kn + 0.5); auto i4 = cu.find(double(kn));
            k.obs("found", i1 != u.end()); if (i1 != u.end()) k.obs("value", E::val(*i1));
            k.obs("const found", i2 != cu.end()); if (i2 != cu.end()) k.obs("value", E::val(*i2));
            k.obs("half found", i3 != u.end()); k.obs("double found", i4 != cu.end()); if (i4 != cu.end()) k.obs("value", E::val(*i4));
          } else if constexpr (std::is_same_v<Key, std::string>) {
            std::string t = KeyOf<Key>::make(kn, 0); std::string_view sv(t);
            auto i1 = u.find(sv); auto i2 = cu.find(t.c_str());
            k.obs("found", i1 != u.end()); if (i1 != u.end()) k.obs("value", E::val(*i1));
            k.obs("const found", i2 != cu.end()); if (i2 != cu.end()) k.obs("value", E::val(*i2));
          }
        } break;
      default: k.op("iterate", a); observe_set_deep(u, k); break;
    }
    observe_set(u, k);
    tick(k, v);
  }
  for (int q = 0; q < 3; q++) { k.op("final", q); observe_set(v[q], k); observe_set_deep(v[q], k); }
}

template <class T, class S> constexpr void observe_map(const T& c, S& k) {
  using EK = Elem<typename T::key_type>; using EM = Elem<typename T::mapped_type>;
  const std::size_t n = c.size();
  k.obs("size", n); k.obs("empty", c.empty());
  u64 h = 0; std::size_t m = 0;
  for (auto b = c.begin(); !(b == c.end()); ++b) { if (m++ > n) { k.check(false, "iteration does not end"); return; } h = mix(h, EK::val(b->first)); h = mix(h, EM::val((*b).second)); }
  k.obs("iterate", h); k.obs("steps", m);
}
template <class T, class S> constexpr void observe_map_deep(T& v, S& k) {
  using EK = Elem<typename T::key_type>; using EM = Elem<typename T::mapped_type>;
  const T& c = v;
  const std::size_t n = c.size();
  u64 h = 0; std::size_t m = 0;
  for (auto b = c.cbegin(); b != c.cend(); b++) { if (m++ > n) { k.check(false, "iteration does not end"); return; } h = mix(mix(h, EK::val(b->first)), EM::val(b->second)); }
  k.obs("citerate", h);
  bool ok = true, found = true; typename T::key_compare cmp{};
  if (n) { auto p = c.begin(), q = p; for (++q; q != c.end(); ++p, ++q) ok = ok && cmp(p->first, q->first);
    for (p = c.begin(); p != c.end(); ++p) { auto f = v.find(p->first); found = found && f != v.end() && &f->second == &p->second && c.find(p->first) == p; } }
  k.check(ok || turned<typename T::key_compare>, "keys are not strictly ascending"); k.check(found, "an entry is not found");
  // forwards with the non-const iterator obtained through find
  if (n) { u64 g = 0; m = 0; for (auto it = v.find(c.begin()->first); it != v.end(); it++) { if (m++ > n) { k.check(false, "iteration does not end"); return; } g = mix(mix(g, EK::val(it->first)), EM::val(it->second)); } k.obs("non-const iterate", g); }
}

template <class T, class S>
constexpr void run_map(Src s, S& k, unsigned kmode, std::size_t lim) {
  using Key = typename T::key_type; using M = typename T::mapped_type; using V = typename T::value_type;
  using EK = Elem<Key>; using EM = Elem<M>;
  if constexpr (turned<typename T::key_compare>) T::key_compare::turn = 0;
  T v[3];
  unsigned serial = 0;
  while (!s.done()) {
    unsigned op = s.byte() % MAP_OPS, a = s.byte() % 3, x = s.byte(), y = s.byte(), z = s.byte();
    unsigned b = x % 3;
    T& u = v[a]; const T& cu = u;
    ++serial;
    if constexpr (turned<typename T::key_compare>) T::key_compare::turn = int(y % 3);
    int kn = key_of(kmode, x, y, serial);
    if (u.size() >= lim && op < 8) op = 10;
    switch (op) {
      case 0: case 1: case 2: { k.op("insert", a, u64(kn)); const V val(KeyOf<Key>::make(kn, serial), EM::make(serial)); auto r = u.insert(val);
          k.obs("inserted", r.second); k.obs("insert key", EK::val(r.first->first)); k.obs("insert value", EM::val(r.first->second)); k.check(u.find(val.first) == r.first, "find does not agree with insert");
          if (z % 5 == 0) { r.first->second = EM::make(serial + 1000); } break; }
      case 3: { k.op("insert(temporary)", a, u64(kn)); auto r = u.insert({KeyOf<Key>::make(kn, serial), EM::make(serial)}); k.obs("inserted", r.second); k.obs("insert value", EM::val((*r.first).second)); break; }
      case 4: case 5: case 6: case 7: { unsigned c = lim > 60000 ? z * 300u : lim > 1000 ? z * 3u : z % 40; k.op("insert run", a, c); int base = kn, step = op == 4 ? 1 : op == 5 ? -1 : op == 6 ? 7 : 0;
          for (unsigned i = 0; i < c; i++) { int kk = step ? base + int(i) * step : base + int(i % 2 ? i : 60 - i); kk &= lim > 60000 ? 0x3ffff : 0xfff; auto r = u.insert(V(KeyOf<Key>::make(kk, serial * 64 + i), EM::make(serial + i))); k.obs("inserted", r.second); if (!(i & (lim > 60000 ? 32767u : lim > 1000 ? 127u : 7u))) observe_map(u, k); } break; }
      case 8: k.op("clear", a); if (z % 4 == 0) u.clear(); else if (z % 4 == 1) { std::destroy_at(&u); std::construct_at(&u); } break;
      case 9: { k.op("copy assign", a, b); T& r = (v[a] = v[b]); k.check(&r == &v[a], "operator= does not return *this"); observe_map(v[b], k); break; }
      case 10: { k.op("copy construct", a, b); T t(v[b]); observe_map_deep(t, k); if (y & 1) { t.insert(V(KeyOf<Key>::make(kn, serial), EM::make(serial))); observe_map(v[b], k); } if (y & 2) u = t; observe_map(t, k); break; }
      case 11: case 12: { k.op("find", a, u64(kn)); const Key key = KeyOf<Key>::make(kn, 0); auto it = u.find(key); auto ct = cu.find(key);
          k.obs("found", it != u.end()); k.obs("const found", ct != cu.end()); if (it != u.end()) { k.obs("found key", EK::val(it->first)); k.obs("found value", EM::val(it->second)); } if (ct != cu.end()) k.obs("const found value", EM::val(ct->second)); break; }
      case 13: { k.op("assign through find", a, u64(kn)); const Key key = KeyOf<Key>::make(kn, 0); auto it = u.find(key); if (it != u.end()) (*it).second = EM::make(serial + 500); break; }
      case 14: if constexpr (transparent<typename T::key_compare>) {
          k.op("find(other type)", a, u64(kn));
          auto both = [&](const auto& q) { auto i1 = u.find(q); auto i2 = cu.find(q); k.obs("found", i1 != u.end()); if (i1 != u.end()) { k.obs("key", EK::val(i1->first)); k.obs("value", EM::val(i1->second)); if (z & 1) i1->second = EM::make(serial + 900); }
            k.obs("const found", i2 != cu.end()); if (i2 != cu.end()) k.obs("value", EM::val(i2->second)); };
          if constexpr (std::is_same_v<Key, Tagged>) { both(long(kn)); both(kn + 0.5); both(double(kn)); }
          else if constexpr (std::is_same_v<Key, std::string>) { std::string t = KeyOf<Key>::make(kn, 0); std::string_view sv(t); both(sv); const char* p = t.c_str(); both(p); }
        } break;
      default: k.op("iterate", a); observe_map_deep(u, k); break;
    }
    observe_map(u, k);
    tick(k, v);
  }
  for (int q = 0; q < 3; q++) { k.op("final", q); observe_map(v[q], k); observe_map_deep(v[q], k); }
}
} // namespace vf
#endif
