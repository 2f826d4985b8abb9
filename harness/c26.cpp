#include "driver.hpp"
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/functional.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/queue.hpp>
#include <cest/set.hpp>
#include <cest/shared_ptr.hpp>
#include <cest/string.hpp>
#include <cest/vector.hpp>
namespace vf {
constexpr unsigned OPS = 20, REC = 6;
const Shape vf_shape{1, REC, OPS, 70};
const char* const vf_rule = "A case is a header choosing one of 26 types (containers, strings, queues, functions, and nests of them) and a list of 6-byte operation records over five objects of it "
  "(mutations, copies, moves, self-assignment, chains, swaps, hand-over by value, relocation in a host container, destruction); after each, every object not taking part must be observed unchanged; "
  "it is non-trivial if it makes at least one copy or move of a non-empty object and mutates afterwards.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

using Out = std::vector<u64>;
struct Bag { std::vector<int> v; int calls = 0; int operator()(int x) { v.push_back(x); ++calls; int t = 0; for (int y : v) t = t * 3 + y; return t; } };
using Fn = cest::function<int(int)>;

template <class T> concept Str = requires(const T& t) { t.c_str(); };
template <class T> concept Map = requires { typename T::mapped_type; };
template <class T> concept Set = requires { typename T::key_compare; } && !Map<T>;
template <class T> concept Que = requires { typename T::container_type; };
template <class T> concept Fwd = requires(T& t) { t.before_begin(); };
template <class T> concept Func = std::is_same_v<T, Fn>;
template <class T> concept Ptr = requires(const T& t) { t.use_count(); };
template <class T> concept Lst = requires(T& t) { t.emplace_front(); };
template <class T> concept Vec = requires(T& t) { t.capacity(); } && !Str<T>;
template <class T> constexpr bool is_pair = requires(T& t) { t.first; t.second; };

template <class T> T mk(unsigned n);
template <class T> void poke(T& t, unsigned op, unsigned x, unsigned depth = 0);
template <class T> void look(const T& t, Out& o);

template <class T> T mk(unsigned n) {
  if constexpr (std::is_integral_v<T>) return T(n * 7 + 1);
  else if constexpr (Func<T>) { Bag b; b(int(n)); return Fn(b); }
  else if constexpr (is_pair<T>) return T(mk<std::remove_const_t<decltype(T::first)>>(n), mk<decltype(T::second)>(n + 1));
  else if constexpr (Ptr<T>) return T(new int(int(n)));
  else if constexpr (Str<T>) { T s; for (unsigned i = 0; i < n % 19; i++) s.push_back(typename T::value_type('a' + (n + i) % 26)); return s; }
  else { T t; for (unsigned i = 0; i < n % 4; i++) poke(t, 0, n + i * 3, 1); return t; }
}
template <class T> void look(const T& t, Out& o) {
  if constexpr (std::is_integral_v<T>) o.push_back(u64(t));
  else if constexpr (Func<T>) { T c(t); Out q; o.push_back(u64(c(5))); o.push_back(u64(c(6))); }        // state seen by calling a copy
  else if constexpr (is_pair<T>) { look(t.first, o); look(t.second, o); }
  else if constexpr (Ptr<T>) { o.push_back(bool(t)); if (t) o.push_back(u64(*t)); }
  else if constexpr (Que<T>) { o.push_back(t.size()); o.push_back(t.empty()); if (!t.empty()) { look(t.front(), o); look(t.back(), o); T c(t); for (std::size_t n = t.size(); n--; c.pop()) look(c.front(), o); o.push_back(c.empty()); } }
  else {
    std::size_t n = 0, lim = 100000;
    if constexpr (requires { t.size(); }) { o.push_back(t.size()); lim = t.size(); }
    o.push_back(t.empty());
    for (auto i = t.begin(); !(i == t.end()); ++i) { if (n++ >= lim) throw Mismatch{"iteration does not end after size() steps"}; look(*i, o); }
    o.push_back(n);
    if constexpr (requires { t[0]; } && !Map<T>) for (std::size_t i = 0; i < n; i++) look(t[i], o);
    if constexpr (Str<T>) o.push_back(u64(t.c_str()[n]));
    if constexpr (Lst<T> || Set<T> || Map<T>) { auto i = t.end(); for (std::size_t k = 0; k < n; k++) { --i; look(*i, o); } o.push_back(i == t.begin()); }
    if constexpr (Set<T> || Map<T>) { for (auto i = t.begin(); !(i == t.end()); ++i) { if constexpr (Map<T>) o.push_back(t.find((*i).first) == i); else o.push_back(t.find(*i) == i); } }
  }
}
template <class T> Out see(const T& t) { Out o; look(t, o); return o; }

// One mutation, a function of the state and (op, x) alone.
template <class T> void poke(T& t, unsigned op, unsigned x, unsigned depth) {
  if constexpr (std::is_integral_v<T>) t = T(x * 3 + 2);
  else if constexpr (Func<T>) { switch (op % 4) { case 0: t = mk<Fn>(x); break; case 1: { Fn g(t); t = [g, x](int v) { return g(v) + int(x); }; break; } default: t(int(x)); } }
  else if constexpr (is_pair<T>) { if constexpr (!std::is_const_v<decltype(T::first)>) if (x & 1) { poke(t.first, op, x / 2, depth + 1); return; } poke(t.second, op, x / 2, depth + 1); }
  else if constexpr (Ptr<T>) { t = x & 1 ? T(new int(int(x))) : T(); }
  else if constexpr (Que<T>) { using E = typename T::value_type; switch (op % 8) { case 5: case 6: if (!t.empty()) t.pop(); break; case 7: if (!t.empty()) poke(x & 1 ? t.front() : t.back(), op / 8, x, depth + 1); break; case 4: for (unsigned i = 0; i < (depth ? 3 : x * 4) && t.size() < 2400; i++) t.push(mk<E>(x + i)); break; default: if (t.size() < 2500) t.push(mk<E>(x)); } }
  else if constexpr (Map<T>) { using E = typename T::value_type; switch (op % 8) { case 6: if (x % 5 == 0) t.clear(); break; case 7: if (!t.empty()) { auto i = t.begin(); for (unsigned k = x % unsigned(t.size()); k--;) ++i; auto f = t.find((*i).first); poke((*f).second, op / 8, x, depth + 1); } break; case 5: for (unsigned i = 0; i < x % 16; i++) t.insert(mk<E>(x * 5 + i)); break; default: t.insert(mk<E>(x)); } }
  else if constexpr (Set<T>) { using E = typename T::value_type; switch (op % 8) { case 6: if (x % 5 == 0) t.clear(); break; case 5: for (unsigned i = 0; i < x % 16; i++) t.insert(mk<E>(x * 5 + i)); break; default: t.insert(mk<E>(x)); } }
  else if constexpr (Fwd<T>) {
    using E = typename T::value_type; std::size_t n = 0; for (auto i = t.begin(); !(i == t.end()); ++i) n++;
    auto at = [&](std::size_t k) { auto i = t.before_begin(); while (k--) ++i; return i; };
    switch (op % 8) { case 0: case 1: t.push_front(mk<E>(x)); break; case 2: case 3: t.insert_after(at(x % (n + 1)), mk<E>(x)); break; case 4: if (n) t.pop_front(); break; case 5: if (n) t.erase_after(at(x % n)); break;
      case 6: if (x % 4 == 0) t.clear(); else t.erase_after(at(x % (n + 1)), t.end()); break; default: if (n) poke(*++at(x % n), op / 8, x, depth + 1); }
  }
  else if constexpr (Lst<T>) {
    using E = typename T::value_type; std::size_t n = t.size(); auto at = [&](std::size_t k) { auto i = t.begin(); while (k--) ++i; return i; };
    switch (op % 8) { case 0: t.push_back(mk<E>(x)); break; case 1: t.push_front(mk<E>(x)); break; case 2: t.insert(at(x % (n + 1)), mk<E>(x)); break; case 3: t.emplace(at(x % (n + 1)), mk<E>(x)); break; case 4: if (n) x & 1 ? t.pop_front() : t.pop_back(); break; case 5: if (n) t.erase(at(x % n)); break;
      case 6: if (x % 4 == 0) t.clear(); break; default: if (n) poke(*at(x % n), op / 8, x, depth + 1); }
  }
  else if constexpr (Str<T>) {
    using C = typename T::value_type;
    switch (op % 8) { case 0: case 1: t.push_back(C('A' + x % 50)); break; case 2: if (t.size() < 400) t.append(mk<T>(x)); break; case 3: if (t.size()) t.pop_back(); break; case 4: if (t.size()) t[x % t.size()] = C('0' + x % 70); break; case 5: t.reserve(x % 90); break;
      case 6: if (x % 4 == 0) t.clear(); else { T u(mk<T>(x)); t = u.c_str(); } break; default: if (t.size()) { if (x & 1) t.back() = C('z'); else *t.begin() = C(0); } }
  }
  else if constexpr (Vec<T>) {
    using E = typename T::value_type; std::size_t n = t.size();
    switch (op % 9) { case 0: case 1: t.push_back(mk<E>(x)); break; case 2: if (n) t.pop_back(); break; case 3: if (n) { std::size_t i = x % n; t.erase(t.begin() + i, t.begin() + i + 1 + (x / 16) % (n - i)); } break; case 4: if constexpr (std::is_default_constructible_v<E>) { t.resize(x % 20); } break; case 5: t.reserve(x % 40); break;
      case 6: if (x % 4 == 0) t.clear(); break; case 7: for (unsigned i = 0; i < x % 8; i++) t.push_back(mk<E>(x + i)); break; default: if (n) poke(t[x % n], op / 9, x, depth + 1); }
  }
  else {                                                                                        // deque
    using E = typename T::value_type; std::size_t n = t.size();
    switch (op % 8) { case 0: t.push_back(mk<E>(x)); break; case 1: t.push_front(mk<E>(x)); break; case 2: if (n) t.pop_back(); break; case 3: if (n) t.pop_front(); break;
      case 4: for (unsigned i = 0; i < (depth ? 3 : x * 3) && t.size() < 2400; i++) { if (x & 1) t.push_front(mk<E>(x + i)); else t.push_back(mk<E>(x + i)); } break; case 5: for (unsigned i = 0; i < x * 3 && !t.empty(); i++) t.pop_front(); break;
      case 6: if (x % 4 == 0) t.clear(); break; default: if (n) poke(t[x % n], op / 8, x, depth + 1); }
  }
}

template <class K> K by_value(K k, unsigned op, unsigned x) { poke(k, op, x); return k; }
template <class K> constexpr bool no_default = Func<K>;

template <class K> void run(Src s, Ctx& c) {
  K* v[5] = {}; Out snap[5];
  std::string log;
  struct Free { K** v; ~Free() { for (int i = 0; i < 5; i++) delete v[i]; } } guard{v};
  bool copied = false;
  auto fresh = [&](unsigned x) { if constexpr (no_default<K>) return new K(mk<K>(x)); else { K* k = new K; for (unsigned i = 0; i < x % 6; i++) poke(*k, i, x + i); return k; } };
  auto big = [](const Out& o) { return o.size() > 3 || (o.size() && o[0]); };
  const char* cur = "";
  auto fail = [&](const std::string& w) { c.say(log); throw Mismatch{w + " [during " + cur + "]"}; };
  try {
    while (!s.done()) {
      unsigned op = s.byte() % OPS, i = s.byte() % 5, j = s.byte() % 5, x = s.byte(), y = s.byte(), m = s.byte();
      unsigned touched = 1u << i;                                // objects whose state may change
      Out want[5]; bool check[5] = {};
      auto put = [&](unsigned q, K* n) { delete v[q]; v[q] = n; };
      auto op_is = [&](const char* n) { cur = n; log += std::string(n) + '(' + std::to_string(i) + ',' + std::to_string(j) + ',' + std::to_string(x) + ',' + std::to_string(y) + ")\n"; };
      auto expect = [&](unsigned q, const Out& o) { want[q] = o; check[q] = true; touched |= 1u << q; };
      switch (op) {
        case 0: op_is("create"); put(i, fresh(x)); break;
        case 1: case 2: case 3: case 4: if (v[i]) { op_is("mutate"); for (unsigned q = 0; q <= m % 3; q++) poke(*v[i], y + q, x + q); if (copied) c.nontrivial = true; } else put(i, fresh(x)); break;
        case 5: case 6: if (v[j] && i != j) { op_is("copy construct"); const K& src = *v[j]; put(i, new K(src)); expect(i, snap[j]); copied |= big(snap[j]); } break;
        case 7: case 8: if (v[i] && v[j]) { op_is("copy assign"); const K& src = *v[j]; K& r = (*v[i] = src); if (&r != v[i]) fail("= does not return the target"); expect(i, snap[j]); copied |= big(snap[j]); } break;
        case 9: if (v[i]) { op_is("self-assign"); const K& src = *v[i]; *v[i] = src; expect(i, snap[i]); } break;
        case 10: if (v[j] && i != j) { op_is("move construct"); put(i, new K(std::move(*v[j]))); expect(i, snap[j]); touched |= 1u << j; copied |= big(snap[j]);
            if constexpr (Func<K>) { put(j, y & 1 ? new K(*v[i]) : nullptr); } else if (y & 1) { poke(*v[j], y, x); } else if (y & 2) { *v[j] = *v[i]; expect(j, snap[j]); } break; } break;
        case 11: if (v[i] && v[j] && i != j) { op_is("move assign"); *v[i] = std::move(*v[j]); expect(i, snap[j]); touched |= 1u << j; copied |= big(snap[j]);
            if constexpr (Func<K>) { put(j, nullptr); } else if (y & 1) { poke(*v[j], y, x); } else if (y & 2) { *v[j] = *v[i]; expect(j, snap[j]); } break; } break;
        case 12: op_is("destroy"); put(i, nullptr); break;
        case 13: { unsigned q = x % 5; if (v[i] && v[j] && v[q]) { op_is("chain"); Out o = snap[q]; *v[i] = *v[j] = *v[q]; expect(j, o); expect(i, o); copied |= big(o); } break; }
        case 14: if (v[i] && v[j] && i != j) { op_is("std::swap"); using std::swap; swap(*v[i], *v[j]); Out a = snap[i], b = snap[j]; expect(i, b); expect(j, a); } break;
        case 15: if (v[j] && i != j) { op_is("twins"); put(i, new K(*v[j])); touched |= 1u << j; copied |= big(snap[j]);
            for (unsigned q = 0; q < 1 + m % 6; q++) { poke(*v[i], y + q * 5, x + q); if (see(*v[j]) != (q ? want[j] : snap[j])) fail("an operation on a copy changed the original"); poke(*v[j], y + q * 5, x + q); want[j] = see(*v[j]); if (see(*v[i]) != want[j]) fail("the same operation on a copy and on the original has different results"); }
            c.nontrivial |= copied; } break;
        case 16: if (v[j]) { op_is("by value"); if (i == j) { K r = by_value(*v[j], y, x); if (see(*v[j]) != snap[j]) fail("passing by value changed the argument"); } else { put(i, new K(by_value(*v[j], y, x))); Out o; { K t(*v[j]); poke(t, y, x); o = see(t); } expect(i, o); } } break;
        case 17: if (v[i] && v[j]) { op_is("assign a temporary"); *v[i] = K(*v[j]); expect(i, snap[j]); copied |= big(snap[j]); } break;
        case 18: { op_is("host container"); touched = 0; std::vector<K> h; cest::vector<K> g; for (unsigned q = 0; q < 5; q++) if (v[q]) { h.push_back(*v[q]); g.push_back(*v[q]); }
            if (h.size() > 1) { h.erase(h.begin() + x % h.size()); }
            g.reserve(x % 20); std::size_t at = 0; for (unsigned q = 0; q < 5; q++) if (v[q]) { if (see(g[at]) != snap[q]) fail("an object moved with its cest::vector has changed"); poke(g[at], y, x); at++; } break; }
        default: if (v[i] && v[j] && i != j) { op_is("assign, destroy the source"); *v[i] = *v[j]; expect(i, snap[j]); copied |= big(snap[j]); if (y & 1) { Out o = snap[j]; K* t = v[j]; v[j] = nullptr; delete t; touched |= 1u << j; } } break;
      }
      for (unsigned q = 0; q < 5; q++) {
        if (!v[q]) { snap[q].clear(); continue; }
        Out now = see(*v[q]);
        if (check[q] && now != want[q]) fail("object " + std::to_string(q) + " does not have the contents copied, moved or assigned to it");
        if (!(touched >> q & 1) && now != snap[q]) fail("object " + std::to_string(q) + " changed although the operation was on others");
        snap[q] = std::move(now);
      }
    }
    cur = "destruction";
    for (unsigned q = 0; q < 5; q++) { delete v[q]; v[q] = nullptr; for (unsigned p = q + 1; p < 5; p++) if (v[p] && see(*v[p]) != snap[p]) fail("destroying an object changed another"); }
  } catch (const std::exception& e) { fail(std::string("unexpected exception ") + e.what()); }
  c.say(log);
}
struct Desc { bool operator()(const cest::string& a, const cest::string& b) const { return b < a; } };
void vf_case(Src s, Ctx& c) {
#define TYPE(N, ...) case N: c.label(#__VA_ARGS__); return run<__VA_ARGS__>(s, c)
  switch (s.byte() % 26) {
    TYPE(0, cest::vector<int>); TYPE(1, cest::string); TYPE(2, cest::wstring); TYPE(3, cest::deque<int>); TYPE(4, cest::list<int>); TYPE(5, cest::forward_list<int>);
    TYPE(6, cest::set<int>); TYPE(7, cest::map<int, int>); TYPE(8, cest::queue<int>); TYPE(9, cest::queue<cest::string, cest::list<cest::string>>); TYPE(10, Fn);
    TYPE(11, cest::vector<cest::string>); TYPE(12, cest::vector<cest::vector<int>>); TYPE(13, cest::deque<cest::string>); TYPE(14, cest::list<cest::vector<int>>); TYPE(15, cest::forward_list<cest::string>);
    TYPE(16, cest::set<cest::string, Desc>); TYPE(17, cest::map<cest::string, cest::vector<int>>); TYPE(18, cest::map<int, cest::set<int>>); TYPE(19, cest::vector<cest::map<int, cest::string>>); TYPE(20, cest::list<cest::list<int>>);
    TYPE(21, cest::vector<Fn>); TYPE(22, cest::vector<cest::shared_ptr<int>>); TYPE(23, cest::map<int, Fn>); TYPE(24, std::pair<cest::string, cest::list<cest::string>>); TYPE(25, cest::list<cest::deque<int>>);
  }
}
} // namespace vf
