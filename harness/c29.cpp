#include "driver.hpp"
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/functional.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/queue.hpp>
#include <cest/set.hpp>
#include <cest/string.hpp>
#include <cest/vector.hpp>
#include <deque>
#include <forward_list>
#include <list>
#include <queue>
namespace vf {
constexpr unsigned OPS = 24, REC = 6;
const Shape vf_shape{1, REC, OPS, 100};
const char* const vf_rule = "A case is a header choosing a container and element type and a list of 6-byte operation records whose arguments are mostly the container's own elements or contents (pushes, insertions and appends of own elements, self-assignment, self-append, assignment from a pointer into the own characters, comparison and search with itself), "
  "run on the std container with an independent copy of each argument and on the cest container with the argument itself; it is non-trivial if it makes at least 3 aliased calls on containers of 2 or more elements.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

unsigned aliased;
template <class T> struct El;
template <> struct El<int> { static int mk(unsigned n) { return int(n) - 5; } static u64 val(int x) { return u64(x); } };
template <> struct El<std::string> { static std::string mk(unsigned n) { return std::string(n % 50, char('a' + n % 26)) + std::to_string(n); } static u64 val(const std::string& s) { return Elem<std::string>::val(s); } };
template <class S> concept StrT = requires(const S& s) { s.c_str(); };
// The argument itself for the implementation; for the oracle an independent copy.
template <bool Alias, class T> decltype(auto) arg(const T& t) { if constexpr (Alias) return static_cast<const T&>(t); else return T(t); }

template <class V, class S> void look(V& v, S& k) {
  using X = El<typename V::value_type>;
  const V& c = v; u64 h = 0; std::size_t n = 0, lim = 100000;
  if constexpr (requires { c.size(); }) { lim = c.size(); k.obs("size", lim); }
  for (auto i = c.begin(); !(i == c.end()); ++i) { if (n++ >= lim) { k.check(false, "iteration does not end after size() elements"); return; } h = mix(h, X::val(*i)); }
  k.obs("elements", n); k.obs("content", h);
}
template <bool A, class V, class S> void seq(Src s, S& k) {                 // vector, deque, list, forward_list
  using T = typename V::value_type;
  constexpr bool fl = requires(V& v) { v.before_begin(); };
  constexpr bool vec = requires(V& v) { v.capacity(); };
  constexpr bool lst = requires(V& v) { v.emplace_front(); } && requires(V& v) { v.size(); v.pop_back(); } && !requires(V& v) { v[0]; };
  constexpr bool deq = !fl && !vec && !lst;
  V v; std::size_t n = 0; unsigned serial = 0;
  auto nth = [&](std::size_t i) { auto it = v.begin(); while (i--) ++it; return it; };
  while (!s.done()) {
    unsigned op = s.byte() % OPS, x = s.byte(), y = s.byte(), z = s.byte(), w = s.byte(), m = s.byte(); (void)w;
    std::size_t i = (x * 256u + y) % (n + 1), j = n ? (x * 256u + y) % n : 0; if (m % 4 == 0 && n) j = 0; if (m % 4 == 1 && n) j = n - 1;
    ++serial;
    if (n > 1500) op = 20;
    auto al = [&] { if (A && n >= 2) ++aliased; };
    switch (op) {
      case 0: case 1: k.op("push a new one"); if constexpr (fl) v.push_front(El<T>::mk(serial)); else v.push_back(El<T>::mk(serial)); n++; break;
      case 2: case 3: case 4: case 5: if (n) { al(); const T& e = *nth(j);
          if constexpr (fl) { k.op("push_front own", j); v.push_front(arg<A>(e)); } else { k.op("push_back own", j); v.push_back(arg<A>(e)); } n++; } break;
      case 6: case 7: if (n) { al(); const T& e = *nth(j); if constexpr (vec) { k.op("push_back own", j); v.push_back(arg<A>(e)); } else { k.op("push_front own", j); v.push_front(arg<A>(e)); } n++; } break;
      case 8: case 9: if constexpr (!vec && !deq) { if (n) { al(); const T& e = *nth(j); k.op("insert own", i, j);
            if constexpr (fl) { auto b = v.before_begin(); for (std::size_t q = 0; q < i; q++) ++b; auto r = v.insert_after(b, arg<A>(e)); k.obs("returned", El<T>::val(*r)); } else { auto r = v.insert(nth(i), arg<A>(e)); k.obs("returned", El<T>::val(*r)); } n++; } } else if (n) { al(); k.op("push_back front()"); v.push_back(arg<A>(v.front())); n++; } break;
      case 10: case 11: if constexpr (lst) { if (n) { al(); const T& e = *nth(j); k.op("emplace own", i, j); auto r = v.emplace(nth(i), arg<A>(e)); k.obs("returned", El<T>::val(*r)); n++; } } else if constexpr (!fl) { if (n) { al(); k.op("push_back back()"); v.push_back(arg<A>(v.back())); n++; } } break;
      case 12: if constexpr (lst) { if (n) { al(); k.op("emplace ends with own", j); if (z & 1) { auto& r = v.emplace_back(arg<A>(v.front())); k.obs("returned", El<T>::val(r)); } else { auto& r = v.emplace_front(arg<A>(v.back())); k.obs("returned", El<T>::val(r)); } n++; } } break;
      case 13: { al(); k.op("assign to itself"); const V& c = v; if constexpr (A) { V& r = (v = c); k.check(&r == &v, "operator= does not return *this"); } break; }
      case 14: if (n) { al(); k.op("assign an own element", j); std::size_t q = (z * 256u + w) % n; T& d = *nth(q); d = arg<A>(*nth(j)); } break;
      case 15: { unsigned c = z % 40; k.op("push own repeatedly", c); if (n) for (unsigned q = 0; q < c; q++) { al(); if constexpr (fl) v.push_front(arg<A>(v.front())); else if constexpr (vec) v.push_back(arg<A>(v[(j + q) % n])); else { if (q & 1) v.push_back(arg<A>(v.front())); else v.push_front(arg<A>(v.back())); } } if (n) n += c; break; }
      case 16: if constexpr (requires(V& a, V& b) { a.swap(b); }) { al(); k.op("swap with itself"); if constexpr (A) v.swap(v); } break;
      case 17: if constexpr (vec) { al(); k.op("compare with itself"); k.obs("==", v == arg<A>(v)); } break;
      case 18: if constexpr (vec) { k.op("reserve exactly"); v.reserve(n + z % 3); } else if constexpr (deq) { unsigned c = 400 + x; k.op("push own many", c); if (n && std::is_same_v<T, int>) { for (unsigned q = 0; q < c; q++) { al(); if (z & 1) v.push_back(arg<A>(v.front())); else v.push_front(arg<A>(v.back())); } n += c; } } break;
      case 19: { al(); k.op("construct from itself, assign back"); V t(arg<A>(v)); if constexpr (A) { t = v; v = t; } else v = t; break; }
      case 20: k.op("pop"); if (n) { unsigned c = 1 + z % 200; for (; c && n; c--) { if constexpr (fl) v.pop_front(); else if constexpr (vec) v.pop_back(); else { if (z & 1) v.pop_front(); else v.pop_back(); } n--; if (n <= 1500 && z % 3) break; } } break;
      case 21: if constexpr (fl) { if (n) { al(); k.op("insert_after own, after itself", j); auto p = nth(j); v.insert_after(p, arg<A>(*p)); n++; } } else if constexpr (lst) { if (n) { al(); k.op("insert own before itself", j); auto p = nth(j); v.insert(p, arg<A>(*p)); n++; } } break;
      case 22: if (z % 8 == 0) { k.op("clear"); v.clear(); n = 0; } break;
      default: k.op("look"); break;
    }
    look(v, k);
  }
}
template <bool A, class V, class S> void str(Src s, S& k) {
  using C = typename V::value_type;
  V v;
  while (!s.done()) {
    unsigned op = s.byte() % OPS, x = s.byte(), y = s.byte(), z = s.byte(), w = s.byte(), m = s.byte();
    std::size_t n = v.size(), i = (x * 256u + y) % (n + 1), j = n ? (x * 256u + y) % n : 0, len = n - i ? (z * 256u + w) % (n - i + 1) : 0; if (m % 4 == 0) { i = 0; len = n; } if (m % 4 == 1) len = n - i;
    if (n > 600 && op < 18) op = 18 + op % 4;
    auto al = [&] { if (A && n >= 2) ++aliased; };
    const V& c = v; const V copy(v);                                       // the independent copy for the oracle
    const C* own = A ? c.data() : copy.data();
    const V& me = A ? c : copy;
    switch (op) {
      case 0: case 1: case 2: { k.op("push a new character"); unsigned q = 1 + (op == 2 ? z % 9 : 0); while (q--) v.push_back(C('a' + (x + q) % (m & 1 ? 3 : 26))); break; }
      case 3: if (n) { al(); k.op("push_back own", j); v.push_back(c[j]); } break;
      case 4: if (n) { al(); k.op("+= own character", j); V& r = (v += c[j]); k.check(&r == &v, "+= does not return *this"); } break;
      case 5: case 6: { al(); k.op("append itself"); V& r = v.append(me); k.check(&r == &v, "append does not return *this"); break; }
      case 7: { al(); k.op("+= itself"); v += me; break; }
      case 8: case 9: { al(); k.op("append own part", i, len); V& r = v.append(own + i, len); k.check(&r == &v, "append does not return *this"); break; }
      case 10: { al(); k.op("assign to itself"); if constexpr (A) { V& r = (v = c); k.check(&r == &v, "= does not return *this"); } break; }
      case 11: { al(); k.op("assign from own c_str()"); V& r = (v = (A ? c.c_str() : copy.c_str())); k.check(&r == &v, "= does not return *this"); break; }
      case 12: case 13: { al(); k.op("assign from a pointer into itself", i); v = own + i; break; }
      case 14: { al(); k.op("assign own part", i, len); V& r = v.assign(own + i, len); k.check(&r == &v, "assign does not return *this"); break; }
      case 15: { al(); k.op("construct from own part, assign back"); V t(own + i, len); v = t; break; }
      case 16: if (n) { k.op("cut by a null"); v[j] = C(); } break;
      case 17: { k.op("reserve exactly"); v.reserve(n + z % 4); break; }
      case 18: k.op("shorten"); while (v.size() > i) v.pop_back(); break;
      case 19: { al(); k.op("compare with itself"); k.obs("==", v == me); k.obs("!=", v != me); k.obs("<", v < me); k.obs("compare", u64(v.compare(me) < 0) + 2 * (v.compare(me) > 0)); k.obs("== c_str", v == own); k.obs("c_str ==", own == v); k.obs("< part", v < own + i); k.obs("part <", own + i < v); k.obs("compare part", u64(v.compare(own + i) < 0) + 2 * (v.compare(own + i) > 0)); break; }
      case 20: { al(); k.op("find in itself"); k.obs("self", v.find(me)); k.obs("self from", v.find(me, z % 3)); k.obs("part", v.find(own + i)); k.obs("counted part", v.find(own + i, w % (n + 1), len)); if (n) k.obs("own character", v.find(c[j], z % (n + 1))); break; }
      case 21: if (z % 4 == 0) { k.op("clear"); v.clear(); } break;
      case 22: if (n) { al(); k.op("write own character", j); v[j] = c[z % n]; } break;
      default: k.op("look"); break;
    }
    u64 h = 0; for (std::size_t q = 0; q < v.size(); q++) h = mix(h, u64(v[q]));
    k.obs("size", v.size()); k.obs("content", h); k.obs("terminator", u64(v.c_str()[v.size()]));
  }
}
template <bool A, class V, class S> void keyed(Src s, S& k) {
  V v;
  constexpr bool is_map = requires { typename V::mapped_type; };
  while (!s.done()) {
    unsigned op = s.byte() % 8, x = s.byte(), y = s.byte(), z = s.byte(); s.byte(); s.byte();
    std::size_t n = v.size(); auto nth = [&] { auto i = std::as_const(v).begin(); for (std::size_t q = n ? (x * 256u + y) % n : 0; q--;) ++i; return i; };
    auto al = [&] { if (A && n >= 2) ++aliased; };
    auto key = [](const auto& e) -> const auto& { if constexpr (is_map) return e.first; else return e; };
    switch (op) {
      case 0: case 1: case 2: k.op("insert new"); for (unsigned q = 0; q < 1 + z % 4; q++) { std::string e = El<std::string>::mk(x * 3 + q + y); if constexpr (is_map) v.insert({e, e + "!"}); else v.insert(e); } break;
      case 3: case 4: if (n) { al(); k.op("insert own"); auto i = nth(); auto r = v.insert(arg<A>(*i)); k.obs("inserted", r.second); k.obs("key", El<std::string>::val(key(*r.first))); } break;
      case 5: if (n) { al(); k.op("find own"); auto i = nth(); if constexpr (A) { k.check(v.find(key(*i)) == i && std::as_const(v).find(key(*i)) == i, "find of an own key does not find it"); } } break;
      case 6: al(); k.op("assign to itself"); if constexpr (A) { const V& c = v; V& r = (v = c); k.check(&r == &v, "= does not return *this"); } break;
      default: if constexpr (is_map) { if (n > 1) { al(); k.op("assign an own value"); auto f = v.find((*nth()).first), g = v.find((*std::as_const(v).begin()).first); f->second = arg<A>(g->second); } } else if (n) { al(); k.op("insert own with hint"); auto i = nth(); auto r = v.insert(i, arg<A>(*i)); k.obs("key", El<std::string>::val(*r)); } break;
    }
    k.obs("size", v.size()); u64 h = 0; std::size_t m = 0; const V& c = v;
    for (auto i = c.begin(); i != c.end(); ++i) { if (m++ > v.size()) { k.check(false, "iteration does not end"); break; } h = mix(h, El<std::string>::val(key(*i))); if constexpr (is_map) h = mix(h, El<std::string>::val((*i).second)); }
    k.obs("content", h);
  }
}
template <bool A, class Q, class S> void queued(Src s, S& k) {
  using T = typename Q::value_type;
  Q q; unsigned serial = 0;
  while (!s.done()) {
    unsigned op = s.byte() % 10, x = s.byte(); s.byte(); unsigned z = s.byte(); s.byte(); s.byte();
    auto al = [&] { if (A && q.size() >= 2) ++aliased; };
    ++serial; unsigned c = z % 8 ? 1 : x;
    switch (op) {
      case 0: case 1: k.op("push new"); q.push(El<T>::mk(serial)); break;
      case 2: case 3: case 4: k.op("push front()", c); for (; c-- && !q.empty() && q.size() < 3000;) { al(); q.push(arg<A>(q.front())); if (z & 1) q.pop(); } break;
      case 5: case 6: k.op("push back()", c); for (; c-- && !q.empty() && q.size() < 3000;) { al(); q.push(arg<A>(q.back())); } break;
      case 7: k.op("pop"); if (!q.empty()) q.pop(); break;
      case 8: al(); k.op("assign to itself"); if constexpr (A) { const Q& r = q; q = r; } break;
      default: if (!q.empty()) { al(); k.op("front = back"); q.front() = arg<A>(q.back()); } break;
    }
    k.obs("size", q.size()); if (!q.empty()) { k.obs("front", El<T>::val(q.front())); k.obs("back", El<T>::val(q.back())); }
  }
  for (; !q.empty(); q.pop()) k.obs("drained", El<T>::val(q.front()));
}
using SS = std::string;
void vf_case(Src s, Ctx& c) {
  aliased = 0;
#define RUN(N, L, F, O, I) case N: c.label(L); try { differential(s, c, [&](Src q, auto& k) { F<false, O>(q, k); }, [&](Src q, auto& k) { F<true, I>(q, k); }); } catch (...) { throw; } break
#define T2(...) __VA_ARGS__
  switch (s.byte() % 16) {
    RUN(0, "vector<int>", seq, std::vector<int>, cest::vector<int>); RUN(1, "vector<string>", seq, std::vector<SS>, cest::vector<SS>); RUN(2, "deque<int>", seq, std::deque<int>, cest::deque<int>); RUN(3, "deque<string>", seq, std::deque<SS>, cest::deque<SS>);
    RUN(4, "list<int>", seq, std::list<int>, cest::list<int>); RUN(5, "list<string>", seq, std::list<SS>, cest::list<SS>); RUN(6, "forward_list<int>", seq, std::forward_list<int>, cest::forward_list<int>); RUN(7, "forward_list<string>", seq, std::forward_list<SS>, cest::forward_list<SS>);
    case 15: RUN(8, "string", str, std::string, cest::string); RUN(9, "wstring", str, std::wstring, cest::wstring); RUN(10, "u16string", str, std::u16string, cest::u16string);
    RUN(11, "set", keyed, std::set<SS>, cest::set<SS>);
    case 12: { c.label("map"); using M = std::map<SS, SS>; using N = cest::map<SS, SS>; differential(s, c, [&](Src q, auto& k) { keyed<false, M>(q, k); }, [&](Src q, auto& k) { keyed<true, N>(q, k); }); break; }
    RUN(13, "queue<string>", queued, std::queue<SS>, cest::queue<SS>); RUN(14, "queue<int>", queued, std::queue<int>, cest::queue<int>);
  }
  c.nontrivial = aliased >= 3;
}
} // namespace vf
