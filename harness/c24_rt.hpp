// Short programs evaluated three times: in a constant expression over cest, at run time
// over cest, and at run time over std. Included by generated translation units.
#ifndef VERIF_C24_RT_HPP
#define VERIF_C24_RT_HPP
#include "core.hpp"
#include <bit>
#include <cstdio>
#include <cstdlib>
// one group per translation unit keeps compilation short
#if VF_GROUP == 0
#include "interp_vector.hpp"
#include <cest/vector.hpp>
#elif VF_GROUP == 1
#include "interp_string.hpp"
#include <cest/string.hpp>
#elif VF_GROUP == 2
#include "interp_deque.hpp"
#include "interp_queue.hpp"
#include <cest/deque.hpp>
#include <cest/queue.hpp>
#include <cest/list.hpp>
#include <deque>
#include <list>
#include <queue>
#elif VF_GROUP == 3
#include "interp_list.hpp"
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <list>
#include <forward_list>
#elif VF_GROUP == 4
#include "interp_tree.hpp"
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <set>
#include <map>
#elif VF_GROUP == 5
#include "interp_ptr.hpp"
#include <cest/memory.hpp>
#include <cest/shared_ptr.hpp>
#include <cest/functional.hpp>
#include <functional>
#include <memory>
#elif VF_GROUP == 6
#include "interp_stream.hpp"
#include "interp_memfile.hpp"
#include <cest/sstream.hpp>
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
#include <sstream>
#elif VF_GROUP == 7
#include <cest/cmath.hpp>
#include <cest/complex.hpp>
#include <cest/cctype.hpp>
#include <cest/swap.hpp>
#include <cctype>
#elif VF_GROUP == 8
#include <cest/vector.hpp>
#include <cest/string.hpp>
#include <cest/deque.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/queue.hpp>
#include <cest/memory.hpp>
#include <cest/functional.hpp>
#include <cest/sstream.hpp>
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
#include <cest/algorithm.hpp>
#include <cest/numeric.hpp>
#include <algorithm>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#endif

namespace vf {
#if VF_GROUP == 0
template <class T, class A> struct Elem<std::vector<T, A>> {
  static constexpr std::vector<T> make(unsigned n) { std::vector<T> v; for (unsigned i = 0; i < n % 5; i++) v.push_back(Elem<T>::make(n + i)); return v; }
  static constexpr u64 val(const std::vector<T>& v) { u64 h = v.size(); for (auto& x : v) h = mix(h, Elem<T>::val(x)); return h; }
};
template <class T, class A> struct Elem<cest::vector<T, A>> {
  static constexpr cest::vector<T> make(unsigned n) { cest::vector<T> v; for (unsigned i = 0; i < n % 5; i++) v.push_back(Elem<T>::make(n + i)); return v; }
  static constexpr u64 val(const cest::vector<T>& v) { u64 h = v.size(); for (auto& x : v) h = mix(h, Elem<T>::val(x)); return h; }
};
template <bool C, class T> using Vec = std::conditional_t<C, cest::vector<T>, std::vector<T>>;
template <unsigned K, bool C, class S> constexpr void prog(Src s, S& k) {
  if constexpr (K == 0) run_vec<Vec<C, int>>(s, k, 70, 200);
  if constexpr (K == 1) run_vec<Vec<C, Own>>(s, k, 20, 60);
  if constexpr (K == 2) run_vec<Vec<C, Vec<C, int>>>(s, k, 12, 40);
  if constexpr (K == 3) run_vec<Vec<C, Wide>>(s, k, 20, 60);
  if constexpr (K == 4) run_vec<Vec<C, Pod>>(s, k, 20, 60);
}
#elif VF_GROUP == 1
template <unsigned K, bool C, class S> constexpr void prog(Src s, S& k) {
  if constexpr (K == 0) run_str<std::conditional_t<C, cest::string, std::string>>(s, k, 60, 200, true);
  if constexpr (K == 1) run_str<std::conditional_t<C, cest::wstring, std::wstring>>(s, k, 60, 200, true);
}
#elif VF_GROUP == 2
template <bool C, class T> using Deq = std::conditional_t<C, cest::deque<T>, std::deque<T>>;
template <bool C, class T> using Lst = std::conditional_t<C, cest::list<T>, std::list<T>>;
template <unsigned K, bool C, class S> constexpr void prog(Src s, S& k) {
  if constexpr (K == 0) run_deq<Deq<C, int>>(s, k, 40, 150);
  if constexpr (K == 1) run_deq<Deq<C, Own>>(s, k, 20, 60);
  if constexpr (K == 2) { if constexpr (C) run_q<cest::queue<int>, cest::deque<int>>(s, k, 40); else run_q<std::queue<int>, std::deque<int>>(s, k, 40); }
  if constexpr (K == 3) { if constexpr (C) run_q<cest::queue<Own, cest::list<Own>>, cest::list<Own>>(s, k, 0); else run_q<std::queue<Own, std::list<Own>>, std::list<Own>>(s, k, 0); }
  if constexpr (K == 4) run_deq<Deq<C, int>>(s, k, 1536, 2600);       // several storage chunks
}
#elif VF_GROUP == 3
template <unsigned K, bool C, class S> constexpr void prog(Src s, S& k) {
  if constexpr (K == 0) run_list<std::conditional_t<C, cest::list<int>, std::list<int>>>(s, k, 60);
  if constexpr (K == 1) run_list<std::conditional_t<C, cest::list<Own>, std::list<Own>>>(s, k, 40);
  if constexpr (K == 2) run_fl<std::conditional_t<C, cest::forward_list<int>, std::forward_list<int>>>(s, k, 60);
  if constexpr (K == 3) run_fl<std::conditional_t<C, cest::forward_list<Own>, std::forward_list<Own>>>(s, k, 40);
}
#elif VF_GROUP == 4
template <bool C, class T, class L> using Set = std::conditional_t<C, cest::set<T, L>, std::set<T, L>>;
template <bool C, class T, class V, class L> using Map = std::conditional_t<C, cest::map<T, V, L>, std::map<T, V, L>>;
template <unsigned K, bool C, class S> constexpr void prog(Src s, S& k) {
  if constexpr (K == 0) { unsigned m = s.byte(); run_set<Set<C, int, std::less<int>>>(s, k, m, 60); }
  if constexpr (K == 1) { unsigned m = s.byte(); run_set<Set<C, Tagged, ByKDown>>(s, k, m, 50); }
  if constexpr (K == 2) { unsigned m = s.byte(); run_map<Map<C, int, int, std::less<int>>>(s, k, m, 50); }
  if constexpr (K == 3) { unsigned m = s.byte(); run_map<Map<C, Own, Own, std::less<Own>>>(s, k, m, 40); }
}
#elif VF_GROUP == 5
template <class T> using SU = std::unique_ptr<T>;
template <class T> using CU = cest::unique_ptr<T>;
template <class T> using SS = std::shared_ptr<T>;
template <class T> using CS = cest::shared_ptr<T>;
struct SM { template <class T, class... A> static constexpr auto make(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); } };
struct CM { template <class T, class... A> static constexpr auto make(A&&... a) { return cest::make_unique<T>(std::forward<A>(a)...); } };
struct SG { template <class D, class P> static D* get(const P& p) { return std::get_deleter<D>(p); } };
template <class D> void get_deleter(int) = delete;
struct CG { template <class D, class P> static constexpr D* get(const P& p) { return get_deleter<D>(p); } };
template <unsigned K, bool C, class S> constexpr void prog(Src s, S& k) {
  if constexpr (K == 0) { if constexpr (C) run_uptr<CU, CM>(s, k); else run_uptr<SU, SM>(s, k); }
  if constexpr (K == 1) { if constexpr (C) run_sptr<CS, PBase, PDer, CG>(s, k); else run_sptr<SS, PBase, PDer, SG>(s, k); }
  if constexpr (K == 2) { if constexpr (C) run_sptr_array<CS, PPlain, CG>(s, k); else run_sptr_array<SS, PPlain, SG>(s, k); }
  if constexpr (K == 3) { if constexpr (C) run_func<cest::function<int(int)>>(s, k); else run_func<std::function<int(int)>>(s, k); }
  if constexpr (K == 4) { if constexpr (C) run_func<cest::function<void(int, int&)>, CallVoid>(s, k); else run_func<std::function<void(int, int&)>, CallVoid>(s, k); }
  if constexpr (K == 5) { if constexpr (C) run_uchain<CU>(s, k); else run_uchain<SU>(s, k); }
  if constexpr (K == 6) { if constexpr (C) run_schain<CS>(s, k); else run_schain<SS>(s, k); }
  if constexpr (K == 7) { if constexpr (C) run_sptr_parts<CS, CG>(s, k); else run_sptr_parts<SS, SG>(s, k); }
}
#elif VF_GROUP == 6
struct RefFile {
  struct St { std::vector<char> d; std::size_t pos = 0; };
  using File = St*;
  static File open(char* b, std::size_t n, const char*) { return new St{std::vector<char>(b, b + n), 0}; }
  static std::size_t read(char* b, std::size_t n, File f) { std::size_t m = std::min(n, f->d.size() - f->pos); for (std::size_t i = 0; i < m; i++) b[i] = f->d[f->pos++]; return m; }
  static int close(File f) { delete f; return 0; }
};
struct CestFile {
  using File = cest::FILE*;
  static constexpr File open(char* b, std::size_t n, const char* m) { return cest::fmemopen(b, n, m); }
  static constexpr std::size_t read(char* b, std::size_t n, File f) { return cest::fread(b, 1, n, f); }
  static constexpr int close(File f) { return cest::fclose(f); }
};
template <unsigned K, bool C, class S> constexpr void prog(Src s, S& k) {
  if constexpr (K == 0) { if constexpr (C) run_is<cest::istringstream, cest::string>(s, k, 80); else run_is<std::istringstream, std::string>(s, k, 80); }
  if constexpr (K == 1) { if constexpr (C) run_is<cest::stringstream, cest::string>(s, k, 80); else run_is<std::stringstream, std::string>(s, k, 80); }
  if constexpr (K == 2) { if constexpr (C) run_is<cest::wistringstream, cest::wstring>(s, k, 80); else run_is<std::wistringstream, std::wstring>(s, k, 80); }
  if constexpr (K == 3) { if constexpr (C) run_mf<CestFile>(s, k); else run_mf<RefFile>(s, k); }
}
#elif VF_GROUP == 7
constexpr u64 bits(double d) { return d != d ? u64(0x7ff8) : std::bit_cast<u64>(d); }
// The generator supplies arguments inside each function's domain, as bit patterns.
template <bool C, class S> constexpr void run_math(Src s, S& k) {
  while (!s.done()) {
    const unsigned f = s.byte(); const double x = std::bit_cast<double>(s.u64v()), y = std::bit_cast<double>(s.u64v()); const int n = int(s.byte()) - 128;
    const char* t = "math"; (void)t; (void)f; (void)x; (void)y; (void)n;
    if constexpr (C) {
      switch (f) {
        case 0: k.obs(t, bits(cest::sqrt(x))); break;
        case 1: k.obs(t, bits(cest::exp(x))); break;
        case 2: k.obs(t, bits(cest::log(x))); break;
        case 3: k.obs(t, bits(cest::sin(x))); break;
        case 4: k.obs(t, bits(cest::cos(x))); break;
        case 5: k.obs(t, bits(cest::atan(x))); break;
        case 6: k.obs(t, bits(cest::atan2(x, y))); break;
        case 7: k.obs(t, bits(cest::sinh(x))); break;
        case 8: k.obs(t, bits(cest::cosh(x))); break;
        case 9: k.obs(t, u64(std::int64_t(cest::floor(x)))); break;
        case 10: k.obs(t, u64(std::int64_t(cest::ceil(x)))); break;
        case 11: k.obs(t, bits(cest::pow(x, n))); break;
        default: k.obs(t, bits(cest::pow(x, n < 0 ? -n : n))); break;
      }
    }
  }
}
template <class X> constexpr u64 zbits(const X& z) { return mix(bits(double(z.real())), bits(double(z.imag()))); }
template <bool C, class T, class S> constexpr void run_complex(Src s, S& k) {
  if constexpr (C) {
    using X = cest::complex<T>;
    X v[3] = {X(1, 2), X(T(-0.5), 3), X(T(2))};
    while (!s.done()) {
      unsigned f = s.byte() % 27, i = s.byte() % 3, j = s.byte() % 3, a = s.byte(), b = s.byte();
      const T t = T(int(a) - 127) / T(16), u = T(int(b) - 127) / T(8);
      X& p = v[i]; X& q = v[j];
      switch (f) {
        case 0: p = X(t, u); break;
        case 1: p += q; break;
        case 2: p -= X(u, t); break;
        case 3: p *= X(u / T(16), t / T(8)); break;
        case 4: p /= X(t + T(0.03), u); break;
        case 5: p = p + q; p = p - t; p = u + p; break;
        case 6: p = p * X(t / T(16), T(0.5)); break;
        case 7: p = q / X(T(1.5), u); break;
        case 8: p = t; break;
        case 9: k.obs("==", (p == q) + 2 * (p != q) + 4 * (p == t)); break;
        case 10: p = cest::conj(q); break;
        case 11: k.obs("norm", bits(double(cest::norm(p)))); break;
        case 12: k.obs("abs", bits(double(cest::abs(X(t, u))))); break;
        case 13: k.obs("arg", bits(double(cest::arg(X(t, u))))); break;
        case 14: p = cest::polar(t < 0 ? -t : t, u); break;
        case 15: k.obs("exp", zbits(cest::exp(X(t, u)))); break;
        case 16: k.obs("log", zbits(cest::log(X(t, u)))); break;
        case 17: k.obs("sin", zbits(cest::sin(X(t, u)))); break;
        case 18: k.obs("cos", zbits(cest::cos(X(t, u)))); break;
        case 19: k.obs("sinh", zbits(cest::sinh(X(t, u)))); break;
        case 20: k.obs("cosh", zbits(cest::cosh(X(t, u)))); break;
        case 21: k.obs("sqrt", zbits(cest::sqrt(X(t, u)))); break;
        case 22: k.obs("pow", zbits(cest::pow(X(t, T(0.25)), int(b % 9) - 4))); break;
        case 23: k.obs("log10", zbits(cest::log10(X(t + T(0.01), u)))); break;
        case 24: k.obs("tan", zbits(cest::tan(X(t, u + T(0.01))))); break;
        case 25: k.obs("tanh", zbits(cest::tanh(X(t + T(0.01), u)))); break;
        default: p.real(t); p.imag(u); p = -p; k.obs("parts", zbits(X(cest::real(p), cest::imag(p)))); break;
      }
      // keep the magnitudes inside the domain
      for (auto& z : v) { const T n = cest::norm(z); if (!(n < T(1e6)) || !(n > T(1e-6))) z = X(T(1), T(-1)); k.obs("z", zbits(z)); }
    }
  }
}
template <unsigned K, bool C, class S> constexpr void prog(Src s, S& k) {
  if constexpr (K == 0) run_math<C>(s, k);
  if constexpr (K == 1) run_complex<C, double>(s, k);
  if constexpr (K == 2) run_complex<C, float>(s, k);
  if constexpr (K == 3) {
    int a[6] = {1, 2, 3, 4, 5, 6}; Own o[4] = {Own(1), Own(2), Own(3), Own(4)};
    while (!s.done()) {
      unsigned f = s.byte() % 8, x = s.byte(); unsigned i = x % 6, j = (i + 1 + x / 6 % 5) % 6, l = 0; while (l == i || l == j) ++l;
      switch (f) {
        case 0: case 1: if constexpr (C) k.obs("class", !cest::isalnum(int(x)) + 2 * !cest::isupper(int(x))); else k.obs("class", !std::isalnum(int(x)) + 2 * !std::isupper(int(x))); break;
        case 2: if constexpr (C) nary::swap(a[i], a[j]); else std::swap(a[i], a[j]); break;
        case 3: if constexpr (C) nary::swap(a[i], a[j], a[l]); else { int t = a[i]; a[i] = a[j]; a[j] = a[l]; a[l] = t; } break;
        case 4: if constexpr (C) nary::swapr(a[i], a[j], a[l]); else { int t = a[l]; a[l] = a[j]; a[j] = a[i]; a[i] = t; } break;
        case 5: if constexpr (C) nary::swap(o[0], o[1], o[2], o[3]); else { Own t = o[0]; o[0] = o[1]; o[1] = o[2]; o[2] = o[3]; o[3] = t; } break;
        case 6: if constexpr (C) nary::swapr(o[3], o[1]); else std::swap(o[3], o[1]); break;
        default: if constexpr (C) { nary::swap(); nary::swap(a[i]); nary::swapr(a[j]); nary::swapr(); } break;
      }
      for (int q : a) k.obs("a", u64(q));
      for (auto& q : o) k.obs("o", Elem<Own>::val(q));
    }
  }
}
#elif VF_GROUP == 8
struct StdLib {
  using string = std::string; using stringstream = std::stringstream; using istringstream = std::istringstream;
  template <class T> using vector = std::vector<T>; template <class T> using deque = std::deque<T>; template <class T> using list = std::list<T>; template <class T> using flist = std::forward_list<T>;
  template <class T> using set = std::set<T>; template <class K, class V> using map = std::map<K, V>; template <class T> using queue = std::queue<T>;
  template <class T> using uptr = std::unique_ptr<T>; template <class T> using sptr = std::shared_ptr<T>; template <class F> using function = std::function<F>;
};
struct CestLib {
  using string = cest::string; using stringstream = cest::stringstream; using istringstream = cest::istringstream;
  template <class T> using vector = cest::vector<T>; template <class T> using deque = cest::deque<T>; template <class T> using list = cest::list<T>; template <class T> using flist = cest::forward_list<T>;
  template <class T> using set = cest::set<T>; template <class K, class V> using map = cest::map<K, V>; template <class T> using queue = cest::queue<T>;
  template <class T> using uptr = cest::unique_ptr<T>; template <class T> using sptr = cest::shared_ptr<T>; template <class F> using function = cest::function<F>;
};
struct Shape0 { int w; constexpr explicit Shape0(int x) : w(x) {} constexpr virtual ~Shape0() = default; constexpr virtual int area() const { return w; } };
struct Box : Shape0 { int h; constexpr Box(int x, int y) : Shape0(x), h(y) {} constexpr int area() const override { return w * h; } };
// A program that uses the parts together: text is tokenised into words, counted in a map,
// indexed in sets of vectors, queued, held through pointers, called through functions.
template <class L, class S> constexpr void run_mixed(Src s, S& k) {
  using string = typename L::string;
  typename L::template map<string, int> count;
  typename L::template vector<string> words;
  typename L::template queue<string> todo;
  typename L::template deque<typename L::template vector<int>> rows;
  typename L::template list<string> order;
  typename L::template flist<int> stack;
  typename L::template set<string> seen;
  typename L::template map<int, typename L::template vector<string>> index;
  typename L::template vector<typename L::template sptr<Shape0>> shapes;
  typename L::template vector<typename L::template function<int(int)>> fns;
  int serial = 0;
  auto put = [](auto& m, const auto& key, const auto& val) {               // cest::map has no erase: rebuild
    std::remove_reference_t<decltype(m)> r;
    for (auto it = m.begin(); it != m.end(); ++it) if (!((*it).first == key)) r.insert(*it);
    r.insert({key, val}); m = r;
  };
  auto bump = [&](const string& w) { auto it = count.find(w); put(count, w, it == count.end() ? 1 : (*it).second + 1); };
  auto row = [&](auto& m, int key, const string& w) { auto it = m.find(key); typename L::template vector<string> v; if (it != m.end()) v = (*it).second; v.push_back(w); put(m, key, v); };
  auto hs = [](const string& t) { u64 h = t.size(); for (char c : t) h = mix(h, u8(c)); return h; };
  while (!s.done()) {
    unsigned op = s.byte() % 16, x = s.byte(), y = s.byte(), z = s.byte(); ++serial;
    switch (op) {
      case 0: case 1: case 2: {                                            // tokenise a generated text
        string text; for (unsigned q = 0; q < x % 24; q++) { unsigned c = (y * (q + 3) + z * q * q) % 11; text.push_back(c < 3 ? ' ' : char('a' + c % 4)); }
        typename L::stringstream in(text); string w; char c = 0;
        auto flushw = [&] { if (!w.empty()) { bump(w); words.push_back(w); todo.push(w); if (seen.insert(w).second) order.push_back(w); row(index, int(w.size()), w); w.clear(); } };
        while (in.get(c)) { if (c == ' ') flushw(); else w.push_back(c); }
        flushw(); k.obs("gcount", u64(in.gcount())); k.obs("eof", in.eof()); break; }
      case 3: for (auto it = count.begin(); it != count.end(); ++it) { k.obs("word", hs((*it).first)); k.obs("count", u64((*it).second)); } break;
      case 4: { std::sort(words.begin(), words.end()); for (auto& w : words) k.obs("sorted", hs(w)); break; }
      case 5: { unsigned n = y % 4; while (n-- && !todo.empty()) { k.obs("next", hs(todo.front())); todo.pop(); } k.obs("left", todo.size()); break; }
      case 6: { typename L::template vector<int> r; for (unsigned q = 0; q < x % 6; q++) r.push_back(int(y * q) - int(z)); if (z & 1) rows.push_back(r); else rows.push_front(r); break; }
      case 7: { int sum = 0; for (auto& r : rows) sum = std::accumulate(r.begin(), r.end(), sum); k.obs("sum", u64(std::int64_t(sum))); if (!rows.empty() && (z & 2)) { if (z & 1) rows.pop_back(); else rows.pop_front(); } break; }
      case 8: { if (z & 1) shapes.push_back(typename L::template sptr<Shape0>(new Box(int(x % 9), int(y % 9)))); else shapes.push_back(typename L::template sptr<Shape0>(new Shape0(int(x)))); break; }
      case 9: { if (!shapes.empty()) { auto p = shapes[x % shapes.size()]; k.obs("area", u64(p->area())); k.obs("use", u64(p.use_count())); shapes[y % shapes.size()] = p; k.obs("use", u64(p.use_count())); } break; }
      case 10: { int m = int(x % 5); if (z & 1) fns.push_back([m](int v) { return v * 3 + m; }); else { Own o{int(y)}; fns.push_back([o](int v) { return v - *o.p; }); } break; }
      case 11: { int v = int(x); for (auto& f : fns) v = f(v) % 10007; k.obs("called", u64(std::int64_t(v))); if (fns.size() > 2 && (z & 1)) fns.pop_back(); break; }
      case 12: { stack.push_front(int(x)); if (y & 1) stack.push_front(int(y)); int n = 0; for (int v : stack) n = (n * 31 + v) % 65521; k.obs("stack", u64(n)); if (z & 1) stack.pop_front(); break; }
      case 13: { for (auto it = order.begin(); it != order.end();) { if ((*it).size() % 3 == y % 3) it = order.erase(it); else ++it; } for (auto& w : order) k.obs("order", hs(w)); break; }
      case 14: { auto it = index.find(int(x % 5)); k.obs("found", it != index.end()); if (it != index.end()) { for (auto& w : (*it).second) k.obs("indexed", hs(w)); } auto copy = index; row(copy, int(y % 7), string("new")); k.obs("sizes", copy.size() * 100 + index.size()); break; }
      default: { typename L::template uptr<Box> b(new Box(int(x % 7), int(y % 7))); typename L::template uptr<Shape0> o(std::move(b)); k.obs("owned", u64(o->area())); o.reset(new Shape0(3)); k.obs("owned", u64(o->area()));
          string a("key"), t; for (unsigned q = 0; q < z % 20; q++) { t.append(a); t.push_back(char(48 + q % 10)); } k.obs("text", hs(t)); k.obs("find", t.find("y") == string::npos); break; }
    }
    if (words.size() > 40) words.clear();
    if (rows.size() > 20) rows.pop_front();
  }
  for (auto& w : words) k.obs("words", hs(w));
  for (auto& r : rows) for (int v : r) k.obs("rows", u64(std::int64_t(v)));
  for (auto it = seen.begin(); it != seen.end(); ++it) k.obs("seen", hs(*it));
}
template <unsigned K, bool C, class S> constexpr void prog(Src s, S& k) {
  run_mixed<std::conditional_t<C, CestLib, StdLib>>(s, k);
}
#endif
template <unsigned K, bool C> constexpr u64 digest(const u8* p, std::size_t n) { HashSink k; prog<K, C>(Src(p, n), k); return k.bad ? 0xbadbadbadbadbadULL : mix(k.h, k.n); }
struct Row { unsigned id; u64 ct; u64 (*cest)(const u8*, std::size_t); u64 (*ref)(const u8*, std::size_t); const u8* p; std::size_t n; };
inline int judge(const Row* r, std::size_t n) {
  int rc = 0;
  std::setvbuf(stdout, nullptr, _IONBF, 0);
  for (std::size_t i = 0; i < n; i++) {
    std::printf("AT %u\n", r[i].id);
    const u64 rt = r[i].cest(r[i].p, r[i].n);
    if (r[i].ct == 0xbadbadbadbadbadULL) { std::printf("FAIL %u an invariant does not hold in the constant expression\n", r[i].id); rc = 42; }
    else if (rt != r[i].ct) { std::printf("FAIL %u the constant expression and the run-time evaluation differ (%llx, %llx)\n", r[i].id, (unsigned long long)r[i].ct, (unsigned long long)rt); rc = 42; }
    else if (r[i].ref && r[i].ref(r[i].p, r[i].n) != rt) { std::printf("FAIL %u the program over std gives another result\n", r[i].id); rc = 42; }
  }
  return rc;
}
} // namespace vf
#endif
