#if VF_UNIT != 6
#define VF_NO_MAIN
#endif
#include "driver.hpp"
#include <cest/algorithm.hpp>
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/iterator.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/numeric.hpp>
#include <cest/set.hpp>
#include <cest/string.hpp>
#include <cest/vector.hpp>
#include <algorithm>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <vector>
namespace vf {
constexpr unsigned AREC = 6, AOPS = 96;
#if VF_UNIT == 6
extern const Shape vf_shape{8, AREC, AOPS, 60};
extern const char* const vf_rule = "A case is a header choosing a container (vector, deque, string, list, forward_list, set or map), two initial contents of 0 to 2600 elements (pushed at either end where possible) and a list of 6-byte records, each applying one algorithm or numeric function to ranges and subranges; the same calls are made on the std container through std:: and on the cest container through cest::, and every result and the contents are compared; it is non-trivial if it makes at least 3 calls and the first container is not empty.";
#endif

// CALL(name)(args...): std::name for the reference, cest::name for the implementation
#define CALL(name, ...) [&]() -> decltype(auto) { if constexpr (CEST) return cest::name(__VA_ARGS__); else return std::name(__VA_ARGS__); }()

template <class T> constexpr long V(const T& x) {
  if constexpr (requires { x.first; }) return long(x.first) * 31 + long(x.second); else return long(x);
}
template <bool CEST, class C, class S> struct Alg {
  using T = typename C::value_type;
  using It = decltype(std::declval<C&>().begin());
  using Cat = typename std::iterator_traits<It>::iterator_category;
  static constexpr bool ra = std::is_base_of_v<std::random_access_iterator_tag, Cat>;
  static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Cat>;
  static constexpr bool is_map = requires(T t) { t.first; };
  static constexpr bool mut = !std::is_const_v<std::remove_reference_t<typename std::iterator_traits<It>::reference>> && !is_map;
  static constexpr bool has_back = requires(C& c, T t) { c.push_back(t); };
  static constexpr bool has_hint = !is_map && !ra && requires(C& c, T t) { c.insert(c.end(), t); };   // cest::map takes no hints
  using Out = std::vector<long>;
  S& k; C& a; C& b;
  std::size_t na, nb;

  static auto at(C& c, std::size_t i) { auto it = c.begin(); while (i--) ++it; return it; }
  // positions are observed by counting from the beginning; `lim` guards a broken iterator
  template <class I> void pos(const char* t, C& c, I it, std::size_t lim) {
    std::size_t n = 0; auto q = c.begin(); while (!(q == it)) { if (n > lim) { k.check(false, "an algorithm returned an iterator outside its range"); return; } ++n; ++q; }
    k.obs(t, n);
  }
  void contents(C& c, std::size_t n) { std::size_t q = 0; u64 h = 3; for (auto it = c.begin(); !(it == c.end()); ++it) { if (q++ > n) { k.check(false, "iteration does not end"); return; } h = mix(h, u64(V(*it))); } k.obs("contents", h); k.obs("length", q); }
  void out(const char* t, const Out& o) { u64 h = o.size(); for (long x : o) h = mix(h, u64(x)); k.obs(t, h); }
  template <class X> void outc(const char* t, const X& o) { u64 h = 5; for (const auto& x : o) h = mix(h, u64(V(x))); k.obs(t, h); }
  template <class X> void bag(const char* t, const X& o) { std::vector<long> v; for (const auto& x : o) v.push_back(V(x)); std::sort(v.begin(), v.end()); out(t, v); }
  // put the sorted contents back
  void order(C& c) { if constexpr (mut) { std::vector<T> v; for (auto it = c.begin(); !(it == c.end()); ++it) v.push_back(*it); std::stable_sort(v.begin(), v.end()); std::copy(v.begin(), v.end(), c.begin()); } }

  void run(Src& s) {
    while (!s.done()) {
      unsigned op = s.byte() % AOPS, x = s.byte(), y = s.byte(), z = s.byte(), w = s.byte(), m = s.byte();
      auto lim = [](unsigned v, unsigned hi, std::size_t n) { return n <= 255 ? v % (n + 1) : (v * 256u + hi) % (n + 1); };
      std::size_t i = lim(x, w, na), j = lim(y, m, na), p = lim(z, w, nb), q = lim(w, x, nb);
      if (i > j) std::swap(i, j); if (p > q) std::swap(p, q);
      if (m % 4 == 0) { i = 0; j = na; }
      if (m % 8 < 2) { p = 0; q = nb; }
      const std::size_t len = j - i, len2 = q - p;
      auto f = at(a, i), l = at(a, j), g = at(b, p), h = at(b, q);
      const long vv = long(z % 12); const unsigned md = 2 + w % 3, rm = m % (2 + w % 3);
      auto odd = [md, rm](const T& e) { return unsigned(V(e)) % md == rm; };
      auto lt = [](const T& u, const T& v) { return V(u) < V(v); };
      auto gt = [](const T& u, const T& v) { return V(v) < V(u); };
      auto near = [md](const T& u, const T& v) { return V(u) / long(md) == V(v) / long(md); };
      auto val = [&](long e) { if constexpr (is_map) return T(int(e % 97), int(e)); else return T(e); };
      const T v = val(vv), v2 = val(long(y % 12));
      auto get = [](const T& e) { return V(e); };
      auto both = [](const T& u, const T& e) { return V(u) * 3 + V(e); };
      k.op("algorithm", op, len);
      switch (op) {
        case 0: k.obs("all_of", CALL(all_of, f, l, odd)); k.obs("any_of", CALL(any_of, f, l, odd)); k.obs("none_of", CALL(none_of, f, l, odd)); break;
        case 1: { long t = 1; CALL(for_each, f, l, [&](const T& e) { t = (t * 31 + V(e)) % 1000003; }); k.obs("for_each", u64(t)); break; }
        case 2: pos("find", a, CALL(find, f, l, v), na); break;
        case 3: pos("find_if", a, CALL(find_if, f, l, odd), na); pos("find_if_not", a, CALL(find_if_not, f, l, odd), na); break;
        case 4: { auto r = CALL(find_end, f, l, g, at(b, p + (len2 > 2 ? 1 + w % 2 : len2))); pos("find_end", a, r, na); pos("find_end pred", a, CALL(find_end, f, l, g, at(b, p + (len2 ? 1 : 0)), near), na); break; }
        case 5: pos("find_first_of", a, CALL(find_first_of, f, l, g, h), na); pos("find_first_of pred", a, CALL(find_first_of, f, l, g, h, near), na); break;
        case 6: pos("adjacent_find", a, CALL(adjacent_find, f, l), na); pos("adjacent_find pred", a, CALL(adjacent_find, f, l, gt), na); break;
        case 7: k.obs("count", u64(CALL(count, f, l, v))); k.obs("count_if", u64(CALL(count_if, f, l, odd))); break;
        case 8: { auto r = CALL(mismatch, f, l, g, h); pos("mismatch 1", a, r.first, na); pos("mismatch 2", b, r.second, nb); auto r2 = CALL(mismatch, f, l, g, h, near); pos("mismatch pred", a, r2.first, na); break; }
        case 9: k.obs("equal", CALL(equal, f, l, g, h)); k.obs("equal self", CALL(equal, f, l, f, l)); k.obs("equal pred", CALL(equal, f, l, g, h, near)); if (len2 >= len) k.obs("equal 3", CALL(equal, f, l, g)); break;
        case 10: if (len < 200) { k.obs("is_permutation", CALL(is_permutation, f, l, g, h)); if (len2 >= len) k.obs("is_permutation 3", CALL(is_permutation, f, l, g)); } break;
        case 11: pos("search", a, CALL(search, f, l, g, at(b, p + (len2 > 2 ? 1 + w % 2 : len2))), na); pos("search pred", a, CALL(search, f, l, g, at(b, p + (len2 ? 1 : 0)), near), na); break;
        case 12: pos("search_n", a, CALL(search_n, f, l, int(w % 4), v), na); pos("search_n pred", a, CALL(search_n, f, l, int(w % 3), v, near), na); break;
        case 13: { Out o(len); auto r = CALL(transform, f, l, o.begin(), get); k.obs("end", u64(r - o.begin())); out("transform", o); break; }
        case 14: if (len2 >= len) { Out o; CALL(transform, f, l, g, CALL(back_inserter, o), both); out("transform 2", o); } break;
        case 15: { std::vector<T> o(len2 + len, v); if constexpr (!is_map) { auto r = CALL(copy, f, l, o.begin()); r = CALL(copy_n, g, len2, r); k.obs("end", u64(r - o.begin())); outc("copy, copy_n", o); } break; }
        case 16: { std::vector<T> o; CALL(copy_if, f, l, CALL(back_inserter, o), odd); CALL(remove_copy, f, l, CALL(back_inserter, o), v); CALL(remove_copy_if, f, l, CALL(back_inserter, o), odd); outc("copy_if, remove_copy", o); break; }
        case 17: { std::vector<T> o; if constexpr (!is_map) { CALL(replace_copy, f, l, CALL(back_inserter, o), v, v2); CALL(replace_copy_if, f, l, CALL(back_inserter, o), odd, v2); } CALL(unique_copy, f, l, CALL(back_inserter, o)); outc("replace_copy, unique_copy", o); break; }
        case 18: { std::vector<T> o; CALL(rotate_copy, f, at(a, i + (len ? w % (len + 1) : 0)), l, CALL(back_inserter, o)); if constexpr (bidi) CALL(reverse_copy, f, l, CALL(back_inserter, o)); outc("rotate_copy, reverse_copy", o); break; }
        case 19: k.obs("is_partitioned", CALL(is_partitioned, f, l, odd)); { std::vector<T> o1, o2; CALL(partition_copy, f, l, CALL(back_inserter, o1), CALL(back_inserter, o2), odd); outc("partition_copy", o1); outc("partition_copy false", o2); } break;
        case 20: k.obs("is_sorted", CALL(is_sorted, f, l)); k.obs("is_sorted by", CALL(is_sorted, f, l, gt)); pos("is_sorted_until", a, CALL(is_sorted_until, f, l), na); pos("is_sorted_until by", a, CALL(is_sorted_until, f, l, lt), na); break;
        case 21: pos("min_element", a, CALL(min_element, f, l), na); pos("max_element", a, CALL(max_element, f, l), na); { auto r = CALL(minmax_element, f, l); pos("minmax_element 1", a, r.first, na); pos("minmax_element 2", a, r.second, na); } pos("max_element by", a, CALL(max_element, f, l, gt), na); pos("min_element by", a, CALL(min_element, f, l, near_less(md)), na); break;
        case 22: k.obs("lexicographical_compare", CALL(lexicographical_compare, f, l, g, h)); k.obs("by", CALL(lexicographical_compare, f, l, g, h, gt)); break;
        case 23: k.obs("accumulate", u64(CALL(accumulate, f, l, 7L, [](long t, const T& e) { return (t * 31 + V(e)) % 1000003; }))); if constexpr (!is_map) k.obs("accumulate +", u64(CALL(accumulate, f, l, 7L))); break;
        case 24: if constexpr (!is_map) k.obs("reduce", u64(CALL(reduce, f, l, 0L))); if (len2 >= len) k.obs("inner_product", u64(CALL(inner_product, f, l, g, 5L, [](long t, long u) { return (t + u) % 1000003; }, both))); break;
        case 25: k.obs("transform_reduce", u64(CALL(transform_reduce, f, l, 0L, std::plus<>(), get))); if (len2 >= len) k.obs("transform_reduce 2", u64(CALL(transform_reduce, f, l, g, 0L, std::plus<>(), both))); break;
        case 26: { Out o(len); if constexpr (!is_map) { CALL(partial_sum, f, l, o.begin(), [](long t, long e) { return (t * 3 + e) % 997; }); out("partial_sum", o); CALL(adjacent_difference, f, l, o.begin(), [](long t, long e) { return t - 2 * e; }); out("adjacent_difference", o); } break; }
        case 27: { Out o(len); if constexpr (!is_map) { CALL(exclusive_scan, f, l, o.begin(), 3L); out("exclusive_scan", o); CALL(inclusive_scan, f, l, o.begin(), std::plus<long>(), 4L); out("inclusive_scan", o); } CALL(transform_exclusive_scan, f, l, o.begin(), 9L, std::plus<>(), get); out("transform_exclusive_scan", o); CALL(transform_inclusive_scan, f, l, o.begin(), std::plus<>(), get, 1L); out("transform_inclusive_scan", o); break; }
        case 28: { order(a); k.op("lower_bound etc. on sorted contents", op); pos("lower_bound", a, CALL(lower_bound, f, l, v, lt), na); pos("upper_bound", a, CALL(upper_bound, f, l, v, lt), na); auto r = CALL(equal_range, f, l, v, lt); pos("equal_range 1", a, r.first, na); pos("equal_range 2", a, r.second, na); k.obs("binary_search", CALL(binary_search, f, l, v, lt)); if constexpr (!is_map) { pos("lower_bound", a, CALL(lower_bound, f, l, v), na); pos("upper_bound", a, CALL(upper_bound, f, l, v), na); k.obs("binary_search", CALL(binary_search, f, l, v)); } break; }
        case 29: { order(a); order(b); std::vector<T> o; CALL(merge, f, l, g, h, CALL(back_inserter, o)); outc("merge", o); k.obs("includes", CALL(includes, f, l, g, h)); break; }
        case 30: case 31: { order(a); order(b); std::vector<T> o; auto bi = CALL(back_inserter, o); CALL(set_union, f, l, g, h, bi); CALL(set_intersection, f, l, g, h, bi); CALL(set_difference, f, l, g, h, bi); CALL(set_symmetric_difference, f, l, g, h, bi); outc("set operations", o); break; }
        case 32: if constexpr (!is_map) { std::vector<long> d(w % 20); CALL(partial_sort_copy, f, l, d.begin(), d.end(), [](const auto& u, const auto& t) { return V(u) < V(t); }); out("partial_sort_copy", d); } break;
        case 33: { pos("partition_point", a, CALL(partition_point, f, f, odd), na); order(a); pos("partition_point", a, CALL(partition_point, f, l, [vv](const T& e) { return V(e) < vv; }), na); break; }
        case 34: { pos("next", a, std::next(f, long(len)), na); k.obs("distance", u64(std::distance(f, l))); auto it = f; std::advance(it, len); k.check(it == l, "advance does not reach the end of the range"); if constexpr (bidi) { pos("prev", a, std::prev(l, long(len)), na); std::vector<T> o(std::make_reverse_iterator(l), std::make_reverse_iterator(f)); outc("reverse iteration", o); } break; }
        case 35: { const T* e[2] = {&v, &v2};
            auto who = [&](const char* t, const T& r) { k.obs(t, &r == e[0] ? 0u : &r == e[1] ? 1u : 2u); };
            who("min", CALL(min, v, v2)); who("max", CALL(max, v, v2)); who("min by", CALL(min, v, v2, near_less(md))); who("max by", CALL(max, v, v2, near_less(md)));
            { auto r = CALL(minmax, v, v2); who("minmax 1", r.first); who("minmax 2", r.second); auto r2 = CALL(minmax, v, v2, near_less(md)); who("minmax by 1", r2.first); who("minmax by 2", r2.second); }
            const T v3 = val(long(x % 12)); k.obs("min of list", u64(V(CALL(min, {v, v2, v3})) * 100 + V(CALL(max, {v, v2, v3})))); k.obs("by", u64(V(CALL(min, {v, v2, v3}, lt)) * 100 + V(CALL(max, {v3, v2, v}, lt)))); { auto r = CALL(minmax, {v3, v2, v}); k.obs("minmax of list", u64(V(r.first) * 100 + V(r.second))); } break; }
        case 36: { if constexpr (has_back) { C o; CALL(copy, f, l, CALL(back_inserter, o)); CALL(transform, g, h, CALL(back_inserter, o), [](const T& e) { return T(e); }); k.obs("size", o.size()); contents(o, na + nb); } else if constexpr (has_hint) { C o; CALL(copy, f, l, CALL(inserter, o, o.end())); k.obs("size", o.size()); contents(o, na); if constexpr (!is_map) { C u; CALL(set_union, f, l, g, h, CALL(inserter, u, u.end())); contents(u, na + nb); } } break; }
        case 37: { if constexpr (bidi) { auto rf = std::make_reverse_iterator(l), rl = std::make_reverse_iterator(f); pos("find backwards", a, CALL(find, rf, rl, v).base(), na); pos("find_if backwards", a, CALL(find_if, rf, rl, odd).base(), na); k.obs("count backwards", u64(CALL(count_if, rf, rl, odd))); if constexpr (!is_map) k.obs("accumulate backwards", u64(CALL(accumulate, rf, rl, 7L, [](long t, const T& e) { return (t * 31 + V(e)) % 1000003; }))); } break; }
        case 38: { const C& ca = a; auto cf = ca.begin(); std::advance(cf, i); auto cl = ca.begin(); std::advance(cl, j); auto r = CALL(find, cf, cl, v); k.obs("find in const", u64(std::distance(cf, r))); k.obs("count in const", u64(CALL(count_if, cf, cl, odd))); k.obs("equal", CALL(equal, cf, cl, f, l)); break; }
        case 39: { std::vector<T> o; CALL(copy, f, l, CALL(back_inserter, o)); if constexpr (!is_map && has_hint && !ra) { C d; CALL(copy, o.begin(), o.end(), CALL(inserter, d, d.begin())); contents(d, na); } else outc("copy", o); break; }
        default: if constexpr (mut) mutate(op, s, x, y, z, w, m, i, j, p, q); else k.op("nothing"); break;
      }
      if (op % 3 == 0) { contents(a, na); contents(b, nb); }
    }
    contents(a, na); contents(b, nb);
  }
  static auto near_less(unsigned md) { return [md](const T& u, const T& v) { return V(u) / long(md) < V(v) / long(md); }; }

  void mutate(unsigned op, Src&, unsigned x, unsigned y, unsigned z, unsigned w, unsigned m, std::size_t i, std::size_t j, std::size_t p, std::size_t q) {
   if constexpr (mut) {
    const std::size_t len = j - i, len2 = q - p;
    auto f = at(a, i), l = at(a, j), g = at(b, p), h = at(b, q);
    const T v = T(z % 12), v2 = T(y % 12); const unsigned md = 2 + w % 3, rm = m % md;
    auto odd = [md, rm](const T& e) { return unsigned(V(e)) % md == rm; };
    auto lt = near_less(1 + w % 4);
    auto gt = [](const T& u, const T& t) { return V(t) < V(u); };
    const std::size_t mid = len ? x % (len + 1) : 0; auto c = at(a, i + mid);
    const bool part = m % 4 != 0 || na != j;             // (only describes the case)
    (void)part;
    switch (op) {
      case 40: if (len2 >= len) { auto r = CALL(copy, f, l, g); pos("copy", b, r, nb); } break;
      case 41: if (len2 >= len) { auto r = CALL(copy_n, f, len, g); pos("copy_n", b, r, nb); } break;
      case 42: if (len2 >= len) { auto r = CALL(copy_if, f, l, g, odd); pos("copy_if", b, r, nb); } break;
      case 43: if constexpr (bidi) if (len2 >= len) { auto r = CALL(copy_backward, f, l, h); pos("copy_backward", b, r, nb); } break;
      case 44: if constexpr (bidi) { auto r = CALL(copy_backward, f, c, l); pos("copy_backward overlapping", a, r, na); } break;
      case 45: { auto r = CALL(copy, c, l, f); pos("copy overlapping", a, r, na); break; }
      case 46: if (len2 >= len) { auto r = CALL(move, f, l, g); pos("move", b, r, nb); } break;
      case 47: if constexpr (bidi) if (len2 >= len) { auto r = CALL(move_backward, f, l, h); pos("move_backward", b, r, nb); } break;
      case 48: if (len2 >= len) { auto r = CALL(swap_ranges, f, l, g); pos("swap_ranges", b, r, nb); } break;
      case 49: if (len) { auto d = at(a, i + y % len); CALL(iter_swap, f, d); if (len2) CALL(iter_swap, d, g); } break;
      case 50: if (len2 >= len) { auto r = CALL(transform, f, l, g, [](const T& e) { return T((V(e) * 5 + 1) % 100); }); pos("transform", b, r, nb); } break;
      case 51: CALL(transform, f, l, f, [](const T& e) { return T((V(e) * 5 + 1) % 100); }); break;
      case 52: CALL(replace, f, l, v, v2); break;
      case 53: CALL(replace_if, f, l, odd, v2); break;
      case 54: CALL(fill, f, l, v); break;
      case 55: { auto r = CALL(fill_n, f, int(mid), v); pos("fill_n", a, r, na); break; }
      case 56: { int n = int(x); CALL(generate, f, l, [&] { return T(n = (n * 7 + 3) % 101); }); break; }
      case 57: { int n = int(x); auto r = CALL(generate_n, f, int(mid), [&] { return T(n = (n * 7 + 3) % 101); }); pos("generate_n", a, r, na); break; }
      case 58: case 59: { auto r = op == 58 ? CALL(remove, f, l, v) : CALL(remove_if, f, l, odd); pos("remove", a, r, na); CALL(fill, r, l, T(0)); break; }
      case 60: { auto r = CALL(unique, f, l); pos("unique", a, r, na); CALL(fill, r, l, T(0)); break; }
      case 61: { auto r = CALL(unique, f, l, [md](const T& u, const T& t) { return V(u) / long(md) == V(t) / long(md); }); pos("unique by", a, r, na); CALL(fill, r, l, T(0)); break; }
      case 62: if constexpr (bidi) CALL(reverse, f, l); break;
      case 63: case 64: { auto r = CALL(rotate, f, c, l); pos("rotate", a, r, na); break; }
      case 65: if constexpr (ra) { std::minstd_rand gen(x + 1); CALL(shuffle, f, l, gen); bag("shuffle", a); order(a); } break;
      case 66: { auto r = CALL(partition, f, l, odd); pos("partition", a, r, na); k.obs("is_partitioned", CALL(is_partitioned, f, l, odd)); bag("partition", a); order(a); break; }
      case 67: if constexpr (bidi) { auto r = CALL(stable_partition, f, l, odd); pos("stable_partition", a, r, na); } break;
      case 68: case 69: if constexpr (ra) { CALL(sort, f, l); } break;
      case 70: if constexpr (ra) { CALL(sort, f, l, gt); } break;
      case 71: case 72: if constexpr (ra) { CALL(stable_sort, f, l, lt); } break;
      case 73: if constexpr (ra) { CALL(stable_sort, f, l); } break;
      case 74: if constexpr (ra) { CALL(partial_sort, f, c, l); k.obs("is_sorted", CALL(is_sorted, f, c)); u64 hh = 1; for (auto it = f; !(it == c); ++it) hh = mix(hh, u64(V(*it))); k.obs("partial_sort", hh); bag("contents", a); order(a); } break;
      case 75: if constexpr (ra) if (len2) { auto r = CALL(partial_sort_copy, f, l, g, h); pos("partial_sort_copy", b, r, nb); } break;
      case 76: if constexpr (ra) if (mid < len) { CALL(nth_element, f, c, l); k.obs("nth_element", u64(V(*c))); for (auto it = f; !(it == c); ++it) k.check(!(V(*c) < V(*it)), "nth_element: a greater element precedes"); for (auto it = c; !(it == l); ++it) k.check(!(V(*it) < V(*c)), "nth_element: a smaller element follows"); bag("contents", a); order(a); } break;
      case 77: if constexpr (bidi) { order(a); std::vector<T> t(f, l); for (std::size_t e = 0; e < len; e++) std::swap(t[e], t[(e * 5 + y) % len]); auto mm = t.begin() + long(mid); std::stable_sort(t.begin(), mm); std::stable_sort(mm, t.end()); CALL(copy, t.begin(), t.end(), f); CALL(inplace_merge, f, c, l); k.obs("is_sorted", CALL(is_sorted, f, l)); } break;
      case 78: case 79: case 80: if constexpr (ra) { CALL(make_heap, f, l); k.obs("is_heap", CALL(is_heap, f, l)); if (op == 79 && len) { k.obs("max", u64(V(*f))); CALL(pop_heap, f, l); k.obs("popped", u64(V(*(l - 1)))); k.obs("is_heap", CALL(is_heap, f, l - 1)); *(l - 1) = v; CALL(push_heap, f, l); k.obs("is_heap", CALL(is_heap, f, l)); bag("contents", a); } CALL(sort_heap, f, l); order(a); } break;
      case 81: if constexpr (ra) { k.obs("is_heap", CALL(is_heap, f, l)); pos("is_heap_until", a, CALL(is_heap_until, f, l), na); k.obs("is_heap by", CALL(is_heap, f, l, gt)); } break;
      case 82: if constexpr (bidi) { k.obs("next_permutation", CALL(next_permutation, f, l)); } break;
      case 83: if constexpr (bidi) { k.obs("prev_permutation", CALL(prev_permutation, f, l)); } break;
      case 84: if (len < 100) CALL(iota, f, l, T(y % 20)); break;
      case 85: if constexpr (!std::is_same_v<T, char>) { if (len < 15) { CALL(partial_sum, f, l, f, [](const T& u, const T& t) { return T((V(u) + V(t)) % 100); }); CALL(adjacent_difference, f, l, f, [](const T& u, const T& t) { return T((V(u) + 2 * V(t)) % 100); }); CALL(exclusive_scan, f, l, f, T(1), [](const T& u, const T& t) { return T((V(u) + V(t)) % 100); }); CALL(inclusive_scan, f, l, f, [](const T& u, const T& t) { return T((V(u) + V(t)) % 100); }); } } break;
      case 86: if constexpr (bidi) { auto rf = std::make_reverse_iterator(l), rl = std::make_reverse_iterator(f); if constexpr (ra) { CALL(sort, rf, rl); k.obs("is_sorted", CALL(is_sorted, rf, rl)); } else CALL(reverse, rf, rl); } break;
      case 87: if constexpr (bidi) { auto rf = std::make_reverse_iterator(l), rl = std::make_reverse_iterator(f); if (len2 >= len) CALL(copy, rf, rl, g); CALL(rotate, rf, std::next(rf, long(mid)), rl); } break;
      case 88: CALL(for_each, f, l, [&](T& e) { e = T((V(e) + y) % 100); }); break;
      case 89: if (len2 >= len) { CALL(replace_copy, f, l, g, v, v2); CALL(replace_copy_if, f, l, g, odd, v); } break;
      case 90: if (len2 >= len) { auto r = CALL(remove_copy, f, l, g, v); pos("remove_copy", b, r, nb); r = CALL(remove_copy_if, f, l, g, odd); pos("remove_copy_if", b, r, nb); r = CALL(unique_copy, f, l, g); pos("unique_copy", b, r, nb); } break;
      case 91: if (len2 >= len) { auto r = CALL(rotate_copy, f, c, l, g); pos("rotate_copy", b, r, nb); if constexpr (bidi) { r = CALL(reverse_copy, f, l, g); pos("reverse_copy", b, r, nb); } } break;
      case 92: if constexpr (ra) { k.obs("difference", u64(l - f)); if (len) { k.obs("[]", u64(V(f[long(x % len)]))); k.obs("+", u64(V(*(f + long(y % len))))); k.obs("-", u64(V(*(l - 1 - long(y % len))))); auto it = f; it += long(x % len); it -= long(x % len) / 2; k.obs("+=", u64(V(*it))); k.obs("<", (it < l) * 8 + (f < it) * 4 + (it <= f) * 2 + (it >= l) + 16 * (l > it)); } } break;
      case 93: { Out o(len2); if (len2 <= len) { order(b); order(a); } CALL(merge, g, h, f, f, o.begin()); out("merge with nothing", o); break; }
      case 94: if constexpr (ra) { CALL(sort, f, l, lt_then(1 + w % 4)); } break;
      default: CALL(fill, f, l, T(y % 30)); CALL(swap_ranges, f, f, f); break;
    }
   }
  }
  static auto lt_then(unsigned md) { return [md](const T& u, const T& v) { long a = V(u) % long(md), b = V(v) % long(md); return a != b ? a < b : V(u) < V(v); }; }
};

// Fill in a container with decoded contents.
template <class C> void build(C& c, Src& s) {
  unsigned n0 = s.byte(), mode = s.byte(), seed = s.byte();
  using T = typename C::value_type;
  unsigned n = n0 < 200 ? n0 % 24 : n0 < 240 ? n0 : n0 < 250 ? 1020 + n0 % 10 : 2047 + (n0 % 3) * 300;
  if constexpr (!requires { c.push_front(T()); c.push_back(T()); }) n = n > 300 ? 300 : n;
  unsigned range = mode % 5 == 0 ? 3 : mode % 5 < 3 ? 12 : 100;
  for (unsigned i = 0; i < n; i++) {
    int v = int((i * (seed * 2 + 1) * 7 + i * i * (seed % 5) + seed) % range); if (mode & 64) v = int(i * range / (n + 1));
    if constexpr (requires { c.push_back(T()); c.push_front(T()); }) { if (mode & 8 && (mode & 16 || i % 3 == 0)) c.push_front(T(v)); else c.push_back(T(v)); }
    else if constexpr (requires { c.push_back(T()); }) c.push_back(T(v));
    else if constexpr (requires { c.push_front(T()); }) c.push_front(T(v));
    else if constexpr (requires { typename C::mapped_type; }) c.insert(T(v * 5 % 101, v));
    else c.insert(T(v));
  }
}
template <bool CEST, class C, class S> void run_alg(Src s, S& k) {
  C a, b; build(a, s); build(b, s);
  std::size_t na = 0, nb = 0; for (auto it = a.begin(); !(it == a.end()); ++it) if (++na > 5000) { k.check(false, "iteration does not end"); return; }
  for (auto it = b.begin(); !(it == b.end()); ++it) if (++nb > 5000) { k.check(false, "iteration does not end"); return; }
  k.obs("size", na); k.obs("size", nb);
  Alg<CEST, C, S> t{k, a, b, na, nb}; t.run(s);
}
template <class SC, class CC> void go(Src s, Ctx& c, const char* name) {
  c.label(name); differential(s, c, [](Src q, auto& k) { run_alg<false, SC>(q, k); }, [](Src q, auto& k) { run_alg<true, CC>(q, k); });
}
#ifndef VF_UNIT
#error "compiled once per container, with VF_UNIT 0..6"
#endif
#if VF_UNIT == 0
void go0(Src s, Ctx& c) { go<std::vector<int>, cest::vector<int>>(s, c, "vector"); }
#elif VF_UNIT == 1
void go1(Src s, Ctx& c) { go<std::deque<int>, cest::deque<int>>(s, c, "deque"); }
#elif VF_UNIT == 2
void go2(Src s, Ctx& c) { go<std::string, cest::string>(s, c, "string"); }
#elif VF_UNIT == 3
void go3(Src s, Ctx& c) { go<std::list<int>, cest::list<int>>(s, c, "list"); }
#elif VF_UNIT == 4
void go4(Src s, Ctx& c) { go<std::forward_list<int>, cest::forward_list<int>>(s, c, "forward_list"); }
#elif VF_UNIT == 5
void go5(Src s, Ctx& c) { go<std::set<int>, cest::set<int>>(s, c, "set"); }
#elif VF_UNIT == 6
void go6(Src s, Ctx& c) { go<std::map<int, int>, cest::map<int, int>>(s, c, "map"); }
#endif
#if VF_UNIT == 6
void go0(Src, Ctx&); void go1(Src, Ctx&); void go2(Src, Ctx&); void go3(Src, Ctx&); void go4(Src, Ctx&); void go5(Src, Ctx&);
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte(); s.byte();
  c.nontrivial = s.n >= s.i + 6 && s.p[s.i] % 24 != 0 && (s.n - s.i - 6) / AREC >= 3;
  switch (cfg % 9) {
    case 0: case 1: return go0(s, c);
    case 2: case 3: return go1(s, c);
    case 4: return go2(s, c);
    case 5: return go3(s, c);
    case 6: return go4(s, c);
    case 7: return go5(s, c);
    default: return go6(s, c);
  }
}
#endif
} // namespace vf
