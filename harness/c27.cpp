#include "driver.hpp"
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/set.hpp>
#include <cest/string.hpp>
#include <cest/vector.hpp>
#include <iterator>
namespace vf {
constexpr unsigned OPS = 24, REC = 6;
const Shape vf_shape{1, REC, OPS, 120};
const char* const vf_rule = "A case is a header choosing a container and element type and a list of 6-byte operation records over two containers of it: changes, laws checked at generated positions, and iterators and references "
  "to generated elements kept and re-examined after every later operation that must not invalidate them; it is non-trivial if a kept iterator or reference survived a change of its container or laws were checked in a container of 3 or more elements.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

struct Fat { int n; std::string s; Fat(int v = 0) : n(v), s(std::string("element number ") + std::to_string(v)) {} bool operator<(const Fat& o) const { return n < o.n; } bool operator==(const Fat& o) const { return n == o.n; } };
template <class T> T val(int id) { if constexpr (std::is_same_v<T, std::pair<const int, Fat>>) return {id, Fat(id)}; else return T(id); }
inline int id_of(int x) { return x; }
inline int id_of(const Fat& f) { return f.s == Fat(f.n).s ? f.n : -77777; }
inline int id_of(const std::pair<const int, Fat>& p) { return id_of(p.second) == p.first ? p.first : -77777; }

#define REQ(cond, what) do { if (!(cond)) throw Mismatch{std::string(what)}; } while (0)

// The laws at positions p and q of [b, b+n) whose elements are at the given addresses.
template <class It, class P>
void laws(It b, It e, std::size_t n, std::size_t p, std::size_t q, const std::vector<P>& at) {
  using Tr = std::iterator_traits<It>;
  using Cat = typename Tr::iterator_category;
  static_assert(std::is_base_of_v<std::forward_iterator_tag, Cat>);
  REQ((std::is_same_v<typename Tr::reference, decltype(*b)>), "iterator_traits::reference is not the type of *it");
  REQ((std::is_same_v<typename Tr::value_type, std::remove_cvref_t<decltype(*b)>>), "iterator_traits::value_type is not the element type");
  REQ((std::is_same_v<decltype(++b), It&>), "++it is not the iterator itself");
  REQ((std::is_same_v<decltype(b++), It>), "it++ is not an iterator of the same type");
  It x = b, y = b;
  for (std::size_t i = 0; i < p; i++) { It& r = ++x; REQ(&r == &x, "++it does not return the iterator"); }
  for (std::size_t i = 0; i < q; i++) y++;
  REQ((x == y) == (p == q), "it == other does not hold exactly for equal positions");
  REQ((x != y) == (p != q), "it != other does not hold exactly for different positions");
  REQ(x == x && !(x != x), "an iterator is not equal to itself");
  REQ((b == e) == (n == 0), "begin() == end() does not mean empty");
  REQ((x == e) == (p == n), "it == end() does not hold exactly at the end");
  { It z(x); REQ(z == x, "a copy of an iterator is not equal to it"); z = y; REQ(z == y, "an assigned iterator is not equal to its source"); using std::swap; It u(x); swap(u, z); REQ(u == y && z == x, "swapped iterators do not hold each other's position"); }
  if (p < n) {
    REQ(&*x == at[p], "*it is not the element at its position"); REQ(std::addressof(*x.operator->()) == at[p] , "it-> is not the element at its position");
    It o = x, old = o++, pre = x; ++pre;
    REQ(old == x, "it++ does not return the previous position"); REQ(o == pre, "it++ and ++it reach different positions"); REQ(!(o == x), "++it does not change the position");
    It w = x; REQ(&*w++ == at[p], "*it++ is not the element at the previous position"); REQ(w == pre, "*it++ does not advance");
    if (p + 1 < n) REQ(&*pre == at[p + 1], "++it is not the next element"); else REQ(pre == e, "++it from the last element is not end()");
    REQ(std::next(x) == pre, "std::next differs from ++it");
  }
  { std::size_t k = 0; for (It i = b; !(i == e) && k <= n; ++i) { if (k < n) REQ(&*i == at[k], "iteration visits another element"); k++; } REQ(k == n, "iteration does not visit size() elements"); }
  REQ(std::size_t(std::distance(b, e)) == n, "distance(begin(), end()) is not size()");
  if (p <= q) REQ(std::distance(x, y) == std::ptrdiff_t(q - p), "distance is not the number of increments");
  if constexpr (std::is_base_of_v<std::bidirectional_iterator_tag, Cat>) {
    REQ((std::is_same_v<decltype(--b), It&>), "--it is not the iterator itself");
    REQ((std::is_same_v<decltype(b--), It>), "it-- is not an iterator of the same type");
    It z = e; for (std::size_t i = n; i > p; i--) { It& r = --z; REQ(&r == &z, "--it does not return the iterator"); } REQ(z == x, "-- from end() and ++ from begin() reach different positions");
    if (p > 0) {
      It o = x, pre = x, old = o--; --pre;
      REQ(old == x, "it-- does not return the previous position"); REQ(o == pre, "it-- and --it reach different positions"); REQ(&*pre == at[p - 1], "--it is not the element before");
      REQ(std::prev(x) == pre, "std::prev differs from --it");
      ++pre; REQ(pre == x, "++ does not undo --");
      if (p < n) { It w = x; REQ(&*w-- == at[p], "*it-- is not the element at the previous position"); REQ(w == o, "*it-- does not go back"); }
    }
    if (p < n) { It o = x; ++o; --o; REQ(o == x, "-- does not undo ++"); }
    std::size_t k = n; for (std::reverse_iterator<It> i(e), f(b); i != f && k > 0; ++i) { --k; REQ(&*i == at[k], "reverse iteration visits another element"); REQ(std::addressof(*i.operator->()) == at[k], "a reverse iterator's -> visits another element"); } REQ(k == 0, "reverse iteration does not visit size() elements");
    if (p < n) { std::reverse_iterator<It> r(std::next(x)); REQ(&*r == at[p], "the reverse iterator of next(it) is not at it"); REQ(r.base() == std::next(x), "base() is another position"); }
  }
  if constexpr (std::is_base_of_v<std::random_access_iterator_tag, Cat>) {
    std::ptrdiff_t d = std::ptrdiff_t(q) - std::ptrdiff_t(p);
    REQ(y - x == d, "y - x is not the difference of the positions"); REQ(x - y == -d, "x - y is not the negated y - x");
    REQ(x + d == y, "x + n is another position"); REQ(d + x == y, "n + x is another position"); REQ(y - d == x, "x - n is another position");
    { It z = x; It& r = (z += d); REQ(&r == &z && z == y, "+= reaches another position"); It& r2 = (z -= d); REQ(&r2 == &z && z == x, "-= does not undo +="); }
    REQ((x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q), "an order comparison does not agree with the positions");
    if (q < n) REQ(&x[d] == at[q], "x[n] is not the element at x + n");
    It z = b; z += std::ptrdiff_t(n); REQ(z == e, "begin() + size() is not end()"); z -= std::ptrdiff_t(n); REQ(z == b, "end() - size() is not begin()");
  }
}
// pointers have no operator->
template <class T> struct PI {
  using difference_type = std::ptrdiff_t; using value_type = std::remove_cv_t<T>; using reference = T&; using pointer = T*; using iterator_category = std::random_access_iterator_tag;
  T* p = nullptr;
  reference operator*() const { return *p; } pointer operator->() const { return p; } PI& operator++() { ++p; return *this; } PI operator++(int) { return {p++}; } PI& operator--() { --p; return *this; } PI operator--(int) { return {p--}; }
  PI& operator+=(std::ptrdiff_t n) { p += n; return *this; } PI& operator-=(std::ptrdiff_t n) { p -= n; return *this; } reference operator[](std::ptrdiff_t n) const { return p[n]; }
  friend PI operator+(PI a, std::ptrdiff_t n) { return {a.p + n}; } friend PI operator+(std::ptrdiff_t n, PI a) { return {n + a.p}; } friend PI operator-(PI a, std::ptrdiff_t n) { return {a.p - n}; } friend std::ptrdiff_t operator-(PI a, PI b) { return a.p - b.p; }
  auto operator<=>(const PI&) const = default;
};
template <class It> auto wrap(It i) { if constexpr (std::is_pointer_v<It>) return PI<std::remove_pointer_t<It>>{i}; else return i; }

template <class C> concept Keyed = requires { typename C::key_compare; };
template <class C> concept FwdL = requires(C& c) { c.before_begin(); };
template <class C> concept LstL = requires(C& c) { c.emplace_front(); };
template <class C> concept StrL = requires(C& c) { c.c_str(); };
template <class C> concept VecL = requires(C& c) { c.capacity(); } && !StrL<C>;
template <class C> concept DeqL = !Keyed<C> && !FwdL<C> && !LstL<C> && !StrL<C> && !VecL<C>;

template <class C> void all_laws(C& u, const std::vector<int>& model, std::size_t p, std::size_t q) {
  using T = typename C::value_type;
  const C& cu = u;
  std::size_t n = model.size();
  std::vector<const T*> at;
  for (auto i = cu.begin(); !(i == cu.end()) && at.size() <= n; ++i) at.push_back(&*i);
  REQ(at.size() == n, "const iteration does not visit size() elements");
  for (std::size_t i = 0; i < n; i++) REQ(id_of(*at[i]) == model[i], "the elements are not the expected ones in the expected order");
  laws(wrap(u.find_n(0, 0)), wrap(u.end()), n, p, q, at); laws(wrap(cu.begin()), wrap(cu.end()), n, p, q, at); laws(wrap(cu.cbegin()), wrap(cu.cend()), n, p, q, at);
  using It = typename C::iterator; using CIt = typename C::const_iterator;
  if constexpr (!std::is_same_v<It, CIt>) {
    It x = u.end(); CIt y = cu.end();
    x = u.find_n(0, p); y = cu.find_n(0, p);
    CIt z(x), z2 = x;
    REQ(z == y && z2 == y, "a const iterator made from an iterator is at another position");
    if (p < n) { REQ(&*z == &*x, "a const iterator made from an iterator is at another element"); }
  }
  { It d{}, e{}; REQ(d == e, "value-initialised iterators differ"); d = u.find_n(0, 0); REQ(d == u.find_n(0, 0), "an iterator assigned from begin() is not equal to it"); }
  { CIt d{}, e{}; REQ(d == e, "value-initialised const iterators differ"); d = cu.begin(); REQ(d == cu.begin(), "a const iterator assigned from begin() is not equal to it"); }
  if constexpr (VecL<C>) {
    std::size_t k = n; for (auto i = u.rbegin(); i != u.rend() && k; ++i) REQ(&*i == at[--k], "rbegin() iteration visits another element"); REQ(k == 0, "rbegin() to rend() does not visit size() elements");
    REQ(std::size_t(u.rend() - u.rbegin()) == n && std::size_t(cu.rend() - cu.rbegin()) == n, "rend() - rbegin() is not size()"); k = n; for (auto i = cu.rbegin(); i != cu.rend() && k; ++i) REQ(&*i == at[--k], "const rbegin() iteration visits another element");
  }
}
// adds the position helper without touching the container's interface
template <class C> struct Pos : C {
  using C::C; using C::operator=;
  auto find_n(int, std::size_t k) {                   // begin() of a map that is not const is a const_iterator
    if constexpr (requires { typename C::mapped_type; }) { auto i = this->begin(); while (k--) ++i; return i == this->cend() ? this->end() : this->find((*i).first); }
    else { auto i = this->begin(); while (k--) ++i; return i; }
  }
  auto find_n(int, std::size_t k) const { auto i = this->begin(); while (k--) ++i; return i; }
};

template <class B> void run(Src s, Ctx& c) {
  using C = Pos<B>;
  using T = typename C::value_type; using It = typename C::iterator; using CIt = typename C::const_iterator;
  C u[2]; std::vector<int> m[2];
  struct Kept { int home; int id; It it; CIt cit; T* p; bool its; };
  struct KeptEnd { It it; bool on; };
  std::vector<Kept> kept;
  KeptEnd ends[2] = {{u[0].end(), false}, {u[1].end(), false}};
  std::string log; int next_id = 1; bool change = false;
  auto drop_all = [&](int h) { std::erase_if(kept, [&](auto& k) { return k.home == h; }); ends[h].on = false; };
  auto drop_its = [&](int h) { for (auto& k : kept) if (k.home == h) k.its = false; ends[h].on = false; };
  auto drop_id = [&](int h, int id) { std::erase_if(kept, [&](auto& k) { return k.home == h && k.id == id; }); };
  const char* cur = "";
  auto key_pos = [&](int h, int id) { return std::size_t(std::lower_bound(m[h].begin(), m[h].end(), id) - m[h].begin()); };
  try {
    while (!s.done()) {
      unsigned op = s.byte() % OPS; int a = s.byte() & 1; unsigned x = s.byte(), y = s.byte(), z = s.byte(), w = s.byte();
      C& v = u[a]; auto& mo = m[a]; std::size_t n = mo.size(), i = (x * 256u + y) % (n + 1), j = n ? (x * 256u + y) % n : 0;
      auto is = [&](const char* t) { cur = t; log += std::string(t) + '(' + std::to_string(a) + ',' + std::to_string(i) + ',' + std::to_string(z) + ")\n"; };
      change = op < 14;
      if (op >= 20) { is("laws"); all_laws(v, mo, i, (z * 256u + w) % (n + 1)); if (n >= 3) c.nontrivial = true; }
      else if (op >= 16 && op < 20) {
        if (n) { is("keep"); auto it = v.find_n(0, j); CIt ci(it); kept.push_back({a, mo[j], it, ci, const_cast<T*>(&*it), true}); if (z & 1) ends[a] = {v.end(), true}; if (kept.size() > 24) kept.erase(kept.begin()); }
      }
      else if (op >= 14) { is("write"); if constexpr (!Keyed<C>) { if (n) { auto it = v.find_n(0, j); drop_id(a, mo[j]); int id = next_id++ % 100; if constexpr (!StrL<C>) id = next_id; mo[j] = id; *it = T(id); } } else if constexpr (requires(It q) { q->second; }) { if (n) { auto f = v.find(mo[j]); f->second = Fat(mo[j]); } } }
      else if constexpr (Keyed<C>) {
        if (op < 8) { is("insert"); int id = int(x * 7 + y) % 400; bool has = std::binary_search(mo.begin(), mo.end(), id); auto r = v.insert(val<T>(id)); REQ(r.second == !has, "insert reports wrongly whether it inserted"); if (!has) mo.insert(mo.begin() + key_pos(a, id), id); }
        else if (op < 11) { is("insert run"); for (unsigned q = 0; q < z % 30; q++) { int id = (w & 1) ? int(x * 7 + y + q) % 400 : int(399 + x - q) % 400; if (!std::binary_search(mo.begin(), mo.end(), id)) mo.insert(mo.begin() + key_pos(a, id), id); v.insert(val<T>(id)); } }
        else if (op == 11) { is("find"); int id = int(x * 7 + y) % 400; auto f = v.find(id); std::size_t k = key_pos(a, id); bool has = k < n && mo[k] == id; REQ((f == v.end()) == !has, "find reports wrongly whether the key is there"); if (has) REQ(f == v.find_n(0, k), "find returns another position"); }
        else if (op == 12 && z % 8 == 0) { is("clear"); v.clear(); mo.clear(); drop_all(a); }
        else if (op == 13 && z % 8 == 0) { is("copy assign"); drop_all(a); v = u[1 - a]; mo = m[1 - a]; if (0) (void)i; }
      }
      else if constexpr (FwdL<C>) {
        auto bef = [&](std::size_t k) { auto it = v.before_begin(); while (k--) ++it; return it; };
        int id = ++next_id;
        if (op < 3) { is("push_front"); v.push_front(T(id)); mo.insert(mo.begin(), id); }
        else if (op < 8) { is("insert_after"); auto r = v.insert_after(bef(i), T(id)); REQ(r == v.find_n(0, i), "insert_after returns another position"); mo.insert(mo.begin() + i, id); }
        else if (op == 8) { is("pop_front"); if (n) { drop_id(a, mo[0]); v.pop_front(); mo.erase(mo.begin()); } }
        else if (op == 9) { is("erase_after"); if (n) { drop_id(a, mo[j]); auto r = v.erase_after(bef(j)); mo.erase(mo.begin() + j); REQ(r == v.find_n(0, j), "erase_after returns another position"); } }
        else if (op == 10) { is("erase_after(range)"); std::size_t l = i + z % (n - i + 1); for (std::size_t k = i; k < l; k++) drop_id(a, mo[k]); auto last = l == n ? v.end() : bef(l + 1); v.erase_after(bef(i), last); mo.erase(mo.begin() + i, mo.begin() + l); }
        else if (op == 11) { is("swap"); u[0].swap(u[1]); m[0].swap(m[1]); for (auto& k : kept) k.home = 1 - k.home; ends[0].on = ends[1].on = false; }
        else if (op == 12 && z % 8 == 0) { is("clear"); v.clear(); mo.clear(); drop_all(a); }
        else if (op == 13 && z % 8 == 0) { is("copy assign"); drop_all(a); v = u[1 - a]; mo = m[1 - a]; }
      }
      else if constexpr (LstL<C>) {
        int id = ++next_id;
        if (op == 0) { is("push_back"); v.push_back(T(id)); mo.push_back(id); }
        else if (op == 1) { is("push_front"); v.push_front(T(id)); mo.insert(mo.begin(), id); }
        else if (op < 6) { is("insert"); auto r = op & 1 ? v.insert(v.find_n(0, i), T(id)) : v.emplace(v.find_n(0, i), id); mo.insert(mo.begin() + i, id); REQ(r == v.find_n(0, i), "insert returns another position"); }
        else if (op == 6) { is("emplace ends"); if (z & 1) { auto& r = v.emplace_back(id); REQ(&r == &v.back(), "emplace_back returns another element"); mo.push_back(id); } else { v.emplace_front(id); mo.insert(mo.begin(), id); } }
        else if (op == 7) { is("pop_back"); if (n) { drop_id(a, mo.back()); v.pop_back(); mo.pop_back(); } }
        else if (op == 8) { is("pop_front"); if (n) { drop_id(a, mo[0]); v.pop_front(); mo.erase(mo.begin()); } }
        else if (op < 12) { is("erase"); if (n) { drop_id(a, mo[j]); auto r = v.erase(v.find_n(0, j)); mo.erase(mo.begin() + j); REQ(r == v.find_n(0, j), "erase returns another position"); } }
        else if (op == 12 && z % 8 == 0) { is("clear"); v.clear(); mo.clear(); drop_all(a); }
        else if (op == 13 && z % 8 == 0) { is("copy assign"); drop_all(a); v = u[1 - a]; mo = m[1 - a]; }
      }
      else if constexpr (StrL<C>) {
        char ch = char(1 + z % 120);
        if (op < 4) { is("push_back"); drop_all(a); v.push_back(ch); mo.push_back(ch); }
        else if (op < 6) { is("append"); if (n < (w >= 224 ? 3000u : 300u)) { drop_all(a); B t; for (unsigned q = 0; q < (w >= 224 ? x * 6u : z % 20u); q++) { t.push_back(char(1 + q % 120)); mo.push_back(int(1 + q % 120)); } v.append(t); } }
        else if (op == 6) { is("pop_back"); if (n) { drop_all(a); v.pop_back(); mo.pop_back(); } }
        else if (op == 7) { is("clear"); drop_all(a); v.clear(); mo.clear(); }
        else { is("reads"); (void)v.find('a'); (void)v.compare(u[1 - a]); (void)v.c_str(); (void)v.data(); if (n) { (void)v.front(); (void)v.back(); (void)v[j]; } B t(v); (void)t; }
      }
      else if constexpr (VecL<C>) {
        int id = ++next_id;
        auto grow = [&](std::size_t need) { if (need > v.capacity()) drop_all(a); else ends[a].on = false; };
        if (op < 3) { is("push_back"); grow(n + 1); v.push_back(T(id)); mo.push_back(id); }
        else if (op == 3) { is("reserve"); if (z > v.capacity()) drop_all(a); v.reserve(z); }
        else if (op == 4) { is("resize"); std::size_t k = w >= 224 ? (x * 256u + y) % (w & 1 ? 2600 : 160) : z % 64; if (w % 8 == 1) k = n - n / (1 + z % 40); if (k < n) { for (std::size_t q = k; q < n; q++) drop_id(a, mo[q]); ends[a].on = false; } else if (k > n) grow(k); v.resize(k); mo.resize(k, 0); for (std::size_t q = n; q < k; q++) { v[q] = T(++next_id); mo[q] = next_id; } }
        else if (op == 5) { is("pop_back"); for (unsigned q = w >= 240 ? (x * 256u + y) % 2600 : 1; q-- && !mo.empty();) { drop_id(a, mo.back()); ends[a].on = false; v.pop_back(); mo.pop_back(); } }
        else if (op < 9) { is("erase"); std::size_t l = w >= 224 ? n - (n - i) * (z % 8u) / 64 : i + z % (n - i + 1); if (l > i) { for (std::size_t q = i; q < n; q++) drop_id(a, mo[q]); ends[a].on = false; } auto r = v.erase(v.begin() + i, v.begin() + l); mo.erase(mo.begin() + i, mo.begin() + l); REQ(r == v.begin() + i, "erase returns another position"); }
        else if (op == 9) { is("swap"); u[0].swap(u[1]); m[0].swap(m[1]); for (auto& k : kept) k.home = 1 - k.home; ends[0].on = ends[1].on = false; }
        else if (op == 10) { is("move construct"); B t(std::move(static_cast<B&>(v))); std::size_t k = 0; for (auto& q : t) REQ(id_of(q) == mo[k++], "move construction changed the elements"); for (auto& q : kept) if (q.home == a) REQ(id_of(*q.p) == q.id && id_of(*q.it) == q.id, "a reference is invalid after move construction"); v.swap(t); ends[a].on = false; }
        else if (op == 11) { is("copy construct"); B t(v); t.push_back(T(0)); }
        else if (op == 12 && z % 8 == 0) { is("clear"); v.clear(); mo.clear(); drop_all(a); }
        else if (op == 13 && z % 8 == 0) { is("copy assign"); drop_all(a); v = u[1 - a]; mo = m[1 - a]; }
      }
      else {
        int id = ++next_id; unsigned cnt = z % 8 ? 1 : std::is_same_v<T, int> ? (x * 8u) % 1300 : x % 40;
        if (n > 4000) op = 6 + op % 4;
        if (op < 3) { is("push_back"); drop_its(a); for (unsigned q = 0; q < cnt; q++) { v.push_back(T(id + int(q))); mo.push_back(id + int(q)); } next_id += int(cnt); }
        else if (op < 6) { is("push_front"); drop_its(a); std::vector<int> pre; for (unsigned q = 0; q < cnt; q++) { v.push_front(T(id + int(q))); pre.push_back(id + int(q)); } std::reverse(pre.begin(), pre.end()); mo.insert(mo.begin(), pre.begin(), pre.end()); next_id += int(cnt); }
        else if (op < 8) { is("pop_back"); for (unsigned q = 0; q < cnt && !mo.empty(); q++) { drop_id(a, mo.back()); v.pop_back(); mo.pop_back(); ends[a].on = false; } }
        else if (op < 11) { is("pop_front"); unsigned q = 0; for (; q < cnt && q < mo.size(); q++) { drop_id(a, mo[q]); v.pop_front(); } if (q == mo.size()) ends[a].on = false; mo.erase(mo.begin(), mo.begin() + q); }
        else if (op == 11) { is("copy construct"); B t(v); t.push_back(T(0)); t.push_front(T(0)); }
        else if (op == 12 && z % 8 == 0) { is("clear"); v.clear(); mo.clear(); drop_all(a); }
        else if (op == 13 && z % 8 == 0) { is("copy assign"); drop_all(a); v = u[1 - a]; mo = m[1 - a]; }
      }
      // everything kept must still be what and where it was
      for (auto& k : kept) {
        const auto& h = m[k.home]; C& o = u[k.home];
        REQ(id_of(*k.p) == k.id, "a kept reference no longer refers to its element");
        if (k.its) {
          REQ(&*k.it == k.p && &*k.cit == k.p, "a kept iterator no longer refers to its element");
          std::size_t pos = Keyed<C> ? key_pos(k.home, k.id) : std::size_t(std::find(h.begin(), h.end(), k.id) - h.begin());
          if (StrL<C>) pos = std::size_t(k.p - &*o.begin());
          if (pos + 1 < h.size()) REQ(id_of(*std::next(k.it)) == h[pos + 1] && id_of(*std::next(k.cit)) == h[pos + 1], "++ from a kept iterator does not reach the next element"); else REQ(std::next(k.it) == o.end() && std::next(k.cit) == std::as_const(o).end(), "++ from a kept iterator to the last element does not reach end()");
          if constexpr (!FwdL<C>) { if (pos > 0) REQ(id_of(*std::prev(k.it)) == h[pos - 1] && id_of(*std::prev(k.cit)) == h[pos - 1], "-- from a kept iterator does not reach the element before"); else REQ(k.it == o.find_n(0, 0), "a kept iterator to the first element is not begin()"); }
          if constexpr (DeqL<C>) { REQ(std::size_t(k.it - o.find_n(0, 0)) == pos && o.end() - k.it == std::ptrdiff_t(h.size() - pos), "the distance of a kept iterator is not its position"); }
        }
        if (change) c.nontrivial = true;
      }
      for (int h = 0; h < 2; h++) if (ends[h].on) { REQ(ends[h].it == u[h].end(), "a kept end() iterator is no longer end()"); if constexpr (!FwdL<C>) if (!m[h].empty()) REQ(id_of(*std::prev(ends[h].it)) == m[h].back(), "-- from a kept end() iterator is not the last element"); }
    }
    for (int h = 0; h < 2; h++) { cur = "final laws"; all_laws(u[h], m[h], m[h].size() / 2, m[h].size()); }
  } catch (const Mismatch& e) { c.say(log); throw Mismatch{e.msg + " [during " + cur + "]"}; }
  catch (const std::exception& e) { c.say(log); throw Mismatch{std::string("unexpected exception ") + e.what() + " [during " + cur + "]"}; }
  c.say(log);
}
struct Less { using is_transparent = void; template <class A, class B> bool operator()(const A& a, const B& b) const { return key(a) < key(b); } static int key(int a) { return a; } static int key(const Fat& f) { return f.n; } };
void vf_case(Src s, Ctx& c) {
  switch (s.byte() % 14) {
#define TYPE(N, ...) case N: c.label(#__VA_ARGS__); return run<__VA_ARGS__>(s, c)
    TYPE(0, cest::vector<int>); TYPE(1, cest::vector<Fat>); TYPE(2, cest::deque<int>); TYPE(3, cest::deque<Fat>); TYPE(4, cest::list<int>); TYPE(5, cest::list<Fat>); TYPE(6, cest::forward_list<int>); TYPE(7, cest::forward_list<Fat>);
    TYPE(8, cest::set<int>); TYPE(9, cest::set<Fat, Less>); TYPE(10, cest::map<int, Fat>); TYPE(11, cest::string); case 12: TYPE(13, cest::deque<int>);
  }
}
} // namespace vf
