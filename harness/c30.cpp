// Threads over shared and private cest objects, under ThreadSanitizer.
#include "driver.hpp"
#include "interp_vector.hpp"
#include "interp_string.hpp"
#include "interp_deque.hpp"
#include "interp_list.hpp"
#include "interp_tree.hpp"
#include "interp_queue.hpp"
#include "interp_ptr.hpp"
#include "interp_stream.hpp"
#include "interp_memfile.hpp"
#include <cest/cctype.hpp>
#include <cest/cmath.hpp>
#include <cest/complex.hpp>
#include <cest/cstdio.hpp>
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/functional.hpp>
#include <cest/iostream.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/memory.hpp>
#include <cest/queue.hpp>
#include <cest/set.hpp>
#include <cest/shared_ptr.hpp>
#include <cest/sstream.hpp>
#include <cest/string.hpp>
#include <cest/swap.hpp>
#include <cest/vector.hpp>
#include <atomic>
#include <deque>
#include <forward_list>
#include <list>
#include <queue>
#include <sstream>
#include <thread>
namespace vf {
constexpr unsigned REC = 8, OPS = 16;
const Shape vf_shape{5, REC, OPS, 48};
const char* const vf_rule = "A case is a header choosing a kind of object, the number of threads and the shared object's size, and a list of 8-byte records dealt to the threads, each an operation that reads the shared object, copies it and changes the copy, writes elements owned by the thread alone, or runs a history on objects of the thread's own; it is non-trivial if at least two threads make at least two operations each.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

struct Rec8 { unsigned op, x, y, z, w; u64 seed; };
inline u64 bits(double d) { u64 b; std::memcpy(&b, &d, 8); return b; }

template <class C> constexpr bool assoc = requires { typename C::key_compare; };
template <class C> constexpr bool maplike = requires { typename C::mapped_type; };
template <class C> constexpr bool text = requires { typename C::traits_type; };
template <class C> constexpr bool indexed = requires(C& c) { c[std::size_t(0)]; } && !assoc<C>;
template <class T> T mk(unsigned n) { if constexpr (sizeof(T) == 4 || sizeof(T) == 1) return T(1 + n % 97); else return Elem<T>::make(n); }
template <class V> u64 value(const V& v) {
  if constexpr (requires { v.first; }) return mix(u64(v.first), u64(v.second)); else if constexpr (std::is_integral_v<V>) return u64(v); else return Elem<V>::val(v);
}
template <class C> void fill_up(C& c, std::size_t n, unsigned seed) {
  if constexpr (maplike<C>) for (std::size_t i = 0; i < n; i++) c.insert(std::pair<const int, int>(int((i * 37 + seed) % (2 * n + 1)), int(i)));
  else if constexpr (assoc<C>) for (std::size_t i = 0; i < n; i++) c.insert(int((i * 37 + seed) % (2 * n + 1)));
  else if constexpr (requires { c.push(1); }) for (std::size_t i = 0; i < n; i++) c.push(mk<typename C::value_type>(unsigned(i * 3 + seed) % 97));
  else if constexpr (requires { c.push_back(mk<typename C::value_type>(1)); }) for (std::size_t i = 0; i < n; i++) c.push_back(mk<typename C::value_type>(unsigned(i * 3 + seed) % 97));
  else for (std::size_t i = 0; i < n; i++) c.push_front(mk<typename C::value_type>(unsigned(i * 3 + seed) % 97));
}
template <class K, class C> u64 look_at(const C& c, std::size_t p) { if constexpr (requires(const K& k) { k.at(p); }) return mix(value(c[p]), value(c.at(p))); else return value(c[p]); }
template <class C> u64 sum(const C& c) { u64 h = 1; for (auto i = c.begin(), e = c.end(); !(i == e); ++i) h = mix(h, value(*i)); return h; }
// What a const operation yields, K being the cest type whose interface is exercised.
template <class K, class C> u64 look(const C& c, const Rec8& r) {
  if constexpr (requires { c.front(); c.back(); } && !requires { c.begin(); }) {                   // queue
    return c.empty() ? 0 : mix(value(c.front()), mix(value(c.back()), c.size()));
  } else if constexpr (assoc<C>) {
    const int n = int(c.size()), key = int((r.x * 256u + r.y) % unsigned(3 * n + 2)) - n / 2;
    switch (r.z % 6) {
      case 5: { if constexpr (requires { typename C::key_compare::is_transparent; }) { u64 h = 0; for (int q = 0; q < 12; q++) { auto i = c.find(long(key + q)); h = mix(h, i == c.end() ? 7 : value(*i)); } return h; } else { u64 h = 0; for (auto i = c.begin(); !(i == c.end()); i++) h = mix(h, value(*i)); return h; } }
      case 0: { auto i = c.find(key); return i == c.end() ? 7 : value(*i); }
      case 1: { u64 h = 0; for (int q = 0; q < 12; q++) { auto i = c.find(key + q); h = mix(h, i == c.end() ? 7 : value(*i)); } return h; }
      case 2: return mix(c.size(), c.empty());
      case 3: { if constexpr (requires(const K& k) { k.contains(key); }) return c.contains(key); else if constexpr (requires(const K& k) { k.count(key); }) return c.count(key); else return c.size(); }
      default: return sum(c);
    }
  } else {
    std::size_t n = 0;
    if constexpr (requires { c.size(); }) n = c.size(); else for (auto i = c.begin(); !(i == c.end()); ++i) ++n;
    const std::size_t p = n ? (r.x * 256u + r.y) % n : 0;
    switch (r.z % 6) {
      case 0: return c.empty() ? 3 : value(c.front());
      case 1: if constexpr (requires { c.back(); }) return n ? value(c.back()) : 3; else return n;
      case 2: if constexpr (indexed<C>) return n ? look_at<K>(c, p) : 3; else return sum(c);
      case 3: if constexpr (text<C>) { const typename C::value_type q[] = {typename C::value_type('a' + r.w % 26), 0}; if (r.w & 64) return mix(mix(c.find(q[0]), c.find(q, p)), std::char_traits<typename C::value_type>::length(c.c_str()));
                u64 h = mix(c.size(), c.find(q[0], p)); const C o(q), e(c.c_str() + p); const int cmp = c.compare(o), cmq = c.compare(q);
                h = mix(h, mix(u64(cmp < 0) + 2 * u64(cmp > 0), u64(cmq < 0) + 2 * u64(cmq > 0))); h = mix(h, mix(c.find(e), c.find(o, p))); h = mix(h, u64(c == o) * 16 + u64(c != e) * 8 + u64(c < o) * 4 + u64(q == c) * 2 + u64(c == q));
                h = mix(h, mix(c.find(q, p, 1), c.length())); return mix(h, mix(c.get_allocator() == o.get_allocator(), c.data() == c.c_str())); }
              else if constexpr (requires(const K& k) { k.rbegin(); }) { u64 h = 2; for (auto i = c.rbegin(); !(i == c.rend()); ++i) h = mix(h, value(*i)); return h; } else return sum(c);
      case 4: if constexpr (requires(const K& k) { k == k; }) return c == c; else return n;
      default: return sum(c);
    }
  }
}
// Changes a thread makes to its own copy.
template <class C> void change(C& c, const Rec8& r) {
  const unsigned n = r.w % 40;
  for (unsigned q = 0; q < n; q++) {
    const unsigned e = (r.x + q * 13) % 97;
    if constexpr (maplike<C>) c.insert(std::pair<const int, int>(int(e), int(q)));
    else if constexpr (assoc<C>) c.insert(int(e));
    else if constexpr (requires { c.push(1); }) { if (q % 3 || c.empty()) c.push(mk<typename C::value_type>(e)); else c.pop(); }
    else if constexpr (text<C>) { if (q % 4) c.push_back(mk<typename C::value_type>(e)); else { const typename C::value_type w[] = {mk<typename C::value_type>(q), mk<typename C::value_type>(e), 0}; c.append(w); } }
    else if constexpr (requires { c.push_back(c.front()); }) { if (q % 4) c.push_back(mk<typename C::value_type>(e)); else if (!c.empty()) { c.front() = mk<typename C::value_type>(q); c.pop_back(); } }
    else { if (q % 4) c.push_front(mk<typename C::value_type>(e)); else if (!c.empty()) { c.front() = mk<typename C::value_type>(q); c.pop_front(); } }
  }
  if (r.z % 7 == 0) { if constexpr (requires { c.clear(); }) c.clear(); }
}
template <class C> u64 whole(const C& c) {
  if constexpr (requires { c.begin(); }) return sum(c);
  else { C t(c); u64 h = 1; while (!t.empty()) { h = mix(h, value(t.front())); t.pop(); } return h; }
}
// Writes to the elements whose position is t modulo the number of threads.
template <class C> void write_own(C& c, const Rec8& r, unsigned t, unsigned threads) {
  if constexpr (indexed<C> || (!assoc<C> && requires { c.begin(); })) {
    if constexpr (indexed<C>) if (r.z & 1) {
      const std::size_t n = c.size();
      for (std::size_t q = 0, p = (r.x * 256u + r.y) % (n + 1); q < 20; q++, p += threads) {
        const std::size_t i = p - p % threads + t;
        if (i < n) { if constexpr (requires { c.at(i); }) { if (r.z & 2) { c.at(i) = mk<typename C::value_type>(unsigned(r.w + q)); continue; } }
        if (i < n) c[i] = mk<typename C::value_type>(unsigned(r.w + q)); }
      }
      return;
    }
    unsigned i = 0;
    for (auto b = c.begin(); !(b == c.end()); ++b, ++i) if (i % threads == t && (i + r.x) % 3 == 0) {
      *b = mk<typename C::value_type>(unsigned(r.w + i));
    }
  }
}

// A history on objects of the thread's own.
struct MRef {
  struct St { std::vector<char> d; std::size_t pos = 0; };
  using File = St*;
  static File open(char* b, std::size_t n, const char*) { return new St{std::vector<char>(b, b + n), 0}; }
  static std::size_t read(char* b, std::size_t n, File f) { std::size_t m = std::min(n, f->d.size() - f->pos); for (std::size_t i = 0; i < m; i++) b[i] = f->d[f->pos++]; return m; }
  static int close(File f) { delete f; return 0; }
};
struct MCest {
  using File = cest::FILE*;
  static File open(char* b, std::size_t n, const char* m) { return cest::fmemopen(b, n, m); }
  static std::size_t read(char* b, std::size_t n, File f) { return cest::fread(b, 1, n, f); }
  static int close(File f) { return cest::fclose(f); }
};
template <class T> using SS = std::shared_ptr<T>;
template <class T> using CS = cest::shared_ptr<T>;
template <class T> using SU = std::unique_ptr<T>;
template <class T> using CU = cest::unique_ptr<T>;
struct SM { template <class T, class... A> static auto make(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); } };
struct CM { template <class T, class... A> static auto make(A&&... a) { return cest::make_unique<T>(std::forward<A>(a)...); } };
template <class O, class I> void pair_of(const Bytes& b, O&& o, I&& i) {
  RecordSink k; o(Src(b.data(), b.size()), k);
  CompareSink m{&k.r}; i(Src(b.data(), b.size()), m); m.finish();
}
#define BOTH(E_STD, E_CEST) pair_of(b, [&](Src q, auto& k) { E_STD; }, [&](Src q, auto& k) { E_CEST; })
inline void own_history(const Rec8& r) {
  Rng g(r.seed, r.x); Bytes b; for (unsigned n = 20 + r.y % 100; n--;) b.push_back((u8)g.next());
  switch (r.x % 14) {
    case 0: return BOTH((run_vec<std::vector<std::string>>(q, k, 64, 100)), (run_vec<cest::vector<std::string>>(q, k, 64, 100)));
    case 1: return BOTH((run_str<std::string>(q, k, 64, 200)), (run_str<cest::string>(q, k, 64, 200)));
    case 2: return BOTH((run_deq<std::deque<int>>(q, k, 64, 200)), (run_deq<cest::deque<int>>(q, k, 64, 200)));
    case 3: return BOTH((run_list<std::list<std::string>>(q, k, 60)), (run_list<cest::list<std::string>>(q, k, 60)));
    case 4: return BOTH((run_fl<std::forward_list<int>>(q, k, 60)), (run_fl<cest::forward_list<int>>(q, k, 60)));
    case 5: return BOTH((run_set<std::set<int>>(q, k, 1, 100)), (run_set<cest::set<int>>(q, k, 1, 100)));
    case 6: return BOTH((run_map<std::map<int, int>>(q, k, 1, 100)), (run_map<cest::map<int, int>>(q, k, 1, 100)));
    case 7: return BOTH((run_q<std::queue<int, std::deque<int>>, std::deque<int>>(q, k, 64)), (run_q<cest::queue<int>, cest::queue<int>::container_type>(q, k, 64)));
    case 8: return BOTH((run_uptr<SU, SM>(q, k)), (run_uptr<CU, CM>(q, k)));
    case 9: return BOTH((run_schain<SS>(q, k)), (run_schain<CS>(q, k)));
    case 10: return BOTH((run_func<std::function<int(int)>>(q, k)), (run_func<cest::function<int(int)>>(q, k)));
    case 11: return BOTH((run_func<std::function<void(int, int&)>, CallVoid>(q, k)), (run_func<cest::function<void(int, int&)>, CallVoid>(q, k)));
    case 12: return BOTH((run_is<std::stringstream, std::string>(q, k, 100)), (run_is<cest::stringstream, cest::string>(q, k, 100)));
    default: return BOTH((run_mf<MRef>(q, k)), (run_mf<MCest>(q, k)));
  }
}
// Functions of their arguments alone.
inline u64 pure(const Rec8& r) {
  const double a = (int(r.x) - 128) * 0.25 + r.y / 64.0, b = (int(r.z) - 90) * 0.5;
  u64 h = 0; auto put = [&](double d) { h = mix(h, bits(d)); };
  switch (r.w % 8) {
    case 0: put(cest::sin(a)); put(cest::cos(b)); put(cest::sin(b)); break;
    case 1: put(cest::sqrt(a * a)); put(cest::exp(a)); put(cest::log(a * a + 1)); break;
    case 2: put(cest::atan(a)); put(cest::atan2(a, b)); put(cest::sinh(b / 4)); put(cest::cosh(a / 4)); break;
    case 3: put(cest::floor(a)); put(cest::ceil(b)); put(cest::abs(a)); put(cest::fabs(b)); put(cest::pow(a, int(r.z % 9))); break;
    case 4: for (int q = -1; q < 256; q += 1 + int(r.z % 5)) h = mix(h, u64(cest::isalnum(q) != 0) * 2 + (cest::isupper(q) != 0)); break;
    case 5: { cest::complex<double> p(a, b), q(b, a + 1), s = p * q / (q + p); put(s.real()); put(s.imag()); put(cest::abs(p)); put(cest::norm(q)); put(cest::arg(p)); auto e = cest::exp(p / 8.0); put(e.real()); break; }
    case 6: { std::string s1 = "one", s2(r.x, 'x'), s3 = "three", s4(r.y % 50, 'y'); nary::swap(s1, s2, s3, s4); nary::swapr(s3, s1, s2); for (auto* s : {&s1, &s2, &s3, &s4}) h = mix(h, Elem<std::string>::val(*s)); break; }
    default: { cest::string s = "text"; s += "more"; s += s; cest::istringstream i(s); char c = 0; i.get(c); h = mix(u64(c), s.size()); break; }
  }
  return h;
}

struct Obj { std::atomic<int>* dead; int v; std::string s; Obj(std::atomic<int>* d, int x) : dead(d), v(x), s(std::size_t(x % 50), 'o') {} ~Obj() { dead->fetch_add(1, std::memory_order_relaxed); } };

template <class CC, class SC> struct World {
  CC read, own; SC mread, mown;
  static void go(const std::vector<std::vector<Rec8>>& todo, std::size_t n, unsigned seed) {
    const unsigned threads = unsigned(todo.size());
    CC read, own; SC mread, mown;
    fill_up(read, n, seed); fill_up(own, n, seed + 1); fill_up(mread, n, seed); fill_up(mown, n, seed + 1);
    std::atomic<int> dead{0};
    cest::shared_ptr<Obj> first(new Obj(&dead, int(seed)));
    std::vector<cest::shared_ptr<Obj>> owners(threads, first);
    const cest::shared_ptr<const std::string> common(new std::string(seed % 60, 'c'));
    const cest::unique_ptr<std::string> sole(new std::string(seed % 70, 's'));
    const cest::function<int(int)> fn = [v = int(seed), s = std::string(seed % 30, 'f')](int a) { return a * v + int(s.size()); };
    const cest::function<void(int, int&)> vfn = [v = int(seed)](int a, int& out) { out = a - v; };
    const cest::string txt(std::string(seed % 100, 't').c_str());
    const cest::istringstream in(txt);
    first = cest::shared_ptr<Obj>();
    const CC& cread = read; const SC& cmread = mread;
    std::vector<std::string> err(threads); std::vector<std::vector<std::pair<Rec8, u64>>> later(threads);
    // Threads wait for one another without synchronising, so that the detector takes
    // nothing between two meetings for ordered. What counts owners, and therefore does
    // synchronise, comes after the rest.
    std::atomic<unsigned> met[3] = {};
    auto meet = [&](int i) { met[i].fetch_add(1, std::memory_order_relaxed); while (met[i].load(std::memory_order_relaxed) < threads) std::this_thread::yield(); };
    auto body = [&](unsigned t) {
      unsigned at = 0; struct Rest { decltype(meet)& m; unsigned& at; ~Rest() { while (at < 3) m(at++); } } rest{meet, at};   // also on an exception
      try {
        auto want = [](bool c, const char* w) { if (!c) throw Mismatch{w}; };
        cest::shared_ptr<Obj> mine(owners[t]); owners[t] = cest::shared_ptr<Obj>();
        meet(int(at++));
        for (int pass = 0; pass < 2; pass++) { for (const Rec8& r : todo[t]) if ((r.op == 12 || r.op == 13) == (pass == 1)) switch (r.op) {
          case 0: case 1: case 2: case 3: want(look<CC>(cread, r) == look<CC>(cmread, r), "a const operation on a shared object gave another result than alone"); break;
          case 4: case 5: { CC c(cread); SC m(cmread); want(whole(c) == whole(m), "a copy of a shared object differs"); change(c, r); change(m, r); want(whole(c) == whole(m), "a changed copy differs"); if (r.y & 1) { c = cread; m = cmread; change(c, r); change(m, r); want(whole(c) == whole(m), "an assigned copy differs"); } break; }
          case 6: case 7: write_own(own, r, t, threads); break;
          case 8: case 9: own_history(r); break;
          case 10: case 11: later[t].emplace_back(r, pure(r)); break;
          case 12: { cest::shared_ptr<Obj> a(mine), b(a), c; c = b; a = c; want(c->v == int(seed) && c.get() == mine.get() && c.use_count() >= 4 && c.use_count() <= 5 * long(threads), "a shared pointer went wrong"); break; }
          case 13: { cest::shared_ptr<const std::string> a(common), b; b = common; want(*a == *common && b->size() == seed % 60 && common.use_count() >= 3 && *sole == *sole.get() && sole->size() == seed % 70 && bool(sole), "a shared pointer went wrong"); break; }
          case 14: { int o = 0; vfn(int(r.x), o); want(fn(int(r.x)) == int(r.x) * int(seed) + int(seed % 30) && o == int(r.x) - int(seed), "a shared function gave another result"); cest::function<int(int)> f(fn); want(f(3) == fn(3), "a copied function gave another result"); break; }
          default: { want(in.good() && !in.eof() && !in.fail() && in.str() == txt && txt.size() == seed % 100, "a shared stream gave another result"); cest::istringstream i(in.str()); char ch; unsigned q = 0; while (i.get(ch)) ++q; want(q == txt.size(), "a stream made from a shared one delivered other characters"); break; }
        }
        meet(int(at++)); }
      } catch (const Mismatch& m) { err[t] = m.msg; if (err[t].empty()) err[t] = "?"; }
        catch (const std::exception& e) { err[t] = std::string("unexpected exception: ") + e.what(); }
    };
    { std::vector<std::thread> th; for (unsigned t = 0; t < threads; t++) th.emplace_back(body, t); for (auto& x : th) x.join(); }
    for (auto& e : err) if (!e.empty()) throw Mismatch{e};
    for (unsigned t = 0; t < threads; t++) for (const Rec8& r : todo[t]) if (r.op == 6 || r.op == 7) write_own(mown, r, t, threads);
    if (whole(own) != whole(mown)) throw Mismatch{"writes of different threads to different elements were lost or misplaced"};
    if (whole(read) != whole(mread)) throw Mismatch{"a shared object changed although it was only read"};
    if (dead != 1) throw Mismatch{"an object shared by the threads was deleted " + std::to_string(int(dead)) + " times once they had ended"};
    if (common.use_count() != 1) throw Mismatch{"a shared pointer's count is " + std::to_string(common.use_count()) + " after its copies are gone"};
    for (auto& l : later) for (auto& [r, v] : l) if (pure(r) != v) throw Mismatch{"a function gave another result while other threads ran"};
  }
};
// What is only set up at its first use is first used by several threads at once.
inline void first_use() {
  static bool done = false; if (done) return; done = true;
  std::atomic<int> ready{0}; std::vector<std::string> err(4);
  auto body = [&](unsigned t) {
    try {
      ++ready; while (ready < 4) {}
      for (unsigned q = 0; q < 24; q++) pure(Rec8{0, 40 + q * 7, q, 100 + q, t & 1 ? q : 23 - q, q});
      for (unsigned q = 0; q < 14; q++) own_history(Rec8{0, (q + t * 5) % 14, 60, 0, 0, 77});
    } catch (const Mismatch& m) { err[t] = m.msg + " "; }
  };
  std::vector<std::thread> th; for (unsigned t = 0; t < 4; t++) th.emplace_back(body, t);
  for (auto& x : th) x.join();
  for (auto& e : err) if (!e.empty()) throw Mismatch{e};
}
void vf_case(Src s, Ctx& c) {
  first_use();
  const unsigned kind = s.byte(), threads = 2 + s.byte() % 3, sz = s.byte(), sz2 = s.byte(), seed = s.byte();
  std::vector<std::vector<Rec8>> todo(threads);
  for (unsigned i = 0; !s.done(); i++) { Rec8 r{}; r.op = s.byte() % OPS; r.x = s.byte(); r.y = s.byte(); r.z = s.byte(); r.w = s.byte(); r.seed = s.byte() | u64(s.byte()) << 8; todo[s.byte() % threads].push_back(r); }
  unsigned busy = 0; for (auto& t : todo) busy += t.size() >= 2;
  c.nontrivial = busy >= 2;
  std::size_t n = sz < 200 ? sz % 40 : sz * 3 + sz2;
#define GO(l, ...) { c.label(l); for (int q = 0; q < (c.replay ? 6 : 1); q++) World<__VA_ARGS__>::go(todo, n, seed); return; }
  switch (kind % 12) {
    case 0: GO("vector of int", cest::vector<int>, std::vector<int>)
    case 1: GO("vector of string", cest::vector<std::string>, std::vector<std::string>)
    case 2: GO("string", cest::string, std::string)
    case 3: GO("wstring", cest::wstring, std::wstring)
    case 4: GO("deque", cest::deque<int>, std::deque<int>)
    case 5: GO("list", cest::list<std::string>, std::list<std::string>)
    case 6: GO("forward_list", cest::forward_list<int>, std::forward_list<int>)
    case 7: GO("set", cest::set<int>, std::set<int>)
    case 10: GO("set, transparent", cest::set<int, std::less<>>, std::set<int, std::less<>>)
    case 11: GO("map, transparent", cest::map<int, int, std::less<>>, std::map<int, int, std::less<>>)
    case 8: GO("map", cest::map<int, int>, std::map<int, int>)
    default: GO("queue", cest::queue<int>, std::queue<int>)
  }
}
} // namespace vf
