#include "driver.hpp"
#include "interp_ptr.hpp"
#include <cest/functional.hpp>
#include <functional>
#include <memory>
namespace vf {
const Shape vf_shape{1, FN_REC, 32, 120};
const char* const vf_rule = "A case is a header choosing a signature (int(int) with many kinds of target, or references, move-only, const and string arguments and results) and a list of 4-byte operation records over four functions (targets keep state between calls, take 0 to 12 arguments and call themselves); it is non-trivial if it makes at least 4 operations.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

// By-value arguments: copies are counted (moves are not compared: their number is unspecified).
struct Tally { static inline unsigned copies = 0; std::string t; explicit Tally(int v) : t(std::to_string(v) + " and some more text") {} Tally(const Tally& o) : t(o.t) { ++copies; } Tally(Tally&& o) noexcept : t(std::move(o.t)) {} Tally& operator=(const Tally&) = delete; };
struct MoveOnly { std::unique_ptr<int> p; explicit MoveOnly(int v) : p(new int(v)) {} MoveOnly(MoveOnly&&) = default; };

// A target that counts its copies: never more than std::function's (moves are not compared).
struct Heavy { Tally t; explicit Heavy(int v) : t(v) {} int operator()(int x) { t.t += char('a' + (x & 7)); return int(t.t.size()) + x; } };
struct HeavyV { Tally t; explicit HeavyV(int v) : t(v) {} void operator()(int x, unsigned& out) { t.t += char('a' + (x & 7)); out = out * 31 + unsigned(t.t.size()); } };
template <class W, class H, class Call> void run_heavy(unsigned z, int v, Call call) {
  H h(v); W f = z & 1 ? W(h) : W(H(v)); call(f);
  W g = z & 2 ? W(f) : W(std::move(f)); call(g);
  if (z & 4) f = h; else if (z & 8) f = H(v + 1); else f = g;
  call(f); if (z & 16) { g = std::move(f); call(g); } else { g = f; call(g); call(f); }
  call(h);
}
// A target that tells how it was called: as what, and with arguments of which kinds.
struct Kinds {
  int n = 0;
  template <class A> static u64 kind() { return std::is_lvalue_reference_v<A> ? std::is_const_v<std::remove_reference_t<A>> ? 2 : 1 : std::is_const_v<std::remove_reference_t<A>> ? 4 : 3; }
  template <class... A> u64 tell(u64 how) { u64 h = how; ((h = h * 8 + kind<A&&>()), ...); return h * 1000 + u64(++n % 1000); }
  template <class... A> u64 operator()(A&&...) & { return tell<A...>(1); }
  template <class... A> u64 operator()(A&&...) && { const u64 r = tell<A...>(2); n = 500; return r; }
  template <class... A> u64 operator()(A&&...) const & { return Kinds(*this).template tell<A...>(3); }
  template <class... A> u64 operator()(A&&...) const && { return Kinds(*this).template tell<A...>(4); }
};
struct KindsV { Kinds k; template <class... A> void operator()(u64& out, A&&... a) & { out = k(static_cast<A&&>(a)...); } template <class... A> void operator()(u64& out, A&&... a) && { out = std::move(k)(static_cast<A&&>(a)...); } template <class... A> void operator()(u64& out, A&&... a) const & { out = k(static_cast<A&&>(a)...); } };
// Arguments and results of every kind pass through unchanged.
template <template <class> class F, class S> void run_args(Src s, S& k) {
  int cell[4] = {1, 2, 3, 4}; unsigned calls = 0; std::string big = "a string long enough to be on the heap";
  F<void(int&)> inc = [&](int& x) { ++calls; x += 3; };
  F<int&(int&)> ref = [&](int& x) -> int& { ++calls; return x; };
  F<const int*(const int&)> addr = [&](const int& x) { ++calls; return &x; };
  F<int(MoveOnly)> take = [&](MoveOnly m) { ++calls; return *m.p; };
  F<MoveOnly(int)> give = [&](int v) { ++calls; return MoveOnly(v); };
  F<MoveOnly(MoveOnly&&)> pass = [&](MoveOnly&& m) { ++calls; return std::move(m); };
  F<std::string(std::string, const std::string&, std::string&)> cat = [&](std::string a, const std::string& b, std::string& c) { ++calls; std::string r = a + b + c; a = "x"; c += "!"; return r; };
  F<void()> none = [&] { ++calls; };
  F<int()> state = [n = 0]() mutable { return ++n; };
  F<double(int, double, char, unsigned long long, const char*)> many = [&](int a, double b, char c, unsigned long long d, const char* e) { ++calls; return a + b * 2 + c * 3 + double(d % 1000) * 5 + e[0]; };
  F<bool(const void*)> self = [&](const void* p) { ++calls; return p == &cell[2]; };
  F<void(int)> discards = [&](int v) { ++calls; return v; };           // a result is dropped
  struct Member { int b; int operator()(int x) { return b = (b * 2 + x) % 100003; } };
  F<long(short)> conv = Member{1};
  F<void(int, Tally)> sink = [sum = 0ull, &calls, &cell](int v, Tally g) mutable { ++calls; sum = sum * 31 + u64(v) + g.t.size(); cell[3] = int(sum % 1000003); };
  F<Tally(Tally, const Tally&)> through = [&](Tally g, const Tally& o) { ++calls; g.t += o.t; return g; };
  F<std::size_t(Tally&&)> rv = [&](Tally&& g) { ++calls; Tally m(std::move(g)); return m.t.size(); };
  F<Tally(Tally, int)> keep = [&](Tally g, int v) { calls += unsigned(v & 3); return g; };
  F<long(Tally, Tally)> both = [&](const Tally& g, Tally h) { ++calls; return long(g.t.size()) * 100 + long(h.t.size()); };
  F<void(Tally)> ignore = [n = 0, &calls](const Tally& g) mutable { calls += unsigned(++n) + unsigned(g.t.size()); };
  struct Odd { char a; double b; short c; constexpr bool operator==(const Odd&) const = default; };
  F<u64(int, char, long, short, unsigned, bool, int, u64, signed char)> nine = [&](int a, char b, long c, short d, unsigned e, bool f, int g, u64 h, signed char i) { ++calls; return mix(mix(mix(mix(mix(mix(mix(mix(mix(1, u64(a)), u64(b)), u64(c)), u64(d)), e), f), u64(g)), h), u64(i)); };
  F<void(int, int, int&, int, int, int, const std::string&, int&, int, double, Odd, int)> twelve = [&](int a, int b, int& c, int d, int e, int f, const std::string& g, int& h, int i, double j, Odd l, int m) { ++calls; c = (a * 3 + b * 5 + d * 7 + e * 11 + f * 13 + int(g.size())) % 1000003; h = (i * 17 + int(j * 8) + int(l.a) + int(l.b) + int(l.c) * 19 + m * 23 + h) % 1000003; };
  F<Odd(Odd, Odd&, const Odd*, Odd&&)> odd = [&](Odd a, Odd& b, const Odd* c, Odd&& d) { ++calls; Odd r{char(a.a ^ b.a), a.b + c->b + d.b, short(a.c - d.c)}; b = a; return r; };
  F<int(int, int)> two = [n = 0](int a, int b) mutable { n = (n * 3 + a - b) % 100003; return n; };
  F<int(int, int, int)> three = [n = 0](int a, int b, int c) mutable { n = (n * 3 + a - b + c * 7) % 100003; return n; };
  F<long(int, int&, char, long)> four = [n = 0l](int a, int& b, char c, long d) mutable { n = (n * 3 + a + c * 5 + d) % 100003; b = int(n); return n; };
  F<void(int, int&, char, long, int, unsigned&)> six = [n = 0l](int a, int& b, char c, long d, int e, unsigned& f) mutable { n = (n * 3 + a + c * 5 + d - e * 7) % 100003; b = int(n); f = f * 31 + unsigned(n); };
  F<int(int, int, int, int, int, int, int)> seven = [n = 0](int a, int b, int c, int d, int e, int f, int g) mutable { n = (n * 3 + a + b * 2 + c * 3 + d * 5 + e * 7 + f * 11 + g * 13) % 100003; return n; };
  F<void(int, int&, int, std::string&, int, int, int)> sevenv = [n = 0](int a, int& b, int c, std::string& t, int d, int e, int f) mutable { n = (n * 3 + a + c * 3 + d * 5 + e * 7 + f * 11) % 100003; b = n; t += char('a' + (n & 7)); if (t.size() > 60) t.clear(); };
  F<u64(u64, u64, u64, u64, u64, u64, u64, u64)> eight = [n = u64(1)](u64 a, u64 b, u64 c, u64 d, u64 e, u64 f, u64 g, u64 h) mutable { n = mix(mix(mix(mix(mix(mix(mix(mix(n, a), b), c), d), e), f), g), h); return n; };
  // a target may call the function that holds it, to any depth
  F<int(int)> rec = [&, n = 0](int d) mutable { const int before = ++n; const int r = d > 0 ? rec(d - 1) : 0; return (r * 5 + n * 3 + before + d) % 100003; };
  F<void(int, u64&)> recv = [&, n = u64(3)](int d, u64& acc) mutable { n = mix(n, u64(d)); for (int i = 0; i < 2 && d > 0; i++) recv(d - 1 - i, acc); acc = mix(acc, n); };
  F<std::string(int, std::string)> recs = [&, depth = 0](int d, std::string t) mutable { ++depth; t += char('a' + depth % 26); std::string r = d > 0 ? recs(d - 1, t) + t : t; --depth; return r; };
  F<const char*(const char*, unsigned)> tail = [](const char* p, unsigned n) { return p + n; };
  F<u64(int, int&, const int&, int&&, const int&&, std::string, const std::string&, std::string&&, const std::string)> kinds = Kinds{};
  F<u64(u64)> kind1 = Kinds{}; F<u64(std::string&)> kindl = Kinds{}; F<u64()> kind0 = Kinds{};
  F<void(u64&, int, int&, const int&, std::string&&, Tally)> kindv = KindsV{};
  while (!s.done()) {
    unsigned op = s.byte() % 32, x = s.byte(), y = s.byte(), z = s.byte();
    int v = int(x * 256u + y) - 30000;
    switch (op) {
      case 0: k.op("void(int&)"); inc(cell[z % 4]); break;
      case 1: k.op("int&(int&)"); { int& r = ref(cell[z % 4]); k.check(&r == &cell[z % 4], "the reference returned is not the argument"); r += v; } break;
      case 2: k.op("const int*(const int&)"); k.check(addr(cell[z % 4]) == &cell[z % 4], "a reference argument was copied"); break;
      case 3: k.op("int(MoveOnly)"); k.obs("taken", u64(take(MoveOnly(v)))); break;
      case 4: k.op("MoveOnly(int)"); k.obs("given", u64(*give(v).p)); break;
      case 5: { k.op("MoveOnly(MoveOnly&&)"); MoveOnly m(v); const int* p = m.p.get(); MoveOnly r = pass(std::move(m)); k.check(r.p.get() == p, "a move-only argument lost its identity"); break; }
      case 6: { k.op("string(string, const string&, string&)"); std::string a(z % 40, 'a'), b = std::to_string(v), c = big.substr(0, 20 + y % 10); const std::string a0 = a; k.obs("cat", Elem<std::string>::val(cat(a, b, c))); k.check(a == a0, "a by-value argument changed at the caller"); k.obs("c", Elem<std::string>::val(c)); break; }
      case 7: k.op("void()"); none(); break;
      case 8: k.op("int() with state"); k.obs("state", u64(state())); { F<int()> t(state); k.obs("copy", u64(t())); k.obs("copy", u64(t())); } k.obs("state", u64(state())); break;
      case 9: { k.op("many"); char e[2] = {char(z), 0}; double r = many(v, x * 0.25, char(y), u64(v) * 77777777777ull, e); u64 b; std::memcpy(&b, &r, 8); k.obs("many", b); break; }
      case 10: k.op("bool(const void*)"); k.obs("self", self(&cell[z % 4])); break;
      case 11: k.op("discarded result"); discards(v); break;
      case 12: k.op("long(short)"); k.obs("conv", u64(conv(short(v)) & 0xffff)); conv = Member{int(z)}; break;
      case 15: { k.op("void(int, Tally)"); Tally g(v); Tally::copies = 0; if (z & 1) sink(v, g); else sink(v, Tally(v)); k.at_most("copies of the argument", Tally::copies); k.obs("argument", g.t.size()); if (z & 2) { F<void(int, Tally)> t(sink); t(v, Tally(z)); if (z & 4) sink = t; } break; }
      case 16: { k.op("Tally(Tally, const Tally&)"); Tally g(v), h(y); Tally::copies = 0; Tally r = z & 1 ? through(g, h) : through(Tally(v), h); k.at_most("copies of the argument", Tally::copies); k.obs("text", Elem<std::string>::val(r.t)); k.check(!g.t.empty() && !h.t.empty(), "an argument was emptied"); break; }
      case 17: { k.op("size_t(Tally&&)"); Tally g(v); Tally::copies = 0; k.obs("size", rv(std::move(g))); k.at_most("copies of the argument", Tally::copies); k.check(g.t.empty(), "an rvalue argument was not passed on as one"); break; }
      case 18: { k.op("void(Tally) with state"); Tally::copies = 0; ignore(Tally(v)); k.at_most("copies of the argument", Tally::copies); break; }
      case 19: { k.op("all by value"); Tally g(v); Tally::copies = 0; Tally r = z & 1 ? keep(g, v) : keep(Tally(v), v); k.obs("both", u64(both(Tally(y), z & 2 ? g : Tally(z)))); k.at_most("copies of the argument", Tally::copies); k.obs("text", Elem<std::string>::val(r.t)); k.obs("argument", g.t.size()); break; }
      case 20: { k.op("copies of the target, int(int)"); Tally::copies = 0; run_heavy<F<int(int)>, Heavy>(z, v, [&](auto& f) { k.obs("result", u64(f(y))); }); k.at_most("copies of the target", Tally::copies); break; }
      case 21: { k.op("copies of the target, void(int, unsigned&)"); Tally::copies = 0; unsigned acc = y; run_heavy<F<void(int, unsigned&)>, HeavyV>(z, v, [&](auto& f) { f(int(x), acc); k.obs("result", acc); }); k.at_most("copies of the target", Tally::copies); break; }
      case 22: k.op("nine arguments"); k.obs("nine", nine(v, char(x), long(v) * 1000003, short(y * 257), z * 70001u, y & 1, -v, u64(v) << 31, static_cast<signed char>(z))); if (z % 3 == 0) { auto t = nine; nine = t; } break;
      case 23: { k.op("twelve arguments"); twelve(v, x, cell[z % 4], y, z, -v, big, cell[(z / 4) % 4], v / 3, v * 0.125, Odd{char(x), double(y), short(z)}, x * y); if (z & 64) { auto t = twelve; twelve = std::move(t); } break; }
      case 24: { k.op("structures"); Odd a{char(x), v * 0.5, short(v)}, b{char(y), 2.5, 7}, c{1, double(z), 3}, b0 = b; Odd r = odd(a, b, &c, Odd{4, 0.25, short(z)}); k.check(b == a && !(b == b0 && !(a == b0)), "a reference argument was not written"); k.obs("a", u64(r.a)); k.obs("b", u64(long(r.b * 8))); k.obs("c", u64(r.c)); break; }
      case 26: { k.op("two to four arguments"); k.obs("two", u64(two(v, y))); k.obs("three", u64(three(v, y, z))); k.obs("four", u64(four(v, cell[z % 4], char(x), y))); if (z & 64) { auto t = four; k.obs("four", u64(t(v, cell[1], char(y), z))); if (z & 32) four = t; } break; }
      case 27: { k.op("six to eight arguments"); unsigned f = y; six(v, cell[z % 4], char(x), y, z, f); k.obs("six", f); k.obs("seven", u64(seven(v, x, y, z, -v, x ^ y, y ^ z))); k.obs("eight", eight(u64(v), x, y, z, u64(v) << 32, x * y, y * z, ~0ull)); if (z & 64) { auto t = seven; k.obs("seven", u64(t(1, 2, 3, x, y, z, v))); if (z & 32) seven = std::move(t); } break; }
      case 28: { k.op("seven arguments, void"); sevenv(v, cell[z % 4], x, big, y, z, -v); if (z & 64) { auto t = sevenv; t(x, cell[0], y, big, z, v, 1); } break; }
      case 29: { k.op("recursion", y % 14); k.obs("rec", u64(rec(int(y % 40)))); u64 acc = x; recv(int(z % 7), acc); k.obs("recv", acc); if (z & 16) { std::string t = recs(int(x % 9), "t"); k.obs("recs", Elem<std::string>::val(t)); } break; }
      case 30: { k.op("kinds of arguments"); const int ci = 3; const std::string cs("const"); k.obs("kinds", kinds(v, cell[0], cell[1], int(x), std::move(ci), big, big, std::string("t"), cs)); k.obs("kind1", kind1(y)); k.obs("kindl", kindl(big)); k.obs("kind0", kind0());
          if (z & 16) { auto t = kinds; k.obs("kinds", t(v, cell[1], ci, int(y), std::move(ci), cs, cs, std::string("u"), big)); if (z & 32) kinds = t; else if (z & 64) kinds = std::move(t); } if (z & 1) { const auto& ck = kind1; k.obs("kind1", ck(x)); } break; }
      case 31: { k.op("kinds of arguments, void"); u64 out = 0; kindv(out, v, cell[2], int(y), std::string("v"), Tally(v)); k.obs("kinds", out); if (z & 16) { F<void(u64&, int, int&, const int&, std::string&&, Tally)> t(kindv); t(out, v, cell[3], cell[1], std::string("w"), Tally(1)); k.obs("kinds", out); if (z & 32) kindv = t; } break; }
      case 25: { k.op("pointers"); const char* p = tail(big.c_str(), z % 20); k.check(p == big.c_str() + z % 20, "a pointer changed on the way"); break; }
      default: { k.op("copies"); F<void(int&)> t(inc); inc = t; t(cell[0]); F<std::string(std::string, const std::string&, std::string&)> u(cat); std::string c1 = "c"; k.obs("cat", Elem<std::string>::val(u("a", "b", c1))); F<void()> n2 = none; none = n2; n2(); break; }
    }
    k.obs("calls", calls); for (int q : cell) k.obs("cell", u64(q));
  }
}
template <class T> using SF = std::function<T>;
template <class T> using CF = cest::function<T>;
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte();
  c.nontrivial = (s.n - s.i) / FN_REC >= 4;
  if (cfg % 3) { c.label("int(int)"); return differential(s, c, [&](Src q, auto& k) { run_func<std::function<int(int)>>(q, k); }, [&](Src q, auto& k) { run_func<cest::function<int(int)>>(q, k); }); }
  if (cfg % 2) { c.label("void(int, int&)"); return differential(s, c, [&](Src q, auto& k) { run_func<std::function<void(int, int&)>, CallVoid>(q, k); }, [&](Src q, auto& k) { run_func<cest::function<void(int, int&)>, CallVoid>(q, k); }); }
  c.label("signatures");
  differential(s, c, [&](Src q, auto& k) { run_args<SF>(q, k); }, [&](Src q, auto& k) { run_args<CF>(q, k); });
}
} // namespace vf
