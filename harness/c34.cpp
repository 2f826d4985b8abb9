#include "driver.hpp"
#include "interp_stream.hpp"
#include <cest/sstream.hpp>
#include <cest/iostream.hpp>
#include <memory>
#include <sstream>
namespace vf {
constexpr unsigned UB_OPS = 24, UB_REC = 4;
const Shape vf_shape{8, UB_REC, UB_OPS, 120};
const char* const vf_rule = "A case is a header describing a stream buffer class (how it hands out its characters, its contents, where it pauses, fails or throws) and the character type and traits, and a list of 4-byte operation records on a stream over it; it is non-trivial if it makes at least 4 operations of which at least two read or unget.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

struct Oops { unsigned where; };

struct Plan { unsigned mode, len, text, seed, chunk, fault, keep, ret; };

// The user's stream buffer: Base is the standard's class or cest's.
template <class Base> struct User : Base {
  using C = typename Base::char_type; using T = typename Base::traits_type; using I = typename Base::int_type;
  std::shared_ptr<Buf<C>> text; std::size_t n, at = 0;      // at: the place in the text of the end of the get area
  Plan p; unsigned calls = 0, syncs = 0; C one{};
  explicit User(const Plan& q) : text(std::make_shared<Buf<C>>(q.len)), n(q.len), p(q) {
    fill(text->p, n, p.text, p.seed);
    for (std::size_t k = 0; k < n; k++) if (T::eq_int_type(T::to_int_type(text->p[k]), T::eof())) text->p[k] = C(9);
    if (p.mode % 5 == 3) { at = n; this->setg(text->p, text->p + (n ? p.keep % (n + 1) : 0), text->p + n); }
  }
  User(const User& o) : Base(o), text(o.text), n(o.n), at(o.at), p(o.p), calls(o.calls), syncs(o.syncs) {}
  bool same_area(const User& o) const { return this->eback() == o.eback() && this->gptr() == o.gptr() && this->egptr() == o.egptr(); }
  std::size_t left() const { return std::size_t(this->egptr() - this->gptr()); }
  std::size_t before() const { return std::size_t(this->gptr() - this->eback()); }
protected:
  // a pause: the end is reported once, and there is more later; a fault: thrown once
  bool pauses() {
    ++calls;
    if (p.fault % 8 == 5 && calls == 1 + p.fault / 8 % 6) throw Oops{calls};
    return p.fault % 8 == 6 && calls == 1 + p.fault / 8 % 6;
  }
  void area(std::size_t from, std::size_t cur, std::size_t to) { this->setg(text->p + from, text->p + cur, text->p + to); at = to; }
  I underflow() override {
    if (p.mode % 5 == 4) return Base::underflow();                                       // not overridden
    if (this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
    if (pauses() || at >= n) return T::eof();
    if (p.mode % 5 == 1) return T::to_int_type(text->p[at]);                             // no get area at all
    if (p.mode % 5 == 3) return T::eof();
    const std::size_t k = std::min<std::size_t>(n - at, 1 + (p.chunk + at * 7) % (1 + p.chunk % 9)), back = std::min<std::size_t>(at, p.keep % 4);
    area(at - back, at, at + k);
    return T::to_int_type(*this->gptr());
  }
  I uflow() override {
    if (p.mode % 5 != 1) return Base::uflow();
    if (pauses() || at >= n) return T::eof();
    return T::to_int_type(text->p[at++]);
  }
  I pbackfail(I c = T::eof()) override {
    if (p.fault % 8 == 4) return Base::pbackfail(c);                                     // not supported
    if (p.mode % 5 == 1) { if (!at) return T::eof(); --at; return T::to_int_type(text->p[at]); }
    if (p.mode % 5 == 3 || p.mode % 5 == 4) return Base::pbackfail(c);
    const std::size_t cur = at - left();
    if (!cur) return T::eof();
    if (p.fault % 8 == 7 && cur == p.fault / 8) throw Oops{~0u};
    area(cur - 1 - std::min<std::size_t>(cur - 1, p.keep / 4 % 4), cur - 1, at);
    return T::to_int_type(*this->gptr());
  }
  std::streamsize xsgetn(C* s, std::streamsize k) override {
    if (p.mode % 5 != 2) return Base::xsgetn(s, k);
    const std::size_t cur = at - left(), m = std::min<std::size_t>(std::size_t(k), n - cur);   // straight from the source
    T::copy(s, text->p + cur, m); area(cur + m, cur + m, cur + m);
    return std::streamsize(m);
  }
  int sync() override { ++syncs; if (p.ret % 8 == 1) return -1; if (p.ret % 8 == 2 && syncs == 2) throw Oops{syncs}; return p.ret % 8 == 3 ? Base::sync() : 0; }
};

template <class IS> struct Late : IS {                       // a stream class of the user's own
  using Base = std::remove_pointer_t<decltype(std::declval<IS&>().rdbuf())>;
  User<Base> own;
  explicit Late(const Plan& p) : IS(nullptr), own(p) { this->init(&own); }
};

template <class BufBase, class IS, class OS, class S> void run(Src s, S& k) {
  using C = typename BufBase::char_type; using T = typename BufBase::traits_type; using U = User<BufBase>;
  Plan p; p.mode = s.byte(); p.len = s.byte(); p.len = p.len < 180 ? p.len % 40 : p.len < 250 ? p.len : 3000; p.text = s.byte(); p.seed = s.byte(); p.chunk = s.byte(); p.fault = s.byte(); p.keep = s.byte();
  p.ret = p.keep / 8;
  std::unique_ptr<Late<IS>> late; std::unique_ptr<U> buf; std::unique_ptr<IS> own;
  if (p.seed % 4 == 0) late = std::make_unique<Late<IS>>(p); else { buf = std::make_unique<U>(p); own = std::make_unique<IS>(buf.get()); }
  IS& i = late ? static_cast<IS&>(*late) : *own; U& b = late ? late->own : *buf;
  k.check(i.rdbuf() == &b, "rdbuf is not the buffer given"); k.check(!i.tie(), "the stream is tied");
  auto st = [](unsigned b) { auto r = IS::goodbit; if (b & 1) r = r | IS::eofbit; if (b & 2) r = r | IS::failbit; if (b & 4) r = r | IS::badbit; return r; };
  auto ch = [&](auto v) { k.obs("character", T::eq_int_type(v, T::eof()) ? ~u64(0) : u64(T::to_char_type(v))); };
  auto guard = [&](auto&& f) {
    u64 how = 0;
    try { f(); } catch (const Oops& o) { how = 2 + u64(o.where); } catch (const std::ios_base::failure&) { how = 1; }
    k.obs("thrown", how);
  };
  while (!s.done()) {
    const unsigned op = s.byte() % UB_OPS, x = s.byte(), y = s.byte(), z = s.byte();
    switch (op) {
      case 0: case 1: case 2: case 3: k.op("get"); guard([&] { C c = C('#'); try { auto& r = i.get(c); k.check(&r == &i, "get does not return *this"); } catch (...) { k.obs("char", u64(c)); throw; } k.obs("char", u64(c)); }); break;
      case 4: case 5: case 6: { const unsigned n = x < 220 ? x % 16 : x < 250 ? x : 4000; k.op("read", n); Buf<C> t(n); for (unsigned q = 0; q < n; q++) t.p[q] = C('#');
          bool ok = true; guard([&] { ok = false; auto& r = i.read(t.p, n); ok = true; k.check(&r == &i, "read does not return *this"); });
          if (ok) { u64 h = 0; for (unsigned q = 0; q < n; q++) h = mix(h, u64(t.p[q])); k.obs("chars", h); } break; }
      case 7: case 8: k.op("unget"); guard([&] { i.unget(); }); break;
      case 9: k.op("unget many", x % 8); for (unsigned q = 0; q < x % 8; q++) { guard([&] { i.unget(); }); observe_is(i, k); } break;
      case 10: k.op("clear"); guard([&] { i.clear(); }); break;
      case 11: k.op("clear(state)", x % 8); guard([&] { i.clear(st(x)); }); break;
      case 12: k.op("setstate", x % 8); if (y & 8) guard([&] { i.setstate(st(x)); }); break;
      case 13: k.op("exceptions", x % 8); guard([&] { i.exceptions(st(x)); }); break;
      case 14: k.op("no exceptions"); guard([&] { i.exceptions(IS::goodbit); }); break;
      case 15: { k.op("sgetc, ...", x % 4); const unsigned q = x % 4; guard([&] { ch(b.sgetc()); }); guard([&] { if (q == 1) ch(b.sbumpc()); if (q == 2) ch(b.snextc()); if (q == 3) ch(b.sungetc()); }); guard([&] { ch(b.sgetc()); }); break; }
      case 16: k.op("sbumpc"); guard([&] { ch(i.rdbuf()->sbumpc()); }); break;
      case 17: k.op("snextc"); guard([&] { ch(i.rdbuf()->snextc()); }); break;
      case 18: k.op("sungetc"); guard([&] { ch(i.rdbuf()->sungetc()); }); break;
      case 19: { const unsigned n = x % 20; k.op("sgetn", n); Buf<C> t(n); for (unsigned q = 0; q < n; q++) t.p[q] = C('#'); bool ok = true;
          guard([&] { ok = false; k.obs("delivered", u64(i.rdbuf()->sgetn(t.p, n))); ok = true; }); if (ok) { u64 h = 0; for (unsigned q = 0; q < n; q++) h = mix(h, u64(t.p[q])); k.obs("chars", h); } break; }
      case 20: k.op("pubsync"); guard([&] { k.obs("sync", u64(b.pubsync())); }); k.obs("syncs", b.syncs); break;
      case 21: { k.op("sentry"); guard([&] { typename IS::sentry t(i, true); k.obs("ready", bool(t)); }); break; }
      case 22: if (p.mode % 5 == 3) {                        // a copy of the buffer goes its own way from the same place
          k.op("copy", x % 8); U copy(b); k.obs("before", copy.before()); k.obs("left", copy.left()); k.check(copy.same_area(b), "the copy's get area is not the original's");
          IS j(&copy); C c = C('#'); for (unsigned q = 0; q < x % 8; q++) { if (y >> q & 1) j.get(c); else j.unget(); k.obs("char", u64(c)); observe_is(j, k); } }
        break;
      default: if constexpr (!std::is_void_v<OS>) {          // an output stream over it synchronises it
          k.op("flush", x % 8); OS o(&b); guard([&] { o.exceptions(st(x)); }); if (z & 1) guard([&] { o.exceptions(IS::goodbit); });
          if (o.good()) guard([&] { auto& r = o.flush(); k.check(&r == &o, "flush does not return *this"); }); k.obs("syncs", b.syncs); k.obs("bad", o.rdstate() == st(4)); k.obs("good", o.good()); }
        break;
    }
    observe_is(i, k);
  }
  k.op("rest"); try { i.exceptions(IS::goodbit); } catch (...) {} i.clear(); guard([&] { C c = C('#'); unsigned n = 0; u64 h = 0; while (i.get(c) && n < 100000) { ++n; h = mix(h, u64(c)); } k.obs("rest", h); k.obs("rest length", n); }); observe_is(i, k);
}

template <class T> struct Bits;                              // the bitmask types, seen through their named values
template <class B, class E, class S> void bits(Src s, S& k, const E (&named)[8]) {
  E v[3] = {named[0], named[1], named[2]};
  auto show = [&](E e) { u64 r = 0; for (unsigned q = 0; q < 8; q++) r = r * 2 + ((e & named[q]) == named[q]); k.obs("named values in it", r); };
  auto as = [&](unsigned x) { return x < 8 ? named[x] : v[x % 3]; };
  while (!s.done()) {
    const unsigned op = s.byte() % 8, a = s.byte() % 3, x = s.byte() % 12, y = s.byte() % 12;
    k.op("bits", op, a);
    switch (op) {
      case 0: v[a] = as(x) | as(y); break;
      case 1: v[a] = as(x) & as(y); break;
      case 2: v[a] = as(x) ^ as(y); break;
      case 3: v[a] = ~as(x); break;
      case 4: show(v[a] |= as(x)); break;
      case 5: show(v[a] &= as(x)); break;
      case 6: show(v[a] ^= as(x)); break;
      default: { const E& r = x % 3 == 0 ? (v[a] |= named[y % 8]) : x % 3 == 1 ? (v[a] &= named[y % 8]) : (v[a] ^= named[y % 8]); k.check(&r == &v[a], "an assignment does not return its left operand"); break; }
    }
    show(v[a]); show(v[(a + 1) % 3]); show(v[(a + 2) % 3]);
  }
}
template <class B, class S> void mode_bits(Src s, S& k) { const typename B::openmode n[8] = {B::in, B::out, B::app, B::ate, B::binary, B::trunc, B::in | B::out, B::app | B::trunc}; bits<B>(s, k, n); }
template <class B, class S> void state_bits(Src s, S& k) { const typename B::iostate n[8] = {B::badbit, B::eofbit, B::failbit, B::badbit | B::failbit, B::eofbit | B::failbit, B::badbit | B::eofbit, B::badbit | B::eofbit | B::failbit, B::eofbit}; bits<B>(s, k, n); }
template <class B, class S> void flag_bits(Src s, S& k) {
  const typename B::fmtflags n[3][8] = {{B::boolalpha, B::dec, B::fixed, B::hex, B::internal, B::left, B::oct, B::basefield}, {B::right, B::scientific, B::showbase, B::showpoint, B::showpos, B::skipws, B::adjustfield, B::floatfield}, {B::unitbuf, B::uppercase, B::skipws, B::dec, B::hex, B::basefield, B::left, B::fixed}};
  bits<B>(s, k, n[s.byte() % 3]);
}

template <class C, class T, class OS, class COS> void both(Src s, Ctx& c) {
  using SB = std::basic_streambuf<C, T>; using CB = cest::basic_streambuf<C, T>;
  differential(s, c, [&](Src q, auto& k) { run<SB, std::basic_istream<C, T>, OS>(q, k); }, [&](Src q, auto& k) { run<CB, cest::basic_istream<C, T>, COS>(q, k); });
}
void vf_case(Src s, Ctx& c) {
  const unsigned cfg = s.byte();
  unsigned nops = 0, rd = 0;
  for (std::size_t i = s.i + 7; i + UB_REC <= s.n; i += UB_REC) { ++nops; unsigned op = s.p[i] % UB_OPS; if (op <= 9 || (op >= 15 && op <= 19)) ++rd; }
  c.nontrivial = nops >= 4 && (rd >= 2 || cfg % 16 == 15);
  switch (cfg % 16) {
    case 15: c.label("bitmask types");
      switch (cfg / 16 % 3) {
        case 0: return differential(s, c, [&](Src q, auto& k) { mode_bits<std::ios_base>(q, k); }, [&](Src q, auto& k) { mode_bits<cest::ios_base>(q, k); });
        case 1: return differential(s, c, [&](Src q, auto& k) { state_bits<std::ios_base>(q, k); }, [&](Src q, auto& k) { state_bits<cest::ios_base>(q, k); });
        default: return differential(s, c, [&](Src q, auto& k) { flag_bits<std::ios_base>(q, k); }, [&](Src q, auto& k) { flag_bits<cest::ios_base>(q, k); });
      }
    case 12: case 13: c.label("odd traits"); return both<char, Odd<char>, void, void>(s, c);
    case 8: case 9: case 10: case 11: c.label("wchar_t"); return both<wchar_t, std::char_traits<wchar_t>, void, void>(s, c);
    default: c.label("char"); return both<char, std::char_traits<char>, std::ostream, cest::ostream>(s, c);
  }
}
} // namespace vf
