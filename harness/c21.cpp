#include "driver.hpp"
#include "numgen.hpp"
#include <complex>
#include <cest/complex.hpp>
namespace vf {
constexpr unsigned CREC = 8, COPS = 34;
const Shape vf_shape{1, CREC, COPS, 60};
const char* const vf_rule = "A case is a header choosing float or double and a list of 8-byte operation records over four complex variables, each computed with std::complex and with cest::complex and compared exactly or within a stated tolerance (the std value then becomes the state of both); it is non-trivial if it makes at least 4 operations.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

template <class T> struct Run {
  using S = std::complex<T>; using X = cest::complex<T>;
  using U = std::conditional_t<std::is_same_v<T, float>, double, float>;
  static constexpr T eps = std::numeric_limits<T>::epsilon();
  // powers of ten up to which products and squares stay in range
  static constexpr int span = std::is_same_v<T, float> ? 14 : 120;
  static inline const T huge = T(std::pow(10.0, std::is_same_v<T, float> ? 16 : 140)), tiny = T(1) / huge;
  S a[4]; X b[4]; Ctx& c;
  explicit Run(Ctx& c_) : c(c_) {}
  static std::string show(S z) { return "(" + numtext(double(z.real())) + ", " + numtext(double(z.imag())) + ")"; }
  [[noreturn]] void bad(const char* op, S e, X g) { throw Mismatch{std::string(op) + ": expected " + show(e) + ", got " + show(S(g.real(), g.imag()))}; }
  static bool eq(T x, T y) { return x == y || (x != x && y != y); }
  void exact(const char* op, S e, X g) { if (!eq(e.real(), g.real()) || !eq(e.imag(), g.imag())) bad(op, e, g); }
  // each component within tol of the expected one
  void close(const char* op, S e, X g, double tol) {
    if (!(std::fabs(double(e.real()) - double(g.real())) <= tol) || !(std::fabs(double(e.imag()) - double(g.imag())) <= tol)) bad(op, e, g);
  }
  void real(const char* op, double e, double g, double tol) { if (!(e == g || std::fabs(e - g) <= tol)) throw Mismatch{std::string(op) + ": expected " + numtext(e) + ", got " + numtext(g)}; }
  T part(unsigned k, unsigned x) {
    switch (k % 8) {
      case 0: return T(int(x % 17) - 8);
      case 1: return T(0);
      case 2: return T(int(x) - 128) / T(16);
      case 3: return T(std::ldexp(double(int(x % 31) - 15), int(x / 31) * 3 - 12));
      case 4: return T((int(x) - 128) * 0.1);
      case 5: return T((x & 1 ? -1 : 1) * std::pow(10.0, k & 8 ? int(x % 17) - 8 : span * (int(x) - 128) / 128.0));   // every magnitude

      case 6: return T(x / 7.0);
      default: return T(-(x / 3.0));
    }
  }
  void set(unsigned i, S z) {
    auto fix = [](T v) { return v == 0 ? T(0) : v; };                        // no negative zeros, no overflow
    T r = fix(z.real()), m = fix(z.imag());
    if (!(std::fabs(r) < huge) || !(std::fabs(m) < huge) || (r != 0 && std::fabs(r) < tiny) || (m != 0 && std::fabs(m) < tiny)) { r = T(1.25); m = T(-3); }
    a[i] = S(r, m); b[i] = X(r, m);
  }
  void run(Src s) {
    for (unsigned i = 0; i < 4; i++) set(i, S(T(i), T(i * i) - 3));
    while (!s.done()) {
      unsigned op = s.byte() % COPS, i = s.byte() % 4, j = s.byte() % 4, d = s.byte() % 4, kx = s.byte(), x = s.byte(), ky = s.byte(), y = s.byte();
      const T t = part(kx, x), u = part(ky, y);
      const S p = a[i], q = a[j]; const X P = b[i], Q = b[j];
      if (c.desc) c.say("op " + std::to_string(op) + " on " + show(p) + " and " + show(q) + " scalars " + numtext(t) + " " + numtext(u));
      const double ap = std::abs(p), aq = std::abs(q);
      S e; X g;
      switch (op) {
        case 0: case 1: set(d, S(t, u)); exact("construct", a[d], b[d]); { X only(t); exact("construct(re)", S(t), only); X none; exact("construct()", S(), none); X copy(b[d]); exact("copy", a[d], copy); }
          if (b[d].real() != a[d].real() || b[d].imag() != a[d].imag() || cest::real(b[d]) != a[d].real() || cest::imag(b[d]) != a[d].imag()) bad("real/imag", a[d], b[d]); break;
        case 2: { X z(Q); z = P; exact("assign", p, z); z = t; exact("assign scalar", S(t), z); z.real(u); z.imag(t); exact("real()/imag() setters", S(u, t), z); (z = Q) += P; e = q; e += p; exact("(z = q) += p", e, z); set(d, e); break; }
        case 3: { auto mid = [](T v) { return v == 0 || (std::fabs(v) < T(1e12) && std::fabs(v) > T(1e-12)); }; if (!mid(p.real()) || !mid(p.imag()) || !mid(q.real()) || !mid(q.imag())) break;
          cest::complex<U> w(P); std::complex<U> sw(p); if (w.real() != sw.real() || w.imag() != sw.imag()) throw Mismatch{"converting construction differs"}; cest::complex<U> w2(U(x) + 1, U(-1) - U(y)); w2 = Q; if (w2.real() != U(q.real()) || w2.imag() != U(q.imag())) throw Mismatch{"converting assignment differs"};
          X z(P); z += w2; e = S(T(p.real() + U(q.real())), T(p.imag() + U(q.imag()))); exact("+= other precision", e, z); z = P; z -= w2; e = S(T(p.real() - U(q.real())), T(p.imag() - U(q.imag()))); exact("-= other precision", e, z);
          z = P; z *= w2; close("*= other precision", p * q, z, 1e-6 * (ap * aq)); if (aq > 0) { z = P; z /= w2; close("/= other precision", p / q, z, 2e-6 * (ap / aq)); } break; }
        case 4: e = p + q; g = P + Q; exact("z + z", e, g); set(d, e); break;
        case 5: e = p - q; g = P - Q; exact("z - z", e, g); set(d, e); break;
        case 6: e = p + t; g = P + t; exact("z + x", e, g); e = t + p; g = t + P; exact("x + z", e, g); set(d, e); break;
        case 7: e = p - t; g = P - t; exact("z - x", e, g); e = t - p; g = t - P; exact("x - z", e, g); set(d, e); break;
        case 8: e = p * q; g = P * Q; close("z * z", e, g, 8 * eps * ap * aq); set(d, e); break;
        case 9: e = p * t; g = P * t; exact("z * x", e, g); e = t * p; g = t * P; exact("x * z", e, g); set(d, e); break;
        case 10: if (aq == 0) break; e = p / q; g = P / Q; close("z / z", e, g, 16 * eps * ap / aq); set(d, e); break;
        case 11: if (t == 0) break; e = p / t; g = P / t; exact("z / x", e, g); if (ap != 0) { S e2 = t / p; X g2 = t / P; close("x / z", e2, g2, 16 * eps * std::fabs(t) / ap); } set(d, e); break;
        case 12: { S z = p; X Z = P; z += q; X& r = Z += Q; if (&r != &Z) throw Mismatch{"+= does not return *this"}; exact("+=", z, Z); z -= p; Z -= P; exact("-=", z, Z); set(d, z); break; }
        case 13: { S z = p; X Z = P; z += t; Z += t; exact("+= x", z, Z); z -= u; Z -= u; exact("-= x", z, Z); z *= t; Z *= t; exact("*= x", z, Z); if (u != 0) { z /= u; Z /= u; exact("/= x", z, Z); } set(d, z); break; }
        case 14: { S z = p; X Z = P; z *= q; Z *= Q; close("*=", z, Z, 8 * eps * ap * aq); Z = P; z = p; if (aq > 0) { z /= q; Z /= Q; close("/=", z, Z, 16 * eps * ap / aq); } set(d, z); break; }
        case 15: { S z = p; X Z = P; z += z; Z += Z; exact("z += z", z, Z); z -= z; Z -= Z; exact("z -= z", z, Z); z = p; Z = P; S z2 = p * p; Z *= Z; close("z *= z", z2, Z, 8 * eps * ap * ap); if (ap > 0) { Z = P; Z /= Z; close("z /= z", S(1), Z, 16 * eps); } break; }
        case 16: exact("+z", +p, +P); exact("-z", -p, -P); break;
        case 17: case 18: {
          if (op == 18) { if (kx & 1) set(j, p); if (kx & 2) set(d, S(t)); }
          const X J = b[j], D = b[d]; const S sj = a[j], sd = a[d];
          if ((P == J) != (p == sj) || (P != J) != (p != sj) || !(J == J) || J != J) throw Mismatch{"== or != of " + show(p) + " and " + show(sj)};
          if ((D == t) != (sd == t) || (D != t) != (sd != t) || (t == D) != (t == sd) || (t != D) != (t != sd)) throw Mismatch{"== or != of " + show(sd) + " and " + numtext(t)};
          X only(P.real(), Q.imag()); S so(p.real(), q.imag()); if ((only == P) != (so == p) || (only == Q) != (so == q)) throw Mismatch{"== of values that share one part"};
          break; }
        case 19: exact("conj", std::conj(p), cest::conj(P)); { X z = P * cest::conj(P); real("z * conj(z)", std::norm(p), z.real(), 8 * eps * ap * ap); } break;
        case 20: real("norm", std::norm(p), cest::norm(P), 8 * eps * std::norm(p)); break;
        case 21: real("abs", ap, cest::abs(P), 1.01e-3 * ap); break;
        case 22: if (ap > 0) real("arg", std::arg(p), cest::arg(P), 1.1e-4); break;
        case 23: { T rho = std::fabs(t), th = T((int(ky) - 128) * 0.05 + y * 0.0001); e = std::polar(rho, th); g = cest::polar(rho, th); close("polar", e, g, (1e-6 * (std::fabs(th) + 6) + 4 * eps) * rho); real("abs(polar)", rho, cest::abs(g), 1.1e-3 * rho); break; }
        case 24: { if (ap == 0) break; X z = cest::polar(cest::abs(P), cest::arg(P)); close("polar(abs, arg)", p, z, 2e-3 * ap); break; }
        case 25: { S z = small(p, 20); X Z(z.real(), z.imag()); close("exp", std::exp(z), cest::exp(Z), 3e-4 * std::exp(double(z.real()))); if (ap > 0) { close("log", std::log(p), cest::log(P), 3e-3); } break; }
        case 26: { S z = small(p, 8); X Z(z.real(), z.imag()); double m = 3e-3 * std::cosh(double(z.imag())); close("sin", std::sin(z), cest::sin(Z), m); close("cos", std::cos(z), cest::cos(Z), m); break; }
        case 27: { S z = small(p, 8); X Z(z.real(), z.imag()); double m = 3e-3 * std::cosh(double(z.real())); close("sinh", std::sinh(z), cest::sinh(Z), m); close("cosh", std::cosh(z), cest::cosh(Z), m); break; }
        case 28: close("sqrt", std::sqrt(p), cest::sqrt(P), 5e-3 * std::sqrt(ap)); { X r = cest::sqrt(P); close("sqrt squared", p, r * r, 1e-2 * ap); } break;
        case 29: { S z = small(p, 6); X Z(z.real(), z.imag()); if (ap > 0) close("log10", std::log10(p), cest::log10(P), 3e-3);
          double co = std::abs(std::cos(z)), ch = std::cosh(double(z.imag())); if (co > 0.05 * ch) { S t0 = std::tan(z); close("tan", t0, cest::tan(Z), 6e-3 * ch * (1 + std::abs(t0)) / co); }
          co = std::abs(std::cosh(z)); ch = std::cosh(double(z.real())); if (co > 0.05 * ch) { S t0 = std::tanh(z); close("tanh", t0, cest::tanh(Z), 6e-3 * ch * (1 + std::abs(t0)) / co); } break; }
        case 30: { S z = small(p, 3); if (std::abs(z) < 0.05) break; X Z(z.real(), z.imag()); int n = int(x % 81) - 40; if (ky % 3 == 0) { n = (int(x) - 128) * 5 + int(y % 5); T th = T(y * 0.0245); z = S(std::cos(th), std::sin(th)) * (T(1) + T(int(kx % 9) - 4) / T(64)); Z = X(z.real(), z.imag()); } const int an = n < 0 ? -n : n;
          double mag = an * std::log10(double(std::abs(z))); if (std::fabs(mag) > (std::is_same_v<T, float> ? 15 : 100)) break;
          std::complex<long double> w(1), lz(z.real(), z.imag()); for (int k = 0; k < an; k++) w *= lz; if (n < 0) w = std::complex<long double>(1) / w;
          close("pow(z, n)", S(T(w.real()), T(w.imag())), cest::pow(Z, n), (16 + 8 * an) * double(eps) * double(std::abs(w))); break; }
        case 31: {                                                             // near the ends of the range: nothing here need over- or underflow
          constexpr int far = std::is_same_v<T, float> ? 36 : 300; const bool big = kx & 1;
          auto at = [&](unsigned k, unsigned v) { return k % 7 == 0 ? T(0) : T((v & 1 ? -1 : 1) * (1 + v / 32.0) * std::pow(10.0, (big ? 1 : -1) * (far - int(k % 5)))); };
          const S z(at(kx >> 1, x), at(ky, y)); const X Z(z.real(), z.imag()); const double az = std::abs(std::complex<long double>(z.real(), z.imag()));
          real("abs", az, cest::abs(Z), 1.01e-3 * az); exact("conj", std::conj(z), cest::conj(Z)); exact("-z", -z, -Z); exact("z + z", z + z, Z + Z); exact("z - z", S(), Z - Z);
          exact("z / x", z / T(4), Z / T(4)); exact("x * z", T(0.5) * z, T(0.5) * Z); if (!(Z == Z) || Z != Z) throw Mismatch{"== of " + show(z)};
          if (az > 0) { real("arg", std::arg(z), cest::arg(Z), 1.1e-4); close("log", std::log(z), cest::log(Z), 3e-3); }
          close("sqrt", std::sqrt(z), cest::sqrt(Z), 5e-3 * std::sqrt(az));
          break; }
        case 32: {                                                             // powers of zero
          const S v(T(0.25) + std::fabs(t) / 16, u / 16); const X V(v.real(), v.imag()), O;
          exact("pow(0, n)", S(), cest::pow(O, 1 + int(x % 20))); exact("pow(0, 0)", S(1), cest::pow(O, 0)); exact("pow(z, 0)", S(1), cest::pow(P, 0)); exact("pow(z, 1)", p, cest::pow(P, 1));
          exact("pow(0, z)", S(), cest::pow(O, V)); exact("pow(x = 0, z)", S(), cest::pow(T(0), V)); 
          break; }
        default: {
          S z = small(p, 6); int n = int(x % 13) - 6; if (std::abs(z) < 1e-3) break; if (kx % 8 == 0) z = S(std::fabs(z.real()) + T(0.25), 0); X Z(z.real(), z.imag());
          S w(1); for (int k = 0; k < (n < 0 ? -n : n); k++) w *= z; if (n < 0) w = S(1) / w;
          close("pow(z, n)", w, cest::pow(Z, n), 64 * eps * std::abs(w));
          // real and complex exponents: exp(y log z)
          T yy = T((int(y) - 128) / 64.0);
          close("pow(z, x)", std::pow(z, yy), cest::pow(Z, yy), 2e-2 * std::abs(std::pow(z, yy)));
          S v = small(q, 2); X V(v.real(), v.imag()); S pw = std::exp(v * std::log(z)); close("pow(z, z)", pw, cest::pow(Z, V), 3e-2 * std::abs(pw));
          T base = T(0.1 + y / 32.0); if (ky % 4 == 0) base = -base; S pb = std::exp(v * std::log(S(base))); close("pow(x, z)", pb, cest::pow(base, V), 3e-2 * std::abs(pb));
          break; }
      }
    }
  }
  // wrap the parts into [-lim, lim]
  static S small(S z, double lim) { auto f = [&](T v) { T r = T(std::fmod(double(v), lim)); return r == 0 ? T(0) : r; }; return S(f(z.real()), f(z.imag())); }
};
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte();
  c.nontrivial = (s.n - s.i) / CREC >= 4;
  if (cfg & 1) { c.label("float"); Run<float>(c).run(s); } else { c.label("double"); Run<double>(c).run(s); }
}
} // namespace vf
