#include "driver.hpp"
#include "interp_ptr.hpp"
#include <cest/shared_ptr.hpp>
#include <memory>
namespace vf {
const Shape vf_shape{1, SP_REC, SP_OPS, 160};
const char* const vf_rule = "A case is a header choosing the pointee (polymorphic, derived without a virtual destructor, plain, const, array, nodes sharing their successors, or pointers of seven types to wholes, bases, parts, elements and void that share objects) and a list of 4-byte operation records over five shared pointers; it is non-trivial if it makes at least 5 operations of which at least two copy, assign, alias or destroy.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
template <class T> using SS = std::shared_ptr<T>;
template <class T> using CS = cest::shared_ptr<T>;
struct SG { template <class D, class P> static D* get(const P& p) { return std::get_deleter<D>(p); } };
struct CG { template <class D, class P> static D* get(const P& p) { return get_deleter<D>(p); } };
template <class D> void get_deleter(int) = delete;   // so that the name is known to be a template
template <class T, class Y> void both(Src s, Ctx& c, const char* l) {
  c.label(l);
  differential(s, c, [&](Src q, auto& k) { run_sptr<SS, T, Y, SG>(q, k); }, [&](Src q, auto& k) { run_sptr<CS, T, Y, CG>(q, k); });
}
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte(), nops = 0, mut = 0;
  for (std::size_t i = s.i; i + SP_REC <= s.n; i += SP_REC) { ++nops; unsigned op = s.p[i] % SP_OPS; if (op >= 6 && op <= 12) ++mut; }
  c.nontrivial = nops >= 5 && mut >= 2;
  switch (cfg % 9) {
    case 0: return both<PBase, PDer>(s, c, "polymorphic base, derived");
    case 1: return both<PPlain, PPlainDer>(s, c, "non-virtual base, derived");
    case 2: return both<PPlain, PPlain>(s, c, "plain");
    case 3: return both<const PPlain, const PPlain>(s, c, "const");
    case 4: return both<PPlain, PPlain>(s, c, "plain");
    case 5: c.label("chains of nodes");
      return differential(s, c, [&](Src q, auto& k) { run_schain<SS>(q, k); }, [&](Src q, auto& k) { run_schain<CS>(q, k); });
    case 6: case 7: c.label("wholes and parts");
      return differential(s, c, [&](Src q, auto& k) { run_sptr_parts<SS, SG>(q, k); }, [&](Src q, auto& k) { run_sptr_parts<CS, CG>(q, k); });
    default: c.label("array");
      return differential(s, c, [&](Src q, auto& k) { run_sptr_array<SS, PPlain, SG>(q, k); }, [&](Src q, auto& k) { run_sptr_array<CS, PPlain, CG>(q, k); });
  }
}
} // namespace vf
