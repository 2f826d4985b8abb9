#define VF_OWN_NEW
#include "ledger.hpp"
#include <cest/cstdio.hpp>
#include <cest/functional.hpp>
#include <cest/iostream.hpp>
#include <cest/memory.hpp>
#include <cest/shared_ptr.hpp>
#include <cest/sstream.hpp>
#include <cest/string.hpp>
#include <cest/vector.hpp>
#include <optional>
namespace vf {
constexpr unsigned OPS = 24, REC = 4;
const Shape vf_shape{0, REC, OPS, 18};
const char* const vf_rule = "A case is a list of up to 18 operation records over shared pointers, unique pointers, functions, string streams and files in memory; the history is replayed once for every event (heap allocation, copy or call of a function's target, construction of an object) made inside the operations, throwing at that event (all events if at most 60, else 60 of them spread over the history); it is non-trivial if at least one fault was injected.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
[[noreturn]] inline void fail(const std::string& s) { LG.armed = false; throw Mismatch{s}; }

using E = Trk<NOEXCEPT_MOVE>;
struct Fail {};                                     // an object whose construction may fail
struct Made : E { explicit Made(int v) : E(v) { event(); } };
struct Der : E { E more; explicit Der(int x) : E(x), more(x) {} };   // deleted as what it was created as
struct Target { E t; explicit Target(int v) : t(v) {} int operator()(int x) { t.use(); event(); return ++t.v * 3 + x; } };
struct VTarget { E t; explicit VTarget(int v) : t(v) {} void operator()(int x, int& out) { t.use(); event(); out = ++t.v * 3 + x; } };
struct Del { int* calls; void operator()(E* p) const { ++*calls; delete p; } };
struct ArrDel { int* calls; void operator()(E* p) const { ++*calls; delete[] p; } };

struct Player {
  Src s; long k; std::string* log; bool injected = false;
  template <class F> bool attempt(F f) {
    LG.armed = true;
    try { f(); LG.armed = false; return true; }
    catch (const Injected&) { LG.armed = false; injected = true; return false; }
    catch (const Mismatch&) { LG.armed = false; throw; }
    catch (...) { LG.armed = false; fail("an exception other than the one thrown reached the caller"); }
  }
  u64 run() {
    LG.reset(); LG.fault = k;
    const long before = heap_blocks;
    history();
    LG.fault = -1;
    if (LG.error) fail(LG.error);
    if (!LG.live.empty()) fail(std::to_string(LG.live.size()) + " objects remain alive at the end");
    if (heap_blocks != before) fail(std::to_string(heap_blocks - before) + " heap blocks remain at the end");
    return LG.events;
  }
  using SP = cest::shared_ptr<E>; using SA = cest::shared_ptr<E[]>; using UP = cest::unique_ptr<E>;
  using FI = cest::function<int(int)>; using FV = cest::function<void(int, int&)>; using IS = cest::stringstream;
  // model: sp[i] = group (0 none), group -> value and number of owners; fn state, or -1
  void history() {
    std::vector<int> gv{0}, gd{0}, owners{0}, dels{0}, want_dels{0}; gv.reserve(64); gd.reserve(64); owners.reserve(64); dels.reserve(64); want_dels.reserve(64);
    std::optional<SP> sp[4]; SA sa[2]; UP up[2]; std::optional<FI> fi[3]; std::optional<FV> fv[2]; std::optional<IS> is[2]; cest::FILE* file[2] = {};
    int gsp[4] = {}, gsa[2] = {}, mup[2] = {}, mfi[3] = {-1, -1, -1}, mfv[2] = {-1, -1}; int mis[2] = {}, left[2] = {}; char mch[2] = {}; int mfile[2] = {};
    std::string text(120, 't'); char buf[200];
    int serial = 0; const char* name = "none"; bool done = true;
    // one owner more or fewer of a group; the number of objects a live group holds is gd
    auto drop = [&](int g) { if (g && --owners[g] == 0) ++want_dels[g]; };
    auto newgroup = [&](int v, int objects) { gv.push_back(v); gd.push_back(objects); owners.push_back(0); dels.push_back(0); want_dels.push_back(0); return int(gv.size()) - 1; };
    auto look = [&] {
      if (LG.error) fail(LG.error);
      std::size_t live = 0;
      for (int i = 0; i < 4; i++) { if (!sp[i]) continue; if ((sp[i]->get() != nullptr) != (gsp[i] != 0)) fail("a shared pointer owns nothing, or something it should not"); if (gsp[i]) { (*sp[i])->use(); if ((*sp[i])->v != gv[gsp[i]]) fail("a shared pointer's object changed"); if (sp[i]->use_count() != owners[gsp[i]]) fail("use_count() is " + std::to_string(sp[i]->use_count()) + ", not " + std::to_string(owners[gsp[i]])); } }
      for (int i = 0; i < 2; i++) if (gsa[i]) { if (sa[i].use_count() != owners[gsa[i]] || sa[i][gd[gsa[i]] - 1].v != gv[gsa[i]]) fail("a shared array changed"); } else if (sa[i].get()) fail("a shared array owns something it should not");
      for (std::size_t g = 1; g < gv.size(); g++) { if (owners[g]) live += std::size_t(gd[g]); }
      for (int i = 0; i < 2; i++) { if ((up[i].get() != nullptr) != (mup[i] != 0)) fail("a unique pointer owns nothing, or something it should not"); if (mup[i]) { ++live; up[i]->use(); if (up[i]->v != mup[i]) fail("a unique pointer's object changed"); } }
      for (int i = 0; i < 3; i++) live += mfi[i] >= 0;
      for (int i = 0; i < 2; i++) live += mfv[i] >= 0;
      if (LG.live.size() != live) fail(std::to_string(LG.live.size()) + " objects are alive, " + std::to_string(live) + " have an owner");
      for (std::size_t g = 1; g < gv.size(); g++) if (dels[g] >= 0 && want_dels[g] >= 0 && counted(g) && dels[g] != want_dels[g]) fail("a deleter was called " + std::to_string(dels[g]) + " times, not " + std::to_string(want_dels[g]));
      for (int i = 0; i < 2; i++) if (is[i]) { const cest::string now = is[i]->str(); bool same = now.size() == std::size_t(mis[i]); for (char ch : now) same = same && ch == mch[i]; if (!same) fail("a stream's contents changed"); }
    };
    counted_ = 0;
    while (!s.done()) {
      unsigned op = s.byte() % OPS, x = s.byte(), y = s.byte(), z = s.byte(); unsigned i = x % 4, j = y % 4, p = x % 2, f = x % 3, h = y % 3; ++serial; done = true;
      if (gv.size() > 60) break;
      switch (op) {
        case 0: case 1: { name = "shared_ptr(new)"; SP n; int g = newgroup(serial, 1); E* raw = new E(serial);
            done = attempt([&] { SP t(raw); n = t; }); if (sp[i]) drop(gsp[i]); sp[i] = std::nullopt; gsp[i] = 0; if (done) { owners[g] = 1; sp[i].emplace(n); n = SP(); gsp[i] = g; } break; }
        case 2: { name = "shared_ptr(derived)"; int g = newgroup(serial, 2); Der* raw = new Der(serial); SP n;
            done = attempt([&] { SP t(raw); n = t; }); if (sp[i]) drop(gsp[i]); sp[i] = std::nullopt; gsp[i] = 0; if (done) { owners[g] = 1; sp[i].emplace(n); n = SP(); gsp[i] = g; } break; }
        case 3: case 4: { name = "shared_ptr(new, deleter)"; int g = newgroup(serial, 1); mark(g); E* raw = new E(serial); Del d{&dels[std::size_t(g)]}; SP n;
            done = attempt([&] { SP t(raw, d); n = t; }); if (sp[i]) drop(gsp[i]); sp[i] = std::nullopt; gsp[i] = 0; if (done) { owners[g] = 1; sp[i].emplace(n); n = SP(); gsp[i] = g; } else want_dels[g] = 1; break; }
        case 5: { name = "shared_ptr<T[]>"; const int c = 1 + int(z % 4); int g = newgroup(serial, c); E* raw = c == 1 ? new E[1]{E(serial)} : c == 2 ? new E[2]{E(1), E(serial)} : c == 3 ? new E[3]{E(1), E(2), E(serial)} : new E[4]{E(1), E(2), E(3), E(serial)}; SA n;
            if (z & 16) { mark(g); ArrDel d{&dels[std::size_t(g)]}; done = attempt([&] { SA t(raw, d); n = t; }); if (!done) want_dels[g] = 1; } else done = attempt([&] { SA t(raw); n = t; });
            drop(gsa[p]); gsa[p] = 0; sa[p] = SA(); if (done) { owners[g] = 1; sa[p] = n; gsa[p] = g; } break; }
        case 6: name = "shared_ptr copy"; if (sp[j]) { done = attempt([&] { SP t(*sp[j]); LG.armed = false; if (t.use_count() != (gsp[j] ? owners[gsp[j]] + 1 : 0)) fail("wrong use_count()"); LG.armed = true; }); if (!done) fail("copying a shared pointer failed"); } break;
        case 7: name = "shared_ptr assign"; if (sp[i] && sp[j]) { done = attempt([&] { *sp[i] = *sp[j]; }); if (!done) fail("assigning a shared pointer failed"); if (gsp[j]) ++owners[gsp[j]]; drop(gsp[i]); gsp[i] = gsp[j]; } break;
        case 8: name = "shared_ptr destroy"; if (sp[i]) { sp[i] = std::nullopt; drop(gsp[i]); gsp[i] = 0; } break;
        case 9: { name = "make_unique"; UP n; done = attempt([&] { if (z & 1) { n = cest::make_unique<E>(serial); } else { auto m = cest::make_unique<Made>(serial); (void)m; } }); if (done && (z & 1)) { up[p] = std::move(n); mup[p] = serial; } break; }
        case 10: { name = "vector of shared_ptr"; if (sp[i] && gsp[i]) { done = attempt([&] { cest::vector<SP> v; for (unsigned q = 0; q < z % 9; q++) v.push_back(*sp[i]); cest::vector<SP> w(v); v = w; }); } break; }
        case 11: { name = "function(callable)"; std::optional<FI> n; Target t(serial); done = attempt([&] { n.emplace(t); }); if (done) { fi[f].emplace(*n); mfi[f] = serial; } break; }
        case 12: { name = "function(temporary)"; std::optional<FI> n; done = attempt([&] { n.emplace(Target(serial)); }); if (done) { fi[f].emplace(std::move(*n)); mfi[f] = serial; } break; }
        case 13: case 14: name = "function copy assign"; if (fi[f] && fi[h] && mfi[f] >= 0 && mfi[h] >= 0) { done = attempt([&] { *fi[f] = *fi[h]; }); if (done) mfi[f] = mfi[h]; } break;
        case 15: name = "function assign callable"; if (fi[f] && mfi[f] >= 0) { Target t(serial); done = attempt([&] { *fi[f] = t; }); if (done) mfi[f] = serial; } break;
        case 16: case 17: name = "function call"; if (mfi[f] >= 0) { int r = -1; done = attempt([&] { r = (*fi[f])(int(z)); }); if (done) { ++mfi[f]; if (r != mfi[f] * 3 + int(z)) fail("a function gave " + std::to_string(r) + ", not " + std::to_string(mfi[f] * 3 + int(z))); } } break;
        case 18: { name = "void function"; std::optional<FV> n; VTarget t(serial); done = attempt([&] { if (z & 1) n.emplace(t); else n.emplace(VTarget(serial)); }); if (done) { fv[p].emplace(std::move(*n)); mfv[p] = serial; } break; }
        case 19: name = "void function call or copy"; if (mfv[p] >= 0) { if (z & 1) { int r = -1; done = attempt([&] { (*fv[p])(int(z), r); }); if (done) { ++mfv[p]; if (r != mfv[p] * 3 + int(z)) fail("a function gave a wrong result"); } else if (r != -1) fail("a failing call left a result"); } else if (mfv[1 - p] >= 0) { done = attempt([&] { *fv[p] = *fv[1 - p]; }); if (done) mfv[p] = mfv[1 - p]; } } break;
        case 20: { name = "string stream"; const unsigned c = z % 120; text[c] = 0; std::optional<IS> n; cest::string t(text.c_str()); done = attempt([&] { n.emplace(t); LG.armed = false; char ch; unsigned q = 0; while (n->get(ch)) ++q; if (q != c) fail("a stream delivered " + std::to_string(q) + " characters, not " + std::to_string(c)); LG.armed = true; }); if (done) { is[p].reset(); is[p].emplace(t); mis[p] = left[p] = int(c); mch[p] = 't'; } text[c] = 't'; break; }
        case 21: { if (is[p]) {
            if (z & 128) { name = "stream read"; const unsigned want = y % 20; char out[20]; done = attempt([&] { is[p]->read(out, want); }); if (!done) fail("reading a string stream failed");
              const unsigned got = unsigned(is[p]->gcount()); if (got != std::min<unsigned>(want, unsigned(left[p]))) fail("a stream delivered " + std::to_string(got) + " characters"); for (unsigned q = 0; q < got; q++) if (out[q] != mch[p]) fail("a stream delivered other characters"); left[p] -= int(got); is[p]->clear(); break; }
            name = "stream str(s)"; const unsigned c = z % 120; const char ch = char('a' + serial % 26); cest::string t; for (unsigned q = 0; q < c; q++) t.push_back(ch);
            done = attempt([&] { is[p]->str(t); }); if (done) { mis[p] = left[p] = int(c); mch[p] = ch; } } break; }
        case 22: { name = "fmemopen"; std::memset(buf, 'b', sizeof buf); cest::FILE* n = nullptr; done = attempt([&] { n = cest::fmemopen(buf, z % 150, "r"); }); if (done) { if (file[p]) cest::fclose(file[p]); file[p] = n; mfile[p] = int(z % 150); } break; }
        default: name = "fread"; if (file[p]) { std::size_t got = 0; done = attempt([&] { got = cest::fread(buf, 1, y % 60, file[p]); }); if (!done) fail("fread failed"); if (got != std::min<std::size_t>(y % 60, std::size_t(mfile[p]))) fail("fread delivered " + std::to_string(got)); mfile[p] -= int(got); } break;
      }
      if (log) *log += std::string(name) + "(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + (done ? ")\n" : ") <- fault injected here\n");
      try { look(); } catch (Mismatch& e) { throw Mismatch{e.msg + " [after " + name + ", operation " + std::to_string(serial) + (done ? ", completed" : ", faulted") + ", fault at event " + std::to_string(k) + "]"}; }
    }
    for (auto& q : file) if (q) cest::fclose(q);
  }
  u64 counted_ = 0;
  void mark(int g) { counted_ |= u64(1) << g; }
  bool counted(std::size_t g) const { return counted_ >> g & 1; }
};
void vf_case(Src s, Ctx& c) {
  only_armed = true;
  LG.live.reserve(300);
  std::string log; log.reserve(c.desc ? 1 << 14 : 0);
  auto once = [&](long k) {
    log.clear(); LG.armed = false;
    Player p{s, k, c.desc ? &log : nullptr};
    u64 n;
    try { n = p.run(); } catch (...) { LG.armed = false; c.say(log); throw; }
    if (p.injected) { c.nontrivial = true; if (c.labels) ++(*c.labels)["faults injected"]; }
    return n;
  };
  u64 n = once(-1);
  c.say("fault-free history (" + std::to_string(n) + " events):\n" + log);
  const u64 most = 60;
  if (n <= most) for (u64 k = 0; k < n; k++) once(long(k));
  else { Rng r(n, s.n); for (u64 i = 0; i < most; i++) once(long(i < 8 ? n - 1 - i : r.below(n))); }
}
} // namespace vf
