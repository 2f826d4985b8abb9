#include "driver.hpp"
#include "interp_stream.hpp"
#include <cest/sstream.hpp>
#include <cest/iostream.hpp>
#include <sstream>
namespace vf {
const Shape vf_shape{4, SS_REC, SS_OPS, 120};
const char* const vf_rule = "A case is a header choosing the stream type (istringstream or stringstream of char or wchar_t) and the first contents, and a list of 6-byte operation records over two streams; it is non-trivial if it makes at least 4 operations of which at least two read or unget.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte(), nops = 0, rd = 0;
  for (std::size_t i = s.i + 3; i + SS_REC <= s.n; i += SS_REC) { ++nops; unsigned op = s.p[i] % SS_OPS; if (op <= 8 || op == 15) ++rd; }
  c.nontrivial = nops >= 4 && rd >= 2;
  switch (cfg % 7) {
    case 0: case 1: c.label("istringstream"); return differential(s, c, [&](Src q, auto& k) { run_is<std::istringstream, std::string>(q, k, 1000); }, [&](Src q, auto& k) { run_is<cest::istringstream, cest::string>(q, k, 1000); });
    case 2: case 3: c.label("stringstream"); return differential(s, c, [&](Src q, auto& k) { run_is<std::stringstream, std::string>(q, k, 1000); }, [&](Src q, auto& k) { run_is<cest::stringstream, cest::string>(q, k, 1000); });
    case 4: c.label("wistringstream"); return differential(s, c, [&](Src q, auto& k) { run_is<std::wistringstream, std::wstring>(q, k, 1000); }, [&](Src q, auto& k) { run_is<cest::wistringstream, cest::wstring>(q, k, 1000); });
    case 5: c.label("odd traits"); if (cfg / 7 % 2) return differential(s, c, [&](Src q, auto& k) { run_is<std::basic_istringstream<char, Odd<char>>, std::basic_string<char, Odd<char>>>(q, k, 1000); }, [&](Src q, auto& k) { run_is<cest::basic_istringstream<char, Odd<char>>, cest::basic_string<char, Odd<char>>>(q, k, 1000); });
      return differential(s, c, [&](Src q, auto& k) { run_is<std::basic_stringstream<char, Odd<char>>, std::basic_string<char, Odd<char>>>(q, k, 1000); }, [&](Src q, auto& k) { run_is<cest::basic_stringstream<char, Odd<char>>, cest::basic_string<char, Odd<char>>>(q, k, 1000); });
    default: c.label("wstringstream"); return differential(s, c, [&](Src q, auto& k) { run_is<std::wstringstream, std::wstring>(q, k, 1000); }, [&](Src q, auto& k) { run_is<cest::wstringstream, cest::wstring>(q, k, 1000); });
  }
}
} // namespace vf
