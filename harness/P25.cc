// MODE: GCOV
// SOURCES: legacy_addr2line.cc util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc util/symbolize/bytereader.cc util/symbolize/index_helper.cc util/symbolize/elf_reader.cc util/symbolize/functioninfo.cc util/symbolize/addr2line_inlinestack.cc
// TECHNIQUE: property-based testing: generated programs (compiled by GCC and clang, and debug information written directly), inline stacks compared with llvm-symbolizer and with the generator's own model
// LEVEL_NOTE: Random search over programs, compilers, options and addresses. Trusts llvm-symbolizer for compiled programs.
#include <filesystem>
#include <memory>

#include "addr2line.h"
#include "dwarfprog.h"
#include "stackgen.h"
using stackgen::Frame; using stackgen::Stack; using pbt::Case; using pbt::Src;
namespace dw = devtools_crosstool_autofdo;

namespace {
Stack Get(const dw::Addr2line& a, uint64_t addr) {
  dw::SourceStack st; a.GetInlineStack(addr, &st); Stack r; for (auto& x : st) r.push_back({x.func_name ? x.func_name : "", x.start_line, x.line, x.discriminator, x.file_name, x.dir_name}); return r;
}
std::string Path(const Frame& f) { return (std::filesystem::path(f.dir) / f.file).lexically_normal().string(); }
void Compiled(Src& s, Case& c) {
  auto src = stackgen::GenSource(s); auto b = stackgen::Compile(s, c, src, false); c.Describe([&] { return b.flags + "\n" + src.text(); });
  if (!b.ok) throw pbt::Discard();
  std::vector<uint64_t> addrs; for (auto& r : stackgen::ExecRanges(pbt::ReadFile(b.path))) for (uint64_t a = 0; a < r.second && a < 4000; ++a) addrs.push_back(r.first + a);
  auto want = stackgen::Symbolize(b.path, addrs, b.path);
  std::unique_ptr<dw::Addr2line> a(dw::Addr2line::Create(b.path)); PBT_CHECK(a != nullptr, b.path);
  size_t compared = 0, inl = 0;
  for (uint64_t x : addrs) {
    auto& w = want[x]; if (w.empty() || !w[0].line || !w.back().start) continue;
    Stack g = Get(*a, x); ++compared; inl += w.size() > 1;
    PBT_CHECK(g.size() == w.size(), "at " << std::hex << x << " got " << stackgen::Show(g) << " want " << stackgen::Show(w));
    for (size_t i = 0; i < g.size(); ++i) PBT_CHECK(g[i].name == w[i].name && g[i].line == w[i].line && g[i].disc == w[i].disc && (g[i].start == w[i].start || !w[i].start) && Path(g[i]) == Path(w[i]), "frame " << i << " at " << std::hex << x << " got " << stackgen::Show(g) << " in " << Path(g[i]) << " want " << stackgen::Show(w) << " in " << Path(w[i]));
  }
  c.NonTrivial(inl > 0); c.LabelIf(compared > 0, "stacks compared");
}
void Written(Src& s, Case& c) {
  bool lines_only = s.Chance(1, 30); auto p = dwarfprog::Generate(s, false, false, lines_only); std::string path = c.Tmp("prog"); pbt::WriteFile(path, p.elf); c.Describe([&] { if (getenv("KEEP")) pbt::WriteFile(getenv("KEEP"), p.elf); return p.text; });
  std::unique_ptr<dw::Addr2line> a(dw::Addr2line::Create(path)); PBT_CHECK(a != nullptr, path);
  for (uint64_t x : p.addrs) {
    auto it = p.stacks.find(x); Stack g = Get(*a, x), w; bool in = it != p.stacks.end(); if (in) w = it->second; if (!in) { PBT_CHECK(g.empty(), "outside at " << std::hex << x << " got " << stackgen::Show(g)); continue; }
    if (!w.empty() && w[0].line == 0) w.clear();
    PBT_CHECK(g.size() == w.size(), "at " << std::hex << x << " got " << stackgen::Show(g) << " want " << stackgen::Show(w));
    for (size_t i = 0; i < g.size(); ++i) PBT_CHECK(g[i].name == w[i].name && g[i].line == w[i].line && g[i].disc == w[i].disc && g[i].start == w[i].start && Path(g[i]) == Path(w[i]), "frame " << i << " at " << std::hex << x << " got " << stackgen::Show(g) << " in " << Path(g[i]) << " want " << stackgen::Show(w) << " in " << Path(w[i]));
  }
  c.NonTrivial(p.max_depth > 1); c.LabelIf(lines_only, "line tables only"); c.Label("depth " + std::to_string(std::min<size_t>(p.max_depth, 6))); for (auto& u : p.units) c.Label("DWARF " + std::to_string(u.ver)); c.LabelIf(p.units.size() > 1, "several units");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite t; t.property = "P25"; t.rule = "some address has an inline chain";
  t.subs = {{"written debug information", Written, 30000, 600000}, {"compiled programs", Compiled, 400, 6000}};
  return pbt::Main(argc, argv, t);
}
