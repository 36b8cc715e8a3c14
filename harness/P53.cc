// MODE: GCOV
// SOURCES: legacy_addr2line.cc util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc util/symbolize/bytereader.cc util/symbolize/index_helper.cc util/symbolize/elf_reader.cc util/symbolize/functioninfo.cc util/symbolize/addr2line_inlinestack.cc
// TECHNIQUE: property-based testing: generated programs compiled by GCC and clang with split debug information, loose or packaged, inline stacks compared with llvm-symbolizer
// LEVEL_NOTE: Random search over programs, compilers, options and addresses. Trusts llvm-symbolizer for compiled programs.
#include <unistd.h>
#include <filesystem>
#include <memory>

#include "addr2line.h"
#include "stackgen.h"
using stackgen::Frame; using stackgen::Stack; using pbt::Case; using pbt::Src;
namespace dw = devtools_crosstool_autofdo;

namespace {
Stack Get(const dw::Addr2line& a, uint64_t addr) {
  dw::SourceStack st; a.GetInlineStack(addr, &st); Stack r; for (auto& x : st) r.push_back({x.func_name ? x.func_name : "", x.start_line, x.line, x.discriminator, x.file_name, x.dir_name}); return r;
}
std::string Path(const Frame& f) { return (std::filesystem::path(f.dir) / f.file).lexically_normal().string(); }
void Compiled(Src& s, Case& c, stackgen::Split split) {
  auto src = stackgen::GenSource(s); auto b = stackgen::Compile(s, c, src, false, split); c.Describe([&] { return b.flags + "\n" + src.text(); });
  if (!b.ok) throw pbt::Discard();
  std::vector<uint64_t> addrs; for (auto& r : stackgen::ExecRanges(pbt::ReadFile(b.path))) for (uint64_t a = 0; a < r.second && a < 4000; ++a) addrs.push_back(r.first + a);
  auto want = stackgen::Symbolize(b.path, addrs, b.path);
  if (split == stackgen::kPart) {
    std::vector<std::string> a = {s.Bool() ? "dwp" : "llvm-dwp-18"}, in; size_t out_of = 0; std::string o, e; for (size_t i = 0; i < src.files.size(); ++i) { std::string f = c.Tmp("u" + std::to_string(i) + ".cc.dwo"); if (s.Chance(2, 3)) in.push_back(f); else ++out_of; } if (in.empty() || !out_of) throw pbt::Discard(); s.Shuffle(in);
    a.insert(a.end(), in.begin(), in.end()); a.push_back("-o"); a.push_back(b.path + ".dwp"); if (pbt::Exec(a, &o, &e)) { c.Label("did not package"); throw pbt::Discard(); } for (auto& f : in) unlink(f.c_str()); c.Label(a[0]);
  }
  std::unique_ptr<dw::Addr2line> a(dw::Addr2line::Create(b.path)); PBT_CHECK(a != nullptr, b.path);
  size_t compared = 0, inl = 0;
  for (uint64_t x : addrs) {
    auto& w = want[x]; if (w.empty() || !w[0].line || !w.back().start) continue;
    Stack g = Get(*a, x); ++compared; inl += w.size() > 1;
    PBT_CHECK(g.size() == w.size(), "at " << std::hex << x << " got " << stackgen::Show(g) << " want " << stackgen::Show(w));
    for (size_t i = 0; i < g.size(); ++i) PBT_CHECK(g[i].name == w[i].name && g[i].line == w[i].line && g[i].disc == w[i].disc && (g[i].start == w[i].start || !w[i].start) && Path(g[i]) == Path(w[i]), "frame " << i << " at " << std::hex << x << " got " << stackgen::Show(g) << " in " << Path(g[i]) << " want " << stackgen::Show(w) << " in " << Path(w[i]));
  }
  c.NonTrivial(inl > 0); c.LabelIf(compared > 0, "stacks compared");
}
void Dwo(Src& s, Case& c) { Compiled(s, c, stackgen::kDwo); }
void Dwp(Src& s, Case& c) { Compiled(s, c, stackgen::kDwp); }
void Part(Src& s, Case& c) { Compiled(s, c, stackgen::kPart); }
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite t; t.property = "P53"; t.rule = "some address has an inline chain";
  t.subs = {{"object files", Dwo, 400, 6000}, {"package", Dwp, 400, 6000}, {"part in a package", Part, 300, 4000}};
  return pbt::Main(argc, argv, t);
}
