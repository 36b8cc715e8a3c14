// MODE: LLVM
// SOURCES: addr2line.cc source_info.cc
// TECHNIQUE: property-based testing: generated programs (compiled by clang and GCC, and debug information written directly), inline stacks compared with llvm-symbolizer and with the generator's own model
// LEVEL_NOTE: Random search over programs, compilers, options and addresses. Trusts llvm-symbolizer for compiled programs.
#include <memory>

#include "addr2line.h"
#include "base/commandlineflags.h"
#include "dwarfprog.h"
#include "stackgen.h"
using stackgen::Frame; using stackgen::Stack; using pbt::Case; using pbt::Src;
namespace dw = devtools_crosstool_autofdo;

namespace {
Stack Get(const dw::Addr2line& a, uint64_t addr) {
  dw::SourceStack st; a.GetInlineStack(addr, &st); Stack r; for (auto& x : st) r.push_back({x.func_name ? x.func_name : "", x.start_line, x.line, x.discriminator, x.file_name, x.dir_name}); return r;
}
void Compiled(Src& s, Case& c) {
  auto src = stackgen::GenSource(s); auto b = stackgen::Compile(s, c, src, true); c.Describe([&] { return b.flags + "\n" + src.text(); });
  if (!b.ok) throw pbt::Discard();
  std::vector<uint64_t> addrs; for (auto& r : stackgen::ExecRanges(pbt::ReadFile(b.path))) for (uint64_t a = 0; a < r.second && a < 4000; ++a) addrs.push_back(r.first + a);
  auto want = stackgen::Symbolize(b.path, addrs, b.path);
  std::unique_ptr<dw::Addr2line> a(dw::Addr2line::Create(b.path)); PBT_CHECK(a != nullptr, b.path);
  size_t compared = 0, inl = 0;
  for (uint64_t x : addrs) {
    auto& w = want[x]; if (w.empty() || !w[0].line || !w.back().start) continue;
    Stack g = Get(*a, x); ++compared; inl += w.size() > 1;
    PBT_CHECK(g.size() == w.size(), "at " << std::hex << x << " got " << stackgen::Show(g) << " want " << stackgen::Show(w));
    for (size_t i = 0; i < g.size(); ++i) PBT_CHECK(g[i].name == w[i].name && g[i].line == w[i].line && g[i].disc == w[i].disc && (g[i].start == w[i].start || !w[i].start), "frame " << i << " at " << std::hex << x << " got " << stackgen::Show(g) << " want " << stackgen::Show(w));
  }
  c.NonTrivial(inl > 0); c.LabelIf(compared > 0, "stacks compared");
}
// A kernel module (relocatable) against the same object linked at a fixed address.
void Module(Src& s, Case& c) {
  auto src = stackgen::GenSource(s, true); std::string f = c.Tmp("m.cc"), ko = c.Tmp("m.ko"), exe = c.Tmp("m.exe"); pbt::WriteFile(f, src.files[0]); bool cl = s.Bool();
  std::vector<std::string> a = {cl ? "clang++-18" : "g++", "-c", "-w", s.OneOf<const char*>({"-O2", "-O1", "-O0", "-O3"}), "-gdwarf-" + std::to_string(s.Int(4, 5)), "-fno-exceptions", "-fno-stack-protector", "-fcf-protection=none", "-o", ko, f}; if (!cl) a.push_back("-fno-reorder-blocks-and-partition"); if (cl && s.Bool()) a.push_back("-fdebug-info-for-profiling");
  std::string flags, err; for (auto& x : a) flags += x + " "; c.Describe([&] { return flags + "\n" + src.text(); });
  if (pbt::Exec(a, nullptr, &err)) throw pbt::Discard(); if (pbt::Exec({"ld", "-Ttext=0x10000", "--unresolved-symbols=ignore-all", "-e", "0", "-o", exe, ko}, nullptr, &err)) throw pbt::Discard();
  auto r = stackgen::ExecRanges(pbt::ReadFile(exe)); size_t n = 0; for (auto& x : r) n += x.first == 0x10000; auto rk = stackgen::ExecRanges(pbt::ReadFile(ko)); if (n != 1 || rk.size() != 1) throw pbt::Discard();
  std::vector<uint64_t> addrs; for (uint64_t k = 0; k < rk[0].second && k < 4000; ++k) addrs.push_back(0x10000 + k);
  auto want = stackgen::Symbolize(exe, addrs, exe); std::unique_ptr<dw::Addr2line> d(dw::Addr2line::Create(ko)); PBT_CHECK(d != nullptr, ko); size_t inl = 0;
  for (uint64_t x : addrs) {
    auto& w = want[x]; if (w.empty() || !w.back().start) continue; Stack g = Get(*d, x - 0x10000); inl += w.size() > 1;
    PBT_CHECK(g.size() == w.size(), "at " << std::hex << x - 0x10000 << " got " << stackgen::Show(g) << " want " << stackgen::Show(w));
    for (size_t i = 0; i < g.size(); ++i) PBT_CHECK(g[i].name == w[i].name && g[i].line == w[i].line && g[i].disc == w[i].disc && (g[i].start == w[i].start || !w[i].start), "frame " << i << " at " << std::hex << x - 0x10000 << " got " << stackgen::Show(g) << " want " << stackgen::Show(w));
  }
  c.NonTrivial(inl > 0); c.Label(cl ? "clang module" : "gcc module");
}
void Written(Src& s, Case& c) {
  auto p = dwarfprog::Generate(s, true); std::string path = c.Tmp("prog"); pbt::WriteFile(path, p.elf); c.Describe([&] { if (getenv("KEEP")) pbt::WriteFile(getenv("KEEP"), p.elf); return p.text; });
  std::unique_ptr<dw::Addr2line> a(dw::Addr2line::Create(path)); PBT_CHECK(a != nullptr, path);
  for (uint64_t x : p.addrs) {
    auto it = p.stacks.find(x); Stack g = Get(*a, x), w; bool in = it != p.stacks.end(); if (in) w = it->second; if (!in) { PBT_CHECK(g.empty(), "outside at " << std::hex << x << " got " << stackgen::Show(g)); continue; }
    PBT_CHECK(g.size() == w.size(), "at " << std::hex << x << " got " << stackgen::Show(g) << " want " << stackgen::Show(w));
    for (size_t i = 0; i < g.size(); ++i) PBT_CHECK(g[i].name == w[i].name && g[i].line == w[i].line && g[i].disc == w[i].disc && g[i].start == w[i].start && g[i].file == w[i].file && (w[i].dir.empty() || g[i].dir == w[i].dir), "frame " << i << " at " << std::hex << x << " got " << stackgen::Show(g) << " " << g[i].dir << "/" << g[i].file << " want " << stackgen::Show(w) << " " << w[i].dir << "/" << w[i].file);
  }
  c.NonTrivial(p.max_depth > 1); c.Label("depth " + std::to_string(std::min<size_t>(p.max_depth, 6))); for (auto& u : p.units) c.Label("DWARF " + std::to_string(u.ver)); c.LabelIf(p.units.size() > 1, "several units");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite t; t.property = "P46"; t.rule = "some address has an inline chain";
  t.subs = {{"written debug information", Written, 30000, 600000}, {"compiled programs", Compiled, 300, 6000}, {"kernel modules", Module, 150, 3000}};
  return pbt::Main(argc, argv, t);
}
