// MODE: LLVM
// SOURCES: llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_content.cc addr2cu.cc llvm_propeller_formatting.cc pb:options
// TECHNIQUE: property-based testing: generated programs with independently encoded basic-block address maps, against a linear-scan reference
// LEVEL_NOTE: Random search over block maps (empty blocks, gaps, adjacent functions, aliases, duplicate names, several sections, three map versions); every address of a program is queried in both directions.
#include <unistd.h>
#include "bbprog.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_statistics.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo;
namespace {
using U = uint64_t;
std::string Name(std::optional<bb::H> h) { return h ? std::to_string(h->f) + "#" + std::to_string(h->b) : "none"; }
void Mapper(Src& s, Case& c) { s.NoGrow();  // long functions are drawn by themselves; every path is compared

  bb::Opts o; bool all = s.Chance(1, 4); o.zero_funcs = !all; bool lng = s.Chance(1, 60); if (lng) { o.min_blocks = 30; o.max_blocks = 300; o.max_funcs = 2; o.falling = true; } bb::Program p = bb::Generate(s, o); std::string path = c.Tmp("bin"); pbt::WriteFile(path, bb::Write(&p)); bool text = s.Bool();
  std::set<U> hot; int n = 0; if (!all) while (s.More(n, 0, 30, 8)) { ++n; hot.insert(s.Chance(1, 10) ? s.U64() : bb::SomeAddress(s, p)); }
  c.Describe([&] { std::string r = bb::Show(p) + (text ? "code sections only, " : ""); if (all) return r + "all functions"; r += "sampled:"; for (U a : hot) { char b[20]; snprintf(b, 20, " %llx", (unsigned long long)a); r += b; } return r; });
  auto content = GetBinaryContent(path); unlink(path.c_str()); PBT_CHECK(content.ok(), "binary refused: " << content.status().ToString()); PBT_EQ((*content)->build_id, bb::BuildIdHex(p), "build id");
  PropellerOptions opt; opt.set_filter_non_text_functions(text); PropellerStats st; absl::flat_hash_set<uint64_t> ha(hot.begin(), hot.end()); auto r = BuildBinaryAddressMapper(opt, **content, st, all ? nullptr : &ha); PBT_CHECK(r.ok(), "no mapper: " << r.status().ToString()); auto& m = **r;
  int dups = 0, nhot = 0, unnamed = 0; std::set<int> sel = bb::Select(p, all ? nullptr : &hot, text, &dups, &nhot); for (auto& f : p.funcs) unnamed += bb::NamesAt(p, f.addr).empty();
  PBT_EQ(pbt::ToText(std::set<int>(m.selected_functions().begin(), m.selected_functions().end()), 0), pbt::ToText(sel, 0), "selected functions"); PBT_EQ(st.bbaddrmap_stats.duplicate_symbols, dups, "duplicate symbols"); if (!all) PBT_EQ(st.bbaddrmap_stats.hot_functions, nhot, "sampled functions"); PBT_EQ(st.bbaddrmap_stats.bbaddrmap_function_does_not_have_symtab_entry, unnamed, "functions without symbol");
  std::vector<bb::H> want; bool empty = false, multi = false; for (int i : sel) for (size_t k = 0; k < p.funcs[i].blocks.size(); ++k) { want.push_back({i, (int)k}); empty |= !p.funcs[i].blocks[k].size; multi |= k > 0; }
  c.NonTrivial(sel.size() > 1 && multi); c.LabelIf(empty, "empty blocks"); c.LabelIf(lng, "long functions"); c.LabelIf(dups, "duplicate names"); c.LabelIf(sel.size() < p.funcs.size(), "some functions left out"); c.LabelIf(p.secs.size() > 1, "several sections"); c.LabelIf(unnamed, "functions without name");
  auto& hs = m.bb_handles(); PBT_EQ(hs.size(), want.size(), "blocks"); PBT_EQ(m.symbol_info_map().size(), sel.size(), "named functions");
  for (size_t i = 0; i < hs.size(); ++i) { auto w = want[i]; auto& f = p.funcs[w.f]; auto& b = f.blocks[w.b]; PBT_CHECK(hs[i].function_index == w.f && hs[i].bb_index == w.b, "block " << i << " is " << hs[i].function_index << "#" << hs[i].bb_index << ", want " << Name(w)); auto& e = m.GetBBEntry(hs[i]); PBT_EQ(m.GetAddress(hs[i]), f.At(w.b), Name(w) << " address"); PBT_EQ(m.GetEndAddress(hs[i]), f.EndOf(w.b), Name(w) << " end"); PBT_EQ(e.ID, b.id, Name(w) << " id"); PBT_EQ(e.canFallThrough(), b.Falls(), Name(w) << " falls through"); PBT_EQ(e.hasReturn(), b.Returns(), Name(w) << " returns"); PBT_EQ(e.isEHPad(), b.Pad(), Name(w) << " landing pad"); }
  for (int i : sel) { auto& info = m.symbol_info_map().at(i); std::vector<std::string> al; for (auto& a : info.aliases) al.push_back(a.str()); PBT_EQ(pbt::ToText(al, 0), pbt::ToText(bb::NamesAt(p, p.funcs[i].addr), 0), "names of function " << i); PBT_EQ(info.section_name.str(), bb::SectionOf(p, p.funcs[i]), "section of function " << i); PBT_EQ(m.GetName({i, 0}), al[0] + ":0", "block name"); PBT_EQ(m.GetFunctionEntry({i, 0}).getFunctionAddress(), p.funcs[i].addr, "function address"); }
  auto Probe = [&](U a) { for (bool to : {false, true}) { auto g = m.FindBbHandleIndexUsingBinaryAddress(a, to ? BranchDirection::kTo : BranchDirection::kFrom); auto w = bb::Find(p, sel, a, to); if (g) PBT_CHECK(*g >= 0 && *g < (int)hs.size(), "index out of range"); std::optional<bb::H> gh; if (g) gh = bb::H{hs[*g].function_index, hs[*g].bb_index}; PBT_EQ(Name(gh), Name(w), "block for a branch " << (to ? "to " : "from ") << std::hex << a); } };
  for (auto& sc : p.secs) for (U a = sc.addr - 2; a < sc.addr + sc.data.size() + 2; ++a) Probe(a); for (U a : {U{0}, ~U{0}, U{1} << 63, s.U64(), s.U64(1 << 24)}) Probe(a);
  auto Falls = [&](size_t i, size_t j) { PBT_EQ(m.CanFallThrough(i, j), bb::CanFall(p, want[i], want[j]), "fall-through from " << Name(want[i]) << " to " << Name(want[j])); };
  if (hs.size()) { if (hs.size() <= 16) for (size_t i = 0; i < hs.size(); ++i) for (size_t j = 0; j < hs.size(); ++j) Falls(i, j); else for (int k = 0; k < 200; ++k) { size_t i = s.Draw(hs.size() - 1), j = std::min<size_t>(hs.size() - 1, i + s.Draw(lng && s.Bool() ? 250 : 6)); Falls(i, j); if (s.Chance(1, 8)) Falls(j, i); } }
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P29"; su.rule = "at least two selected functions and a function with several blocks";
  su.assumptions = {"functions ascend in address and have at least one block", "functions without any code occur only where sampled addresses select the functions", "one function's symbols have different names"};
  su.subs = {{"mapper", Mapper, 150000, 2000000}};
  return pbt::Main(argc, argv, su);
}
