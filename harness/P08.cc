// MODE: LLVM
// SOURCES: symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated profiles with compiler-suffixed clones, aliases and call targets under each policy against a reference that groups by base name and adds
// LEVEL_NOTE: Random search. Names are built from a base and suffixes, so the base is known without taking names apart.
#include "symtree.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
namespace {
struct Name { std::string full, all, selected; };  // and what it becomes under each policy
std::string Fold(const Name& n, const std::string& pol) { return pol == "all" ? n.all : pol == "selected" ? n.selected : n.full; }
Name GenName(Src& s, bool small, bool repeat = true) {
  std::string b = small ? s.OneOf<std::string>({"f", "g", "_ZN1A1fEv"}) : s.OneOf<std::string>({"f", "main", "_ZN3foo3barEv", "cold", "llvm", "x_cold", "a__part", "operator", "_Z1fIXadL_Z1gvEEEvv"});
  bool asm_name = s.Chance(1, 12) && b != "cold" && b != "llvm"; if (asm_name) b = "." + b; Name n{b, b, b}; int k = 0; std::set<int> used; bool foreign = false; std::vector<std::pair<int, std::string>> segs;
  while (s.More(k, 0, 4, small ? 1 : 1)) {
    ++k; int t = s.Draw(5); if (!used.insert(t).second && (!repeat || s.Bool())) continue; std::string x, id = std::to_string(s.Draw(small ? 2 : 99999999));
    bool kept = false; switch (t) { case 0: x = ".cold"; break; case 1: x = ".llvm." + id; break; case 2: x = ".__part." + id; break; case 3: x = ".constprop." + id; kept = true; break; case 4: x = ".part." + id; kept = true; break; default: x = s.OneOf<std::string>({".clone", ".0", ".foo.1", "."}); kept = true; }
    if (n.full.back() == '.') break; if (x == "." && s.Chance(3, 4)) continue; n.full += x; segs.push_back({t, x}); foreign |= kept;
  }
  // Of each strippable kind the last occurrence goes.
  for (int t = 0; t < 3; ++t) for (size_t i = segs.size(); i-- > 0;) if (segs[i].first == t) { segs[i].second.clear(); break; } for (auto& x : segs) n.selected += x.second;
  if (asm_name) n.all = n.full; (void)foreign; return n;
}
void Names(Src& s, Case& c) {
  Name n = GenName(s, false); std::string pol = s.OneOf<std::string>({"all", "selected", "none"}); c.Describe([&] { return pol + " " + n.full; }); dca::SymbolMap m; m.set_suffix_elision_policy(pol); PBT_EQ(m.suffix_elision_policy(), pol, "policy");
  PBT_EQ(m.GetOriginalName(n.full), Fold(n, pol), "base name of " << n.full << " under " << pol); c.NonTrivial(n.full != n.all && n.full != n.selected); c.Label(pol); c.LabelIf(n.full[0] == '.', "assembly name"); c.LabelIf(n.selected != n.all && n.selected != n.full, "mixed suffixes");
}
void Folding(Src& s, Case& c) {
  std::string pol = s.OneOf<std::string>({"all", "selected", "none"}); std::map<std::string, Name> names; int k = 0; while (s.More(k, 1, 12, 6)) { ++k; Name n = GenName(s, true, false); names[n.full] = n; }
  std::vector<std::string> callees = {"f", "g", "f.cold", "h.llvm.3"}; st::Gen g{s, callees}; g.max_depth = 2; g.consistent = s.Bool();
  // Each name has its own symbol or shares the one of another name with the same base.
  std::map<std::string, int> owner; std::vector<st::Sym> obj; std::map<std::string, std::vector<int>> group; int shared = 0;
  for (auto& [f, n] : names) { auto& gr = group[Fold(n, pol)]; if (!gr.empty() && s.Chance(1, 4)) { owner[f] = s.Pick(gr); ++shared; continue; } st::Sym y; y.func = f; st::Fill(g, &y, 0); owner[f] = obj.size(); gr.push_back(obj.size()); obj.push_back(y); }
  // An unrelated second name for a function that is folded alone.
  std::string extra; if (s.Chance(1, 3)) for (auto& [b, gr] : group) if (gr.size() == 1 && s.Bool()) { extra = b; break; }
  c.Describe([&] { std::ostringstream o; o << pol << "\n"; for (auto& [f, i] : owner) { o << f << " symbol " << i << " "; st::Show(o, obj[i], 1); } if (extra.size()) o << "zz is another name of " << extra << "\n"; return o.str(); });
  st::Map want; size_t folded = 0; for (auto& [b, gr] : group) { st::Sym y = obj[gr[0]]; y.func = b; y.file = y.dir = ""; for (size_t i = 1; i < gr.size(); ++i) { st::Sym z = obj[gr[i]]; st::Merge(&y, z); } want[b] = y; } for (auto& [f, n] : names) folded += Fold(n, pol) != f;
  c.NonTrivial(folded && group.size() < obj.size()); c.Label(pol); c.LabelIf(shared, "aliases"); c.LabelIf(extra.size(), "second name"); c.LabelIf(folded > 3, "many clones");
  std::vector<dca::Symbol*> real; for (auto& o : obj) real.push_back(st::Make(o)); dca::NameSymbolMap nm; for (auto& [f, i] : owner) nm[f] = real[i]; if (extra.size()) nm["zz"] = real[group[extra][0]];
  dca::SymbolMap m; m.set_suffix_elision_policy(pol); m.AddSymbolMappings(nm); m.ElideSuffixesAndMerge(); st::DiffOpt o; o.files = false;
  st::Map got = st::From(m); if (extra.size()) { PBT_CHECK(got.count("zz"), "the second name of " << extra << " is gone"); PBT_CHECK(m.map().at("zz") == m.map().at(extra), "zz and " << extra << " are no longer one function"); got.erase("zz"); }
  for (auto& [n, y] : got) if (pol == "none" || names.count(n)) y.func = n; std::string d = st::Diff(got, want, o); PBT_CHECK(d.empty(), d);
  auto once = st::From(m); m.ElideSuffixesAndMerge(); bool stable = true; for (auto& [b, gr] : group) { dca::SymbolMap t; t.set_suffix_elision_policy(pol); stable &= t.GetOriginalName(b) == b; } if (stable) { d = st::Diff(st::From(m), once); PBT_CHECK(d.empty(), "folding again: " << d); }
}
// Call targets are recorded under their base names, adding up.
void Targets(Src& s, Case& c) {
  std::string pol = s.OneOf<std::string>({"all", "selected", "none"}); dca::SymbolMap m; m.set_suffix_elision_policy(pol); m.AddSymbol("main"); std::map<uint64_t, std::map<std::string, uint64_t>> want; std::ostringstream log; int k = 0; size_t hits = 0;
  while (s.More(k, 1, 25, 8)) { ++k; Name n = GenName(s, true); uint32_t line = s.Draw(2), disc = s.Draw(1); uint64_t v = s.Chance(1, 8) ? s.U64(1ull << 50) : s.Draw(100); auto src = s.OneOf({dca::SymbolMap::PERFDATA, dca::SymbolMap::AFDOPROFILE, dca::SymbolMap::AFDOPROTO}); dca::SourceStack st; st.push_back(pg::MakeInfo("main", "", (uint64_t)line << 32 | disc, 0)); st[0].file_name = "a.c"; uint64_t key = st[0].Offset(false); auto& t = want[key]; hits += t.count(Fold(n, pol)); log << " " << line << "." << disc << " " << n.full << ":" << v; if (src != dca::SymbolMap::AFDOPROFILE && st[0].HasInvalidInfo()) { PBT_CHECK(!m.AddIndirectCallTarget("main", st, n.full, v, src), "no position"); continue; } PBT_CHECK(m.AddIndirectCallTarget("main", st, n.full, v, src), "not added"); t[Fold(n, pol)] += v; }
  c.Describe([&] { return pol + log.str(); }); c.NonTrivial(hits); c.Label(pol); auto y = st::From(*m.map().at("main")); for (auto& [key, t] : want) PBT_EQ(pbt::ToText(y.pos[key].targets, 0), pbt::ToText(t, 0), "targets at " << st::At(key));
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P08"; su.rule = "names: both policies change the name; fold: a function with several clones is folded; targets: a target is hit twice";
  su.subs = {{"names", Names, 1000000, 10000000}, {"fold", Folding, 80000, 2000000}, {"targets", Targets, 500000, 4000000}};
  su.assumptions = {"of a suffix kind that occurs more than once in a name, the last occurrence is stripped; when folding, each kind occurs once in a name", "a name does not consist of a suffix alone", "'.lto_priv' and '.isra' suffixes are not generated under the 'selected' policy"};
  return pbt::Main(argc, argv, su);
}
