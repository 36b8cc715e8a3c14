// MODE: LLVM
// SOURCES: profile_symbol_list.cc llvm_profile_writer.cc llvm_profile_reader.cc profile_writer.cc gcov.cc symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated symbol tables, sizes and shares against a reference selection, and round trips of the list through files
// LEVEL_NOTE: Random search; shares that are not multiples of 1/1024 are skipped when the exact threshold is within rounding of an integer.
#include <cmath>
#include <unistd.h>
#include "llvm/ProfileData/SampleProfWriter.h"
#include "elfgen.h"
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "profgen.h"
#include "profile_symbol_list.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; namespace sp = llvm::sampleprof;
namespace {
using List = std::vector<std::pair<std::string, uint64_t>>;
std::set<std::string> Names(const sp::ProfileSymbolList& l) { std::set<std::string> r; std::string t; llvm::raw_string_ostream o(t); const_cast<sp::ProfileSymbolList&>(l).dump(o); o.flush(); size_t i = t.find('\n'); i = i == std::string::npos ? t.size() : i + 1; while (i < t.size()) { size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size(); if (j > i) r.insert(t.substr(i, j - i)); i = j + 1; } return r; }
std::string Orig(const std::string& n, const std::string& pol) { if (pol == "none" || (pol == "all" && n[0] == '.')) return n; if (pol == "all") return n.substr(0, n.find('.')); std::string r = n; size_t k = r.rfind(".cold"); if (k != r.npos) r.erase(k, 5); for (std::string x : {".llvm.", ".__part."}) { k = r.rfind(x); if (k == r.npos) continue; size_t e = r.find('.', k + x.size()); r.erase(k, e == r.npos ? r.npos : e - k); } return r; }
std::string GenSym(Src& s, int i) {
  std::string b = s.OneOf<std::string>({"f", "main", "_ZN3foo3barEv", "a_long_function_name", "x"}) + std::to_string(s.Chance(1, 4) ? s.Draw(6) : i);
  switch (s.Weighted({6, 1, 1, 1, 1, 1})) { case 1: b += ".cold"; break; case 2: b += ".llvm." + std::to_string(s.Draw(99999)); break; case 3: b += ".__part." + std::to_string(s.Draw(3)); break; case 4: b += s.Bool() ? ".isra.0" : ".constprop.1"; break; case 5: if (s.Bool()) b += ".llvm.77.cold"; else b = "." + b; break; }
  return b;
}
struct Ratio { double r; std::string show; bool sure(uint64_t total) const { if (!frac) return true; long double x = (long double)total * (long double)r; return std::fabs((double)(x - roundl(x))) > 1e-6 * std::max<long double>(1, x) * 1e-6 + 1e-9; } bool frac = false; };
Ratio GenRatio(Src& s) { Ratio q; switch (s.Weighted({4, 2, 2, 3})) { case 0: { uint64_t k = s.Draw(1024); q.r = k / 1024.0; break; } case 1: q.r = 1; break; case 2: q.r = s.OneOf<double>({0.5, 0.25, 0.75, 0.0}); break; default: q.r = s.Draw(1000) / 1000.0; q.frac = true; } q.show = std::to_string(q.r); return q; }
uint64_t GenSize(Src& s) { switch (s.Weighted({5, 3, 1, 1})) { case 0: return s.Draw(20); case 1: return s.Draw(5000); case 2: return 1ull << s.Draw(24); default: return s.U64(1ull << 36); } }
// The reference: which sizes are in.
bool Cutoff(const std::vector<uint64_t>& sizes, double ratio, uint64_t* cutoff) {
  std::vector<uint64_t> v = sizes; std::sort(v.rbegin(), v.rend()); uint64_t total = 0; for (auto x : v) total += x;
  if (ratio == 0 || v.empty()) return false; uint64_t threshold = (uint64_t)((double)total * ratio); if (v[0] > threshold) return false;
  uint64_t sum = 0; for (auto x : v) { sum += x; if (sum >= threshold) { *cutoff = x; return true; } } return false;
}
void Fill(Src& s, Case& c) {
  List l; int n = 0; uint64_t total = 0; while (s.More(n, 0, 40, s.Chance(1, 3) ? 15 : 5)) { ++n; uint64_t z = !l.empty() && s.Chance(1, 4) ? l[s.Draw(l.size() - 1)].second : GenSize(s); l.push_back({GenSym(s, n), z}); total += z; }
  Ratio q = GenRatio(s); std::string pol = s.OneOf<std::string>({"all", "none", "selected"});
  if (!l.empty() && (total == 0 || !q.sure(total))) throw pbt::Discard();
  c.Describe([&] { std::string r = "share " + q.show + " suffixes " + pol + ":"; for (auto& [a, b] : l) r += " " + a + "=" + std::to_string(b); return r; });
  std::vector<uint64_t> sizes; for (auto& x : l) sizes.push_back(x.second); uint64_t cut = 0; bool any = Cutoff(sizes, q.r, &cut);
  std::set<std::string> want; size_t in = 0; if (any) for (auto& [a, b] : l) if (b >= cut) { want.insert(Orig(a, pol)); ++in; }
  c.NonTrivial(in > 0 && in < l.size()); c.LabelIf(!any && q.r > 0 && !l.empty(), "largest alone exceeds the share"); c.LabelIf(q.r == 1, "everything"); c.LabelIf(q.r == 0, "share zero");
  dca::SymbolMap m; m.set_suffix_elision_policy(pol); dca::NameSizeList nsl; for (auto& [a, b] : l) nsl.emplace_back(llvm::StringRef(pg::Intern(a)), b);
  sp::ProfileSymbolList out; std::set<std::string> pre; if (s.Chance(1, 6)) { out.add("earlier"); pre.insert("earlier"); }
  if (s.Chance(1, 60) && !l.empty()) { double bad = s.OneOf<double>({-1.0, 1.5, -0.001, 1.001}); PBT_CHECK(pbt::Dies([&] { dca::fillProfileSymbolList(&out, nsl, &m, bad); }), "a share of " << bad << " is accepted"); c.Label("share out of range"); return; }
  dca::fillProfileSymbolList(&out, nsl, &m, q.r);
  for (auto& x : pre) want.insert(x);
  PBT_EQ(pbt::ToText(Names(out), 0), pbt::ToText(want, 0), "listed names (cutoff " << cut << ")");
}
struct Sym { std::string name; uint64_t addr, size; int type, bind; };
std::string MakeElf(std::vector<Sym>& v, Src& s) {
  elfgen::Image im; im.is64 = s.Chance(4, 5); im.machine = im.is64 ? 62 : 3; im.secs.resize(1);
  elfgen::Sec text; text.name = ".text"; text.flags = 6; text.addr = 0x1000; text.data = "\x90"; im.secs.push_back(text);
  elfgen::Sec st; st.name = ".symtab"; st.type = 2; st.entsize = im.is64 ? 24 : 16; st.link = 3; st.info = 1; std::string str(1, 0); elfgen::PutSym(&st.data, im, 0, 0, 0, 0, 0, 0, 0);
  for (auto& y : v) { uint32_t off = str.size(); str += y.name; str += '\0'; elfgen::PutSym(&st.data, im, off, y.bind, y.type, 0, 1, y.addr, y.size); }
  im.secs.push_back(st); elfgen::Sec ss; ss.name = ".strtab"; ss.type = 3; ss.data = str; im.secs.push_back(ss); elfgen::Sec sh; sh.name = ".shstrtab"; sh.type = 3; im.secs.push_back(sh); im.shstrndx = 4;
  return elfgen::Write(&im);
}
void CollectUsed(const std::string& n, const pg::Func& f, std::set<std::string>* u) { u->insert(n); for (auto& [k, l] : f.lines) for (auto& [t, x] : l.targets) u->insert(t); for (auto& [k, cf] : f.calls) CollectUsed(k.second, cf, u); }
void Creator(Src& s, Case& c) {
  absl::SetFlag(&FLAGS_suffix_elision_policy, s.OneOf<std::string>({"all", "none", "selected"})); std::string pol = absl::GetFlag(FLAGS_suffix_elision_policy);
  // A symbol table of functions and other things.
  std::vector<Sym> syms; uint64_t a = 0x1000; int n = 0; std::set<std::string> used_names;
  while (s.More(n, 0, 25, 8)) { ++n; Sym y; y.name = s.Chance(1, 3) ? s.OneOf<std::string>({"main", "foo", "bar", "_ZN1A1fEv", "qux", "_Z3barv", "baz123"}) : GenSym(s, n); if (!used_names.insert(y.name).second) continue; a += 0x10 * s.Draw(4); y.addr = a; y.size = s.Chance(1, 8) ? 0 : s.Draw(200); a += y.size + 1; y.type = s.Weighted({8, 1, 1}) == 0 ? 2 : s.Bool() ? 1 : 0; y.bind = s.Draw(1); syms.push_back(y); }
  std::string path = c.Tmp("bin"), out = c.Tmp("prof"); pbt::WriteFile(path, MakeElf(syms, s));
  pg::Opt o; for (auto& y : syms) o.extra_names.push_back(y.name); o.max_funcs = 4; o.max_disc = 7; o.big_counts = false; pg::Profile p = pg::Gen(s, o);
  for (auto it = p.begin(); it != p.end();) if (it->second.Total() == 0 && it->second.HasTargets()) it = p.erase(it); else ++it;
  dca::SymbolMap m(path); pg::Build(p, &m, &s);
  std::set<std::string> used; for (auto& [nm, f] : p) if (f.Total() > 0) { pg::Profile one; std::function<pg::Func(const pg::Func&)> canon = [&](const pg::Func& x) { pg::Func r = x; for (auto& [k, l] : r.lines) { std::map<std::string, uint64_t> t; for (auto& [tn, q] : l.targets) t[Orig(tn, pol)] = q; l.targets = t; } for (auto& [k, q] : r.calls) q = canon(q); return r; }; CollectUsed(nm, canon(f), &used); }
  List want; size_t removed = 0; for (auto& y : syms) { bool fn = y.size && (y.type == 2 || (y.name.size() > 5 && y.name.substr(y.name.size() - 5) == ".cold") || [&] { size_t k = y.name.rfind(".__part."); return k != y.name.npos && y.name.size() > k + 8 && y.name.find_first_not_of("0123456789", k + 8) == y.name.npos; }()); if (!fn) continue; if (used.count(y.name)) { ++removed; continue; } want.push_back({y.name, y.size}); }
  std::set<std::pair<std::string, uint64_t>> W(want.begin(), want.end()), G; dca::NameSizeList nsl = m.collectNamesForProfSymList(); for (auto& [x, z] : nsl) PBT_CHECK(G.insert({x.str(), z}).second, x.str() << " is listed twice");
  c.Describe([&] { std::string r = "suffixes " + pol + "\n"; for (auto& y : syms) r += y.name + "@" + std::to_string(y.addr) + "+" + std::to_string(y.size) + " type " + std::to_string(y.type) + "\n"; return r + pg::Show(p); });
  c.NonTrivial(removed > 0 && want.size() > 1);
  for (auto& x : W) PBT_CHECK(G.count(x), x.first << " of size " << x.second << " is not in the list of unsampled functions"); for (auto& x : G) PBT_CHECK(W.count(x), x.first << " of size " << x.second << " is in the list of unsampled functions");
  // As the profile creator does: fill, write, read back.
  Ratio q = GenRatio(s); uint64_t total = 0; std::vector<uint64_t> sizes; for (auto& [x, z] : want) total += z, sizes.push_back(z); if (!q.sure(total)) q = Ratio{1.0, "1"};
  sp::ProfileSymbolList list; dca::fillProfileSymbolList(&list, nsl, &m, q.r); bool comp = s.Bool(); list.setToCompress(comp);
  std::set<std::string> names; uint64_t cut; if (Cutoff(sizes, q.r, &cut)) for (auto& [x, z] : want) if (z >= cut) names.insert(Orig(x, pol));
  PBT_EQ(pbt::ToText(Names(list), 0), pbt::ToText(names, 0), "list for share " << q.show);
  { dca::LLVMProfileWriter w(sp::SPF_Ext_Binary); w.setSymbolMap(&m); auto* sw = w.CreateSampleWriter(out); PBT_CHECK(sw, "no writer"); sw->setProfileSymbolList(&list); if (s.Chance(1, 3)) sw->setToCompressAllSections(); PBT_CHECK(w.WriteToFile(out), "cannot write"); }
  absl::node_hash_set<std::string> set; dca::SymbolMap back; dca::LLVMProfileReader rd(&back, set); PBT_CHECK(rd.ReadFromFile(out), "cannot read back"); auto* l2 = rd.GetProfileSymbolList(); PBT_CHECK(l2 || names.empty(), "the list is lost"); if (l2) PBT_EQ(pbt::ToText(Names(*l2), 0), pbt::ToText(names, 0), "list read back"); unlink(path.c_str()); unlink(out.c_str());
  c.LabelIf(comp, "compressed list"); c.LabelIf(names.size() > 1, "list with several names");
}
// Lists of several files are united, as the merger does.
void Unite(Src& s, Case& c) {
  int k = 1 + s.Draw(3); std::set<std::string> want; sp::ProfileSymbolList all; std::string d; size_t mx = 0;
  for (int i = 0; i < k; ++i) {
    std::set<std::string> names; int n = 0; while (s.More(n, 0, 30, 6)) { ++n; names.insert(s.Chance(1, 10) ? "n" + std::string(s.Draw(600), 'y') : GenSym(s, n)); }
    sp::ProfileSymbolList l; for (auto& x : names) l.add(pg::Intern(x)); l.setToCompress(s.Bool()); pg::Opt o; o.max_funcs = 2; pg::Profile p = pg::Gen(s, o); dca::SymbolMap m; pg::Build(p, &m, &s); std::string f = c.Tmp("l" + std::to_string(i));
    { dca::LLVMProfileWriter w(sp::SPF_Ext_Binary); w.setSymbolMap(&m); auto* sw = w.CreateSampleWriter(f); sw->setProfileSymbolList(&l); PBT_CHECK(w.WriteToFile(f), "cannot write"); }
    absl::node_hash_set<std::string> set; dca::SymbolMap back; { dca::LLVMProfileReader rd(&back, set); PBT_CHECK(rd.ReadFromFile(f), "cannot read back"); auto* l2 = rd.GetProfileSymbolList(); std::set<std::string> got; if (l2) got = Names(*l2), all.merge(*l2); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(names, 0), "list of file " << i); }
    unlink(f.c_str()); for (auto& x : names) want.insert(x); d += "file " + std::to_string(i) + ": " + pbt::ToText(names, 0) + "\n"; mx = std::max(mx, names.size());
  }
  c.Describe([&] { return d; }); c.NonTrivial(k > 1 && want.size() > mx); PBT_EQ(pbt::ToText(Names(all), 0), pbt::ToText(want, 0), "the union");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P12"; su.scale = 4; su.rule = "fill: some but not all functions are selected; creator: a function is left out because it occurs in the profile and at least two remain; unite: at least two files of which none has all names";
  su.subs = {{"fill", Fill, 60000, 3000000}, {"creator", Creator, 8000, 300000}, {"unite", Unite, 5000, 150000}};
  su.assumptions = {"sizes below 2^37", "shares other than multiples of 1/1024 only where the exact threshold is not within rounding of an integer", "the binary has at most one function per address in the creator sub-check"};
  return pbt::Main(argc, argv, su);
}
