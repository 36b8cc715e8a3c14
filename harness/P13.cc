// MODE: LLVM
// SOURCES: symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// BIN: profile_diff = profile_diff.cc llvm_profile_reader.cc symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated pairs of profiles against the definition of overlap and its metamorphic relations (order, multiples, disjoint and equal profiles), in process and through the profile_diff program
// LEVEL_NOTE: Random search over pairs of profiles. Single-precision arithmetic is allowed an error of a few units per function.
#include <cmath>
#include "symtree.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; using st::U; using st::Map;
namespace {
long double Sum(const Map& m) { long double t = 0; for (auto& [n, y] : m) t += y.total; return t; }
long double Want(const Map& a, const Map& b) { long double ta = Sum(a), tb = Sum(b), r = 0; if (ta == 0 || tb == 0) return 0; for (auto& [n, y] : a) { auto i = b.find(n); if (i != b.end()) r += std::min(y.total / ta, i->second.total / tb); } return r; }
float Get(const Map& a, const Map& b) { dca::SymbolMap x, y; st::Install(a, &x); st::Install(b, &y); return x.Overlap(y); }
bool Near(long double g, long double w, size_t n) { return std::fabs(g - w) <= 3e-7L * (n + 3); }
std::vector<std::string> Names(Src& s) { std::vector<std::string> v; int n = s.Bool() ? 4 : 40; for (int i = 0; i < n; ++i) v.push_back("fn" + std::to_string(i)); return v; }
Map Related(Src& s, st::Gen& g, const Map& a) {
  Map b = st::GenMap(g, g.names.size() > 10 ? 40 : 6); switch (s.Weighted({3, 3, 1})) { case 0: return b; case 1: for (auto& [n, y] : a) if (s.Chance(2, 3)) { b[n] = y; if (s.Bool()) b[n].total = b[n].total / 2 + s.Draw(50); } return b; default: return a; }
}
void Pairs(Src& s, Case& c) {
  st::Gen g{s, Names(s)}; g.max_depth = 1; g.consistent = s.Bool(); g.max_count = 1ull << (s.Bool() ? 20 : 50); if (s.Chance(1, 6)) g.big = false; Map a = st::GenMap(g, g.names.size() > 10 ? 40 : 6), b = Related(s, g, a);
  size_t common = 0; for (auto& [n, y] : a) common += b.count(n) && y.total && b[n].total; size_t n = a.size() + b.size(); long double w = Want(a, b); c.Describe([&] { return st::Show(a) + "--\n" + st::Show(b); }); c.NonTrivial(common && w > 0.001 && w < 0.999); c.LabelIf(common == 0, "nothing in common"); c.LabelIf(Sum(a) == 0 || Sum(b) == 0, "an empty profile"); c.LabelIf(w >= 0.999, "full"); c.LabelIf(n > 30, "many functions");
  float o = Get(a, b); PBT_CHECK(o >= 0 && o <= 1 + 3e-7 * (n + 3), "overlap " << o); PBT_CHECK(Near(o, w, n), "overlap " << o << ", want " << (double)w); float r = Get(b, a); PBT_CHECK(Near(o, r, 2 * n), "overlap " << o << ", in the other order " << r); if (!common) PBT_CHECK(o == 0 && r == 0, "overlap " << o << " with nothing in common");
  if (Sum(a) > 0) { PBT_CHECK(Near(Get(a, a), 1, n), "overlap with itself " << Get(a, a)); U k = 2 + s.Draw(1000); Map m = a; for (auto& [x, y] : m) y.total *= k; PBT_CHECK(Near(Get(a, m), 1, n), "overlap with " << k << " times itself " << Get(a, m)); PBT_CHECK(Near(Get(m, b), o, 2 * n), "overlap of " << k << " times the profile " << Get(m, b) << ", of the profile " << o); }
}
std::string Text(const Map& m) { std::ostringstream o; for (auto& [n, y] : m) { o << n << ":" << y.total << ":" << y.head << "\n"; for (auto& [k, p] : y.pos) { o << " " << (k >> 32); if ((uint32_t)k) o << "." << (uint32_t)k; o << ": " << p.count << "\n"; } for (auto& [k, q] : y.calls) { o << " " << (k.first >> 32); if ((uint32_t)k.first) o << "." << (uint32_t)k.first; o << ": " << k.second << ":" << q.total << "\n"; for (auto& [l, p] : q.pos) { o << "  " << (l >> 32); if ((uint32_t)l) o << "." << (uint32_t)l; o << ": " << p.count << "\n"; } } } return o.str(); }
std::string Pct(U a, U max) { char b[64]; snprintf(b, sizeof b, "%3.4f%%", 100 * (double)a / max); return b; }
void Program(Src& s, Case& c) {
  st::Gen g{s, Names(s)}; g.max_depth = 1; g.consistent = true; g.files = false; g.max_count = 1ull << 40;
  auto clean = [&](Map m) { for (auto& [n, y] : m) { std::function<void(st::Sym*)> go = [&](st::Sym* z) { U t = 0; for (auto& [k, p] : z->pos) { p.targets.clear(); t += p.count; } for (auto i = z->calls.begin(); i != z->calls.end();) { go(&i->second); if (i->second.pos.empty()) i = z->calls.erase(i); else { t += i->second.total; ++i; } } z->total = t; z->head = 0; }; go(&y); } for (auto i = m.begin(); i != m.end();) if (i->second.pos.empty() || !i->second.total) i = m.erase(i); else ++i; return m; };
  Map a = clean(st::GenMap(g, 12)), b = clean(Related(s, g, a)); if (a.empty()) { auto& y = a["fn0"]; y.func = "fn0"; y.pos[1ull << 32].count = 7; y.total = 7; } if (b.empty()) { auto& y = b["fn1"]; y.func = "fn1"; y.pos[1ull << 32].count = 3; y.total = 3; }
  std::string fa = c.Tmp("a"), fb = c.Tmp("b"); pbt::WriteFile(fa, Text(a)); pbt::WriteFile(fb, Text(b)); bool cmp = s.Bool(); int cut = s.Bool() ? -1 : s.OneOf<int>({0, 1, 2, 10, 50, 100}); size_t common = 0; for (auto& [n, y] : a) common += b.count(n); c.Describe([&] { return Text(a) + "--\n" + Text(b) + (cmp ? "compare functions, cutoff " + std::to_string(cut) : ""); }); c.NonTrivial(common); c.LabelIf(cmp, "function comparison");
  std::vector<std::string> av = {std::string(getenv("PBT_BIN")) + "/profile_diff", fa, fb}; if (cmp) av.push_back("--compare_function"); if (cut >= 0) av.push_back("--dump_cutoff_percent=" + std::to_string(cut)); else cut = 2; std::string out, err; int rc = pbt::Exec(av, &out, &err); PBT_CHECK(rc == 0, "exit " << rc << ": " << err);
  std::vector<std::string> lines; std::istringstream in(out); for (std::string l; std::getline(in, l);) lines.push_back(l); PBT_CHECK(!lines.empty(), "no output"); double o = atof(lines.back().c_str()); long double w = Want(a, b); PBT_CHECK(std::fabs(o - w) <= 5.1e-5 + 3e-7 * (a.size() + b.size() + 3), "overlap printed " << lines.back() << ", want " << (double)w); lines.pop_back();
  if (!cmp) { PBT_EQ(lines.size(), 0u, "other lines"); return; }
  U m1 = 0, m2 = 0; for (auto& [n, y] : a) m1 = std::max(m1, y.total); for (auto& [n, y] : b) m2 = std::max(m2, y.total); auto at = [](const Map& m, const std::string& n) -> U { auto i = m.find(n); return i == m.end() ? 0 : i->second.total; };
  std::multiset<std::string> h1, h2; for (auto& [n, y] : a) if (y.total * 100 >= m1 * cut) h1.insert(Pct(y.total, m1) + " " + Pct(at(b, n), m2) + " " + n); for (auto& [n, y] : b) if (y.total * 100 >= m2 * cut && !(a.count(n) && at(a, n) * 100 >= m1 * cut)) h2.insert(Pct(at(a, n), m1) + " " + Pct(y.total, m2) + " " + n);
  PBT_EQ(lines.size(), h1.size() + h2.size(), "functions listed"); std::multiset<std::string> g1(lines.begin(), lines.begin() + h1.size()), g2(lines.begin() + h1.size(), lines.end()); PBT_CHECK(g1 == h1, "functions of the first profile: " << pbt::ToText(g1, 0) << ", want " << pbt::ToText(h1, 0)); PBT_CHECK(g2 == h2, "functions only hot in the second profile: " << pbt::ToText(g2, 0) << ", want " << pbt::ToText(h2, 0));
  double last = 1e9; for (size_t i = 0; i < h1.size(); ++i) { double v = atof(lines[i].c_str()); PBT_CHECK(v <= last, "hottest first: " << lines[i]); last = v; } last = 1e9; for (size_t i = h1.size(); i < lines.size(); ++i) { double v = atof(lines[i].substr(lines[i].find(' ')).c_str()); PBT_CHECK(v <= last, "hottest first: " << lines[i]); last = v; }
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P13"; su.rule = "at least one function is counted in both profiles (and, in process, their overlap is neither 0 nor 1)";
  su.subs = {{"pairs", Pairs, 150000, 1500000}, {"program", Program, 2000, 20000}}; su.assumptions = {"totals times 100 fit in 64 bits"}; return pbt::Main(argc, argv, su);
}
