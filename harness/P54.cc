// MODE: LLVM
// SOURCES: symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated symbol trees, entry and head counts against their definition by a scan of an independent tree
// LEVEL_NOTE: Random search. Where several inlined callees share the earliest position the entry count may be that of any of them.
#include "symtree.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
namespace {
using st::U; using st::Sym; using st::Map;
constexpr U kTooFar = 10000ull << 32;
// Every value the entry count may have.
std::set<U> Entry(const Sym& y) {
  U best = kTooFar; std::set<U> r{0}; for (auto& [k, p] : y.pos) if (k < best) { best = k; r = {p.count}; }
  U cb = best; for (auto& [k, q] : y.calls) cb = std::min(cb, k.first);
  if (cb < best) { r.clear(); for (auto& [k, q] : y.calls) if (k.first == cb) for (U x : Entry(q)) r.insert(x); }
  return r;
}
// The head count after estimating: its own, or that of the first line or of the first call, the callee of the smallest name first.
U Head(const Sym& y) { if (y.head) return y.head; U h = 0, off = ~0ull; for (auto& [k, p] : y.pos) if (k < off) { off = k; h = p.count; } const Sym* first = nullptr; std::pair<U, std::string> fk; for (auto& [k, q] : y.calls) if (k.first < off && (!first || k < fk)) { first = &q; fk = k; } return first ? Head(*first) : h; }
Map Draw(Src& s, bool early) {
  st::Gen g{s, {"foo", "bar", "main", "_ZN1A1fEv", "qux", "baz"}}; g.max_lines = s.Bool() ? 3 : 6; g.max_depth = s.Int(1, 4); if (early) g.max_line = 3; Map m = st::GenMap(g, 5);
  std::function<void(Sym*)> go = [&](Sym* y) { if (s.Chance(2, 3)) y->head = 0; if (s.Chance(1, 6)) y->pos.clear();
    if (s.Chance(1, 8)) { std::map<U, st::Pos> far; for (auto& [k, p] : y->pos) far[k + (s.Bool() ? kTooFar : 9997ull << 32)] = p; y->pos = far; }
    if (s.Chance(1, 8)) { decltype(y->calls) far; for (auto& [k, q] : y->calls) far[{k.first + kTooFar, k.second}] = q; y->calls = far; }
    if (y->pos.size() && y->calls.size() && s.Chance(1, 4)) { U at = y->calls.begin()->first.first; auto p = y->pos.begin()->second; y->pos[at + (s.Bool() ? 0 : s.Bool() ? 1 : at ? -1 : 0)] = p; }
    for (auto& [k, q] : y->calls) go(&q); };
  for (auto& [n, y] : m) go(&y); return m;
}
void EntryCounts(Src& s, Case& c) {
  Map m = Draw(s, s.Bool()); c.Describe([&] { return st::Show(m); }); dca::SymbolMap sm; st::Install(m, &sm); size_t viacall = 0, far = 0;
  std::function<void(const Sym&, const dca::Symbol*, const std::string&)> go = [&](const Sym& y, const dca::Symbol* p, const std::string& path) {
    auto w = Entry(y); U got = p->EntryCount(); PBT_CHECK(w.count(got), "entry count of " << path << " is " << got << ", want " << pbt::ToText(w, 0)); if (y.calls.size() && (y.pos.empty() || y.calls.begin()->first.first < y.pos.begin()->first)) ++viacall; if (y.pos.size() && y.pos.begin()->first >= kTooFar) ++far;
    for (auto& [k, q] : y.calls) { auto it = p->callsites.find(dca::Callsite{k.first, k.second.c_str()}); PBT_CHECK(it != p->callsites.end(), "inline copy " << path << "/" << k.second); go(q, it->second, path + "/" + k.second); } };
  for (auto& [n, y] : m) go(y, sm.GetSymbolByName(n), n); c.NonTrivial(viacall); c.LabelIf(far, "lines far from the start");
}
void HeadCounts(Src& s, Case& c) {
  Map m = Draw(s, s.Bool()), want = m; c.Describe([&] { return st::Show(m); }); dca::SymbolMap sm; st::Install(m, &sm); size_t est = 0, deep = 0;
  // Estimating a copy also settles the head counts it is taken from.
  std::function<void(Sym*)> settle = [&](Sym* y) { if (y->head) return; U h = Head(*y); U off = ~0ull; for (auto& [k, p] : y->pos) off = std::min(off, k); if (y->calls.size() && y->calls.begin()->first.first < off) { ++deep; settle(&y->calls.begin()->second); } y->head = h; ++est; };
  for (auto& [n, y] : want) if (s.Chance(3, 4)) { settle(&y); auto* p = const_cast<dca::Symbol*>(sm.GetSymbolByName(n)); for (int i = s.Int(1, 2); i > 0; --i) p->EstimateHeadCount(); PBT_EQ(p->head_count, y.head, "head count of " << n); }
  std::string d = st::Diff(st::From(sm), want, st::DiffOpt()); PBT_CHECK(d.empty(), "after estimating: " << d); c.NonTrivial(est && deep); c.LabelIf(deep > 1, "through several inline copies");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P54"; su.scale = 2; su.rule = "the count is taken through an inlined call that precedes every line"; su.subs = {{"entry", EntryCounts, 250000, 4000000}, {"head", HeadCounts, 250000, 4000000}};
  su.assumptions = {"positions at line 10000 and beyond do not count as entry positions, as documented"}; return pbt::Main(argc, argv, su);
}
