// MODE: LLVM
// SOURCES: symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated symbol trees limited, scaled, flattened and throttled against reference operations on plain trees, and conservation relations for the nesting limit
// LEVEL_NOTE: Random search. The nesting limit is judged by relations (depth, conserved lines, consistent totals) because its intermediate counts depend on the order of functions.
#include <cmath>
#include <regex>
#include "symtree.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
namespace {
using st::U; using st::Sym; using st::Map;
const std::vector<std::string> kNames = {"foo", "bar", "main", "_ZN1A1fEv", "qux", "baz"};
void Same(const dca::SymbolMap& m, const Map& want, const std::string& what, bool files = true, bool totals = true) { st::DiffOpt o; o.files = files; o.totals = totals; std::string d = st::Diff(st::From(m), want, o); PBT_CHECK(d.empty(), what << ": " << d); }
void Each(Map* m, const std::function<void(Sym*)>& f) { std::function<void(Sym*)> go = [&](Sym* s) { f(s); for (auto& [k, c] : s->calls) go(&c); }; for (auto& [n, s] : *m) go(&s); }
// Keeps the first n call targets of every line by descending count, then name.
void Targets(Src& s, Case& c) {
  st::Gen g{s, kNames}; if (s.Bool()) { g.max_count = 4; g.big = false; } Map in = st::GenMap(g, 4); if (g.max_count == 4) Each(&in, [&](Sym* y) { for (auto& [k, p] : y->pos) for (auto& [t, n] : p.targets) n %= 3; }); int64_t n = s.Draw(5); size_t cut = 0, ties = 0;
  Map want = in; Each(&want, [&](Sym* y) { for (auto& [k, p] : y->pos) { std::vector<std::pair<std::string, U>> v(p.targets.begin(), p.targets.end()); if ((int64_t)v.size() <= n) continue; std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.second > b.second; }); if (n > 0 && v[n - 1].second == v[n].second) ++ties; v.resize(n); p.targets = std::map<std::string, U>(v.begin(), v.end()); ++cut; } });
  c.Describe([&] { return "keep " + std::to_string(n) + "\n" + st::Show(in); }); c.NonTrivial(cut); c.LabelIf(ties, "tie at the limit"); c.LabelIf(cut > 3, "many lines cut"); dca::SymbolMap m; st::Install(in, &m); m.TrimCallTargets(n); Same(m, want, "call targets limited");
  Each(&in, [&](Sym* y) { for (auto& [k, p] : y->pos) { dca::CallTargetCountMap tm; for (auto& [t, x] : p.targets) tm[t] = x; dca::TargetCountPairs v; dca::GetSortedTargetCountPairs(tm, &v); PBT_EQ(v.size(), p.targets.size(), "sorted targets"); for (size_t i = 0; i < v.size(); ++i) { PBT_CHECK(p.targets.count(v[i].first) && p.targets[v[i].first] == v[i].second, "sorted target " << v[i].first); if (i) PBT_CHECK(v[i - 1].second > v[i].second || (v[i - 1].second == v[i].second && v[i - 1].first > v[i].first), "order of " << v[i - 1].first << " and " << v[i].first); } } });
}
void Ratio(Src& s, Case& c) {
  st::Gen g{s, kNames}; g.max_count = 1ull << 45; Map in = st::GenMap(g, 4), want = in; double r = s.Bool() ? s.Draw(64) / 16.0 : s.Draw(100000) / 31337.0; auto sc = [&](U x) -> U { return (U)roundl((double)x * r); };
  Each(&want, [&](Sym* y) { y->total = sc(y->total); y->head = sc(y->head); for (auto& [k, p] : y->pos) { p.count = sc(p.count); for (auto& [t, n] : p.targets) n = sc(n); } }); c.Describe([&] { return "ratio " + std::to_string(r) + "\n" + st::Show(in); }); c.NonTrivial(st::Inlined(in) && r != 0 && r != 1); c.LabelIf(r > 1, "growing"); c.LabelIf(r < 1, "shrinking");
  dca::SymbolMap m; st::Install(in, &m); m.UpdateWithRatio(r); Same(m, want, "scaled"); U sum = 0; for (auto& [n, y] : want) sum += y.total; PBT_EQ(m.GetTotalSum(), sum, "sum of totals");
}
void Remove(Src& s, Case& c) {
  st::Gen g{s, {"foo", "foo2", "xfoo", "bar", "f.o", "_ZN3foo3barEv"}}; Map in = st::GenMap(g, 6), want = in; bool re = s.Bool(); std::string p = re ? s.OneOf<std::string>({"foo", "foo.*", ".*bar.*", "f.o", "f\\.o", "(foo|bar)", "none", ".*", "_ZN[0-9]foo.*"}) : s.Pick(g.names); size_t hit = 0;
  for (auto& [n, y] : want) if (re ? std::regex_match(n, std::regex(p)) : n == p) { y.total = y.head = 0; ++hit; } c.Describe([&] { return p + "\n" + st::Show(in); }); c.NonTrivial(hit && hit < in.size()); c.Label(re ? "pattern" : "name"); dca::SymbolMap m; st::Install(in, &m); if (re) m.RemoveSymsMatchingRegex(p); else m.RemoveSymbol(p); Same(m, want, "removed " + p);
}
// Keeps the n hottest inline copies per position; copies with equal totals at the limit are avoided.
U Throttle(Sym* y, int n) {
  U removed = 0; if ((int64_t)y->calls.size() > n) { std::map<U, std::vector<std::pair<U, std::string>>> at; for (auto& [k, c] : y->calls) at[k.first].push_back({c.total, k.second}); for (auto& [o, v] : at) { std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first != b.first ? a.first > b.first : a.second < b.second; }); for (size_t i = n; i < v.size(); ++i) { removed += v[i].first; y->calls.erase({o, v[i].second}); } } }
  for (auto& [k, c] : y->calls) removed += Throttle(&c, n); removed = std::min(removed, y->total); y->total -= removed; return removed;
}
void Inline(Src& s, Case& c) {
  std::vector<std::string> names; for (int i = 0; i < 12; ++i) names.push_back("fn" + std::to_string(i)); st::Gen g{s, names}; g.max_calls = 10; g.max_lines = 3; g.max_depth = 2; g.max_line = 3; g.consistent = s.Chance(2, 3); Map in = st::GenMap(g, 3); int n = s.Chance(1, 8) ? -1 : s.Draw(4);
  if (s.Bool()) Each(&in, [&](Sym* y) { for (auto& [k, p] : y->calls) p.total %= 4; }); size_t ties = 0, over = 0;
  Each(&in, [&](Sym* y) { std::map<U, std::multiset<U>> at; for (auto& [k, p] : y->calls) at[k.first].insert(p.total); for (auto& [o, v] : at) if (n >= 0 && (int)v.size() > n) { ++over; std::vector<U> w(v.rbegin(), v.rend()); if (n > 0 && w[n] == w[n - 1]) ++ties; } }); Map want = in; if (n >= 0) for (auto& [f, y] : want) Throttle(&y, n);
  c.Describe([&] { return "limit " + std::to_string(n) + "\n" + st::Show(in); }); c.NonTrivial(over); c.LabelIf(n < 0, "no limit"); c.LabelIf(ties, "tie at the limit"); c.LabelIf(n == 0, "none kept"); dca::SymbolMap m; st::Install(in, &m); m.throttleInlineInstancesAtSameLocation(n); Same(m, want, "inline copies limited");
}
// The head count an inline copy stands for: its own, or the count of its first line or first call.
U Head(const Sym& y) { if (y.head) return y.head; U h = 0, off = ~0ull; if (!y.pos.empty()) { off = y.pos.begin()->first; h = y.pos.begin()->second.count; } if (!y.calls.empty() && y.calls.begin()->first.first < off) h = Head(y.calls.begin()->second); return h; }
void CallAt(Sym* y, U off, const std::string& callee, U head) { auto& p = y->pos[off]; p.count = std::max(p.count, head); p.targets[callee] += head; }
void AddFlat(Map* out, const Sym& y, U head) { Sym& d = (*out)[y.func]; d.func = y.func; U t = 0; for (auto& [k, p] : y.pos) { st::AddPos(&d.pos[k], p); t += p.count; } d.total += t; d.head += head; }
void Flat(Src& s, Case& c) {
  st::Gen g{s, kNames}; g.max_depth = 3; g.consistent = s.Bool(); g.max_count = 1ull << 40; Map in = st::GenMap(g, 5); bool sel = s.Bool(); U lim = s.Chance(1, 4) ? s.U64(1ull << 41) : s.Draw(200); Map want; U total = 0, flat = 0; size_t inlined = st::Inlined(in);
  std::function<void(const Sym&, U)> go = [&](const Sym& y, U head) { Sym z = y; for (auto& [k, q] : y.calls) { CallAt(&z, k.first, q.func, Head(q)); if (!sel) go(q, Head(q)); } AddFlat(&want, z, head); };
  for (auto& [n, y] : in) { ++total; if (sel && y.total >= lim) { Sym& d = want[n]; d.func = n; st::Merge(&d, y); } else { ++flat; go(y, y.head); } }
  c.Describe([&] { return (sel ? "flatten functions below " + std::to_string(lim) : std::string("flatten all")) + "\n" + st::Show(in); }); c.NonTrivial(inlined && flat); c.Label(sel ? "selective" : "all"); c.LabelIf(sel && flat < total, "some kept"); dca::SymbolMap m, from; st::Install(in, &from); uint64_t a = 0, b = 0; m.BuildFlatProfile(from, sel, lim, a, b); PBT_EQ(a, total, "functions"); PBT_EQ(b, flat, "flattened functions"); Same(m, want, "flattened", false);
}
void Hybrid(Src& s, Case& c) {
  st::Gen g{s, kNames}; g.max_depth = 3; g.consistent = s.Bool(); g.max_count = 1ull << 40; Map in = st::GenMap(g, 5); Each(&in, [&](Sym* y) { if (s.Bool() && !y->head) y->head = s.Draw(40); }); U lim = s.Chance(1, 4) ? s.U64(1ull << 41) : s.Draw(200); Map want; U total = 0, flat = 0;
  std::function<void(Sym*, const Sym&)> go = [&](Sym* d, const Sym& y) { d->total += y.total; d->head += y.head; Sym z = y; for (auto& [k, q] : y.calls) { ++total; if (q.total <= lim) { ++flat; CallAt(&z, k.first, q.func, q.head); Sym& o = want[q.func]; o.func = q.func; go(&o, q); } else { Sym& o = d->calls[k]; o.func = k.second; go(&o, q); } } for (auto& [k, p] : z.pos) st::AddPos(&d->pos[k], p); };
  for (auto& [n, y] : in) { Sym& d = want[n]; d.func = n; go(&d, y); }
  c.Describe([&] { return "flatten copies up to " + std::to_string(lim) + "\n" + st::Show(in); }); c.NonTrivial(flat && flat < total); c.LabelIf(flat, "flattened"); dca::SymbolMap m, from; st::Install(in, &from); uint64_t a = 0, b = 0; m.BuildHybridProfile(from, lim, a, b); PBT_EQ(a, total, "inline copies"); PBT_EQ(b, flat, "flattened copies"); Same(m, want, "hybrid", false, false);
}
int Depth(const Sym& y) { int d = 0; for (auto& [k, c] : y.calls) d = std::max(d, 1 + Depth(c)); return d; }
void Nesting(Src& s, Case& c) {
  st::Gen g{s, kNames}; g.max_depth = 4; g.max_calls = 3; g.consistent = true; g.max_count = 1ull << 40; g.files = false; bool recursive = s.Chance(1, 3); if (recursive) g.names = {"foo", "bar"}; Map in = st::GenMap(g, 4); int level = (int)s.Draw(4);
  c.Describe([&] { return "at most " + std::to_string(level) + " levels\n" + st::Show(in); }); int deepest = 0; for (auto& [n, y] : in) deepest = std::max(deepest, Depth(y)); c.NonTrivial(level > 0 && deepest >= level); c.LabelIf(recursive, "few names"); c.LabelIf(level == 0, "no limit"); c.LabelIf(level == 1, "one level");
  dca::SymbolMap m; st::Install(in, &m); m.FlattenNestedInlineCallsites(level); Map got = st::From(m); if (level <= 0 || deepest < level) { Same(m, in, "nothing to flatten"); return; }
  std::string d = pg::CheckTotals(m); PBT_CHECK(d.empty(), d);
  using K = std::pair<std::string, U>; auto gather = [](Map* x, std::map<K, st::Pos>* lines, std::set<K>* calls, std::map<std::string, U>* heads) { Each(x, [&](Sym* y) { for (auto& [k, p] : y->pos) st::AddPos(&(*lines)[{y->func, k}], p); for (auto& [k, q] : y->calls) calls->insert({y->func, k.first}); }); for (auto& [n, y] : *x) (*heads)[n] = y.head; };
  std::map<K, st::Pos> before, after; std::set<K> calls, calls2; std::map<std::string, U> h1, h2; std::set<std::string> inl; Each(&in, [&](Sym* y) { for (auto& [k, q] : y->calls) inl.insert(k.second); }); gather(&in, &before, &calls, &h1); gather(&got, &after, &calls2, &h2);
  for (auto& [n, y] : got) { PBT_CHECK(Depth(y) < level, n << " is inlined " << Depth(y) << " levels deep"); PBT_CHECK(in.count(n) || inl.count(n), "unexpected function " << n); }
  for (auto& [n, y] : in) { PBT_CHECK(got.count(n), "function " << n << " is gone"); if (!inl.count(n)) PBT_EQ(h2[n], h1[n], "head count of " << n); else PBT_CHECK(h2[n] >= h1[n], "head count of " << n << " fell from " << h1[n] << " to " << h2[n]); if (Depth(y) < level && !inl.count(n)) { d = st::Diff(got[n], y, n); PBT_CHECK(d.empty(), d); } }
  for (auto& [k, p] : before) { auto& q = after[k]; PBT_EQ(q.inst, p.inst, "instructions at " << k.first << " " << st::At(k.second)); if (!calls.count(k)) { PBT_EQ(q.count, p.count, "count at " << k.first << " " << st::At(k.second)); PBT_EQ(pbt::ToText(q.targets, 0), pbt::ToText(p.targets, 0), "targets at " << k.first << " " << st::At(k.second)); } else { PBT_CHECK(q.count >= p.count, "count at " << k.first << " " << st::At(k.second) << " fell from " << p.count << " to " << q.count); for (auto& [t, x] : p.targets) PBT_CHECK(q.targets[t] >= x, "target " << t << " at " << k.first << " " << st::At(k.second) << " fell"); } }
  for (auto& [k, p] : after) PBT_CHECK(before.count(k) || calls.count(k), "unexpected line " << k.first << " " << st::At(k.second)); for (auto& k : calls2) PBT_CHECK(calls.count(k), "unexpected inline copy in " << k.first);
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P10"; su.rule = "the limit, threshold, ratio or level changes something in a profile with the relevant parts";
  su.subs = {{"targets", Targets, 150000, 3000000}, {"ratio", Ratio, 80000, 2000000}, {"remove", Remove, 80000, 2000000}, {"inline", Inline, 150000, 3000000}, {"flat", Flat, 120000, 3000000}, {"hybrid", Hybrid, 80000, 2000000}, {"nesting", Nesting, 200000, 4000000}};
  su.assumptions = {"totals of the profile before the nesting limit equal the sum of their parts", "the total of a function keeps the counts of its cold inlined copies when these are made stand-alone by the hybrid flattening"};
  return pbt::Main(argc, argv, su);
}
