// MODE: LLVM
// SOURCES: symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated call graphs against a reference computation on transitive closures, plus relations (renaming, scaling, unrelated functions)
// LEVEL_NOTE: Random search over call graphs of up to 40 functions. Single-precision arithmetic is allowed its rounding error.
#include <cmath>
#include "symtree.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; using st::U; using st::Map; using st::Sym; using L = long double;
namespace {
struct V { L v = 0, e = 0; };  // value and error bound
struct Ref {
  const Map& m; std::map<std::string, std::set<std::string>> reach; std::map<std::string, V> top; std::map<std::string, std::vector<V>> inl; L max = 0;
  explicit Ref(const Map& m) : m(m) {
    for (auto& [n, y] : m) Calls(y, &reach[n]); for (bool ch = true; ch;) { ch = false; for (auto& [n, r] : reach) { auto old = r.size(); std::set<std::string> add; for (auto& t : r) add.insert(reach[t].begin(), reach[t].end()); r.insert(add.begin(), add.end()); ch |= r.size() != old; } }
    for (auto& [n, y] : m) Get(n);
  }
  void Calls(const Sym& y, std::set<std::string>* out) { for (auto& [k, p] : y.pos) for (auto& [t, n] : p.targets) if (m.count(t)) out->insert(t); for (auto& [k, q] : y.calls) Calls(q, out); }
  bool Together(const std::string& a, const std::string& b) { return a == b || (reach[a].count(b) && reach[b].count(a)); }
  size_t Group(const std::string& a) { size_t n = 0; for (auto& [b, y] : m) n += Together(a, b); return n; }
  V Walk(const std::string& f, const Sym& y) {  // own total plus calls, of y and its inline copies
    V r{(L)y.total, 0}; for (auto& [k, p] : y.pos) for (auto& [t, n] : p.targets) if (m.count(t) && !Together(f, t)) { V c = Get(t); L h = m.at(t).head ? m.at(t).head : 1, x = c.v / h * n; max = std::max(max, x); r.v += x; r.e += c.e / h * n + x * 4e-7L + 1; }
    return r;
  }
  V All(const std::string& f, const Sym& y) { V r = Walk(f, y); for (auto& [k, q] : y.calls) { V c = All(f, q); r.v += c.v - q.total; r.e += c.e; } return r; }
  V Get(const std::string& f) { auto i = top.find(f); if (i != top.end()) return i->second; V r; for (auto& [b, y] : m) if (Together(f, b)) { V x = All(f, y); r.v += x.v; r.e += x.e; } max = std::max(max, r.v); for (auto& [b, y] : m) if (Together(f, b)) top[b] = r; return r; }
  void Check(const std::string& f, const dca::Symbol& g, const Sym& y, const std::string& path) { for (auto& [k, q] : y.calls) { auto it = g.callsites.find(dca::Callsite{k.first, pg::Intern(k.second)}); PBT_CHECK(it != g.callsites.end(), path << " lost " << k.second); V w = All(f, q); Near(it->second->total_count_incl, w, path + "/" + k.second); Check(f, *it->second, q, path + "/" + k.second); } }
  static void Near(U g, V w, const std::string& what) { PBT_CHECK(std::fabs((L)g - w.v) <= w.e + w.v * 1e-12L + 1e-6L, "inclusive count of " << what << " is " << g << ", want " << (double)w.v << " within " << (double)w.e); }
};
Map Graph(Src& s) {
  std::vector<std::string> v; int n = s.Bool() ? 5 : s.Bool() ? 12 : 40; for (int i = 0; i < n; ++i) v.push_back("f" + std::to_string(i)); st::Gen g{s, v}; g.max_lines = 3; g.max_calls = 2; g.max_depth = 2; g.files = false; g.max_count = 1ull << 36; g.big = s.Chance(1, 3); g.consistent = s.Bool(); Map m = st::GenMap(g, n);
  int shape = s.Draw(4); auto edge = [&](const std::string& a, const std::string& b) { Sym& y = m[a]; y.func = a; m[b].func = b; Sym* z = &y; while (!z->calls.empty() && s.Chance(1, 3)) z = &z->calls.begin()->second; z->pos[st::Off(g)].targets[b] = 1 + s.Draw(30); };
  if (shape == 1) { int k = 0; while (s.More(k, 1, 20, 5)) { ++k; edge(s.Pick(v), s.Pick(v)); } } else if (shape == 2) { int k = 2 + s.Draw(std::min(n - 2, 10)); for (int i = 0; i < k; ++i) edge(v[i], v[(i + 1) % k]); int x = 0; while (s.More(x, 0, 8, 2)) { ++x; edge(s.Pick(v), s.Pick(v)); } } else if (shape == 3) { for (int i = 0; i + 1 < n; ++i) if (s.Chance(4, 5)) edge(v[i], v[i + 1 + s.Draw(std::min(3, n - i - 2))]); }
  else if (shape == 4) { for (int i = 0; i + 1 < std::min(n, 9); ++i) edge(v[i], v[i + 1]); int x = 0; while (s.More(x, 1, 12, 4)) { ++x; int a = s.Draw(std::min(n, 9) - 1); edge(v[a], v[s.Draw(std::min(n, 9) - 1)]); } }
  return m;
}
void Graphs(Src& s, Case& c) {
  Map m = Graph(s); if (s.Bool()) for (auto& [n, y] : m) if (s.Bool()) y.head = 20 + s.Draw(100); Ref r(m); if (r.max > 4e18L) throw pbt::Discard(); size_t cyc = 0, calls = 0; for (auto& [n, y] : m) { cyc = std::max(cyc, r.Group(n)); calls += r.reach[n].size(); }
  c.Describe([&] { return st::Show(m); }); c.NonTrivial(calls > 2); c.LabelIf(cyc > 1, "a cycle"); c.LabelIf(cyc > 3, "a cycle of more than three"); c.LabelIf(r.max > 4294967296.0L, "beyond 32 bits"); c.LabelIf(st::Inlined(m), "inlined");
  dca::SymbolMap sm; st::Install(m, &sm); sm.ComputeTotalCountIncl(); for (auto& [n, y] : m) { auto* g = sm.map().at(n); Ref::Near(g->total_count_incl, r.Get(n), n); r.Check(n, *g, y, n); }
  std::string d = st::Diff(st::From(sm), m); PBT_CHECK(d.empty(), "changed the profile: " << d);
  if (s.Chance(1, 4)) { std::map<std::string, U> first; for (auto& [n, g] : sm.map()) first[n] = g->total_count_incl; sm.ComputeTotalCountIncl(); for (auto& [n, g] : sm.map()) Ref::Near(g->total_count_incl, r.Get(n), n + " computed again"); for (auto& [n, y] : m) r.Check(n, *sm.map().at(n), y, n + " computed again"); }
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P44"; su.rule = "functions reach more than two callees in all"; su.subs = {{"graphs", Graphs, 150000, 2000000}};
  su.assumptions = {"inclusive counts fit in 64 bits"}; return pbt::Main(argc, argv, su);
}
