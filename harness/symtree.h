// Reference model of symbols as plain trees with every stored field kept
// independently (totals need not match their parts), conversions to and from
// dca::Symbol, generators, and the documented operations on the plain trees.
#ifndef VERIF_SYMTREE_H_
#define VERIF_SYMTREE_H_
#include "profgen.h"
namespace st {
namespace dca = devtools_crosstool_autofdo; using pbt::Src; using U = uint64_t;
struct Pos { U count = 0, inst = 0; std::map<std::string, U> targets; };
struct Sym { std::string func, dir, file; U total = 0, head = 0, ts = 0; std::map<U, Pos> pos; std::map<std::pair<U, std::string>, Sym> calls; };
using Map = std::map<std::string, Sym>;
inline void Show(std::ostream& o, const Sym& s, int ind) {
  std::string in(ind, ' '); o << "total " << s.total << " head " << s.head; if (s.file.size() || s.dir.size()) o << " file " << s.dir << "/" << s.file; o << "\n";
  for (auto& [k, p] : s.pos) { o << in << (k >> 32) << "." << (uint32_t)k << ": " << p.count << " inst " << p.inst; for (auto& [t, n] : p.targets) o << " ->" << t << ":" << n; o << "\n"; }
  for (auto& [k, c] : s.calls) { o << in << (k.first >> 32) << "." << (uint32_t)k.first << " inlined " << k.second << (c.func == k.second ? "" : " (named " + c.func + ")") << " "; Show(o, c, ind + 1); }
}
inline std::string Show(const Map& m) { std::ostringstream o; for (auto& [n, s] : m) { o << n << (s.func == n ? "" : " (named " + s.func + ")") << " "; Show(o, s, 1); } return o.str(); }
// Creating and reading real symbols.
inline dca::Symbol* Make(const Sym& s) {
  auto* y = new dca::Symbol(pg::Intern(s.func), s.dir, s.file, 0); y->total_count = s.total; y->head_count = s.head; y->timestamp = s.ts;
  for (auto& [k, p] : s.pos) { auto& q = y->pos_counts[k]; q.count = p.count; q.num_inst = p.inst; for (auto& [t, n] : p.targets) q.target_map[t] = n; }
  for (auto& [k, c] : s.calls) y->callsites[dca::Callsite{k.first, pg::Intern(k.second)}] = Make(c);
  return y;
}
inline void Install(const Map& m, dca::SymbolMap* sm) { dca::NameSymbolMap n; for (auto& [k, s] : m) n[k] = Make(s); sm->AddSymbolMappings(n); }
inline Sym From(const dca::Symbol& y) {
  Sym s; s.func = y.info.func_name ? y.info.func_name : "<null>"; s.dir = y.info.dir_name; s.file = y.info.file_name; s.total = y.total_count; s.head = y.head_count;
  for (auto& [k, p] : y.pos_counts) { auto& q = s.pos[k]; q.count = p.count; q.inst = p.num_inst; for (auto& [t, n] : p.target_map) q.targets[t] = n; }
  for (auto& [k, c] : y.callsites) { std::string n = k.callee_name ? k.callee_name : "<null>"; PBT_CHECK(!s.calls.count({k.location, n}), "two inline copies of " << n << " at one position"); s.calls[{k.location, n}] = From(*c); }
  return s;
}
inline Map From(const dca::SymbolMap& sm) { Map m; for (auto& [n, y] : sm.map()) m[n] = From(*y); return m; }
inline std::string At(U k) { return std::to_string(k >> 32) + "." + std::to_string((uint32_t)k); }
struct DiffOpt { bool files = true, heads = true, inst = true, totals = true, zero_targets = true; };
inline std::string Diff(const Sym& g, const Sym& w, const std::string& path, const DiffOpt& d = {}) {
  std::ostringstream o; auto num = [&](const char* what, U a, U b) { o << path << ": " << what << " " << a << ", want " << b; return o.str(); };
  if (d.totals && g.total != w.total) return num("total", g.total, w.total); if (d.heads && g.head != w.head) return num("head count", g.head, w.head); if (d.files && (g.file != w.file || g.dir != w.dir)) return path + ": file " + g.dir + "/" + g.file + ", want " + w.dir + "/" + w.file; if (g.func != w.func) return path + ": named " + g.func + ", want " + w.func;
  for (auto& [k, p] : w.pos) { auto i = g.pos.find(k); if (i == g.pos.end()) return path + ": line " + At(k) + " is missing"; auto& q = i->second; if (q.count != p.count) return num(("line " + At(k) + " count").c_str(), q.count, p.count); if (d.inst && q.inst != p.inst) return num(("line " + At(k) + " instructions").c_str(), q.inst, p.inst); if (q.targets != p.targets) return path + ": line " + At(k) + " targets " + pbt::ToText(q.targets, 0) + ", want " + pbt::ToText(p.targets, 0); }
  for (auto& [k, p] : g.pos) if (!w.pos.count(k)) return path + ": unexpected line " + At(k);
  for (auto& [k, c] : w.calls) { auto i = g.calls.find(k); std::string p2 = path + "/" + At(k.first) + ":" + k.second; if (i == g.calls.end()) return p2 + " is missing"; std::string r = Diff(i->second, c, p2, d); if (r.size()) return r; }
  for (auto& [k, c] : g.calls) if (!w.calls.count(k)) return path + ": unexpected inline copy " + At(k.first) + ":" + k.second;
  return "";
}
inline std::string Diff(const Map& g, const Map& w, const DiffOpt& d = {}) {
  for (auto& [n, s] : w) { auto i = g.find(n); if (i == g.end()) return "function " + n + " is missing"; std::string r = Diff(i->second, s, n, d); if (r.size()) return r; }
  for (auto& [n, s] : g) if (!w.count(n)) return "unexpected function " + n; return "";
}
// Generators.
struct Gen { Src& s; std::vector<std::string> names; int max_depth = 3, max_lines = 6, max_calls = 4; U max_count = 1ull << 40; bool big = true, consistent = false, files = true; U max_line = 60; bool wide = true; int deep = 0; };
inline U Count(Gen& g) { switch (g.s.Weighted({6, 3, 1, g.big ? 2 : 0})) { case 0: return 1 + g.s.Draw(30); case 1: return 1 + g.s.Draw(100000); case 2: return 0; default: return 1 + g.s.U64(g.max_count - 1); } }
inline U Off(Gen& g) { U line = g.s.Chance(1, 12) ? g.s.OneOf<U>({0, 1, 9999, 10000, 10001, 65535}) : g.s.Draw(g.s.Chance(1, 2) ? 5 : g.max_line); U d = g.s.Weighted({4, 2, 1}); if (d == 1) d = 1 + g.s.Draw(2); else if (d) d = g.s.Draw(65535); return line << 32 | d; }
inline void Fill(Gen& g, Sym* s, int depth) {
  auto& r = g.s; if (depth == 0 && g.wide && r.Chance(1, 600)) { U n = r.OneOf<U>({130, 257, 300, 520}), k = r.Draw(5), base = r.Draw(50), kind = r.Draw(1); for (U i = 0; i < n; ++i) { U o = (base + i) << 32 | i % 3; if (kind == 0) { s->pos[o].count = k + i; s->pos[o].inst = 1; } else { std::string c = r.Pick(g.names); Sym& y = s->calls[{o, c}]; y.func = c; y.pos[1ull << 32].count = k + i; y.total = k + i; } } } int n = 0; while (r.More(n, 0, g.max_lines, 3)) { ++n; Pos& p = s->pos[Off(g)]; p.count = Count(g); p.inst = r.Draw(4); if (r.Chance(1, 3)) { int k = 0; while (r.More(k, 1, 7, 3)) { ++k; p.targets[r.Pick(g.names)] = Count(g); } } }
  if (depth == 0 && g.wide && g.max_depth >= 2 && r.Chance(1, 400)) g.deep = r.Range(8, 40);  // a deep chain of inline copies
  if (g.deep > 0) { --g.deep; std::string c = r.Pick(g.names); Sym& y = s->calls[{Off(g), c}]; y.func = c; Fill(g, &y, std::max(depth + 1, g.max_depth)); }
  if (depth < g.max_depth) { n = 0; while (r.More(n, 0, g.max_calls, 1)) { ++n; U o = s->pos.size() && r.Chance(1, 3) ? s->pos.begin()->first : s->calls.size() && r.Chance(1, 2) ? s->calls.begin()->first.first : Off(g); std::string c = r.Pick(g.names); if (s->calls.count({o, c})) continue; Sym& y = s->calls[{o, c}]; y.func = c; Fill(g, &y, depth + 1); } }
  if (g.files && r.Chance(1, 3)) { s->file = r.OneOf<std::string>({"a.cc", "b.cc", "c.h"}); s->dir = r.OneOf<std::string>({"", "/src", "lib"}); }
  s->head = depth && r.Chance(3, 4) ? 0 : Count(g); if (g.consistent) { s->total = 0; for (auto& [k, p] : s->pos) s->total += p.count; for (auto& [k, c] : s->calls) s->total += c.total; } else s->total = Count(g);
}
inline Map GenMap(Gen& g, int max = 6) { Map m; int n = 0; while (g.s.More(n, 0, max, 3)) { ++n; std::string f = g.s.Pick(g.names); if (m.count(f)) continue; Sym& y = m[f]; y.func = f; Fill(g, &y, 0); } return m; }
inline size_t Lines(const Sym& s) { size_t n = s.pos.size(); for (auto& [k, c] : s.calls) n += Lines(c); return n; }
inline size_t Lines(const Map& m) { size_t n = 0; for (auto& [k, s] : m) n += Lines(s); return n; }
inline size_t Inlined(const Sym& s) { size_t n = s.calls.size(); for (auto& [k, c] : s.calls) n += Inlined(c); return n; }
inline size_t Inlined(const Map& m) { size_t n = 0; for (auto& [k, s] : m) n += Inlined(s); return n; }
// The documented operations.
inline void AddPos(Pos* a, const Pos& b) { a->count += b.count; a->inst += b.inst; for (auto& [t, n] : b.targets) a->targets[t] += n; }
inline void Merge(Sym* a, const Sym& b) {
  a->total += b.total; a->head += b.head; if (a->file.empty()) { a->file = b.file; a->dir = b.dir; } for (auto& [k, p] : b.pos) AddPos(&a->pos[k], p);
  for (auto& [k, c] : b.calls) { Sym& y = a->calls[k]; y.func = k.second; Merge(&y, c); }
}
inline void MergeMap(Map* a, const Map& b) { for (auto& [n, s] : b) { Sym& y = (*a)[n]; if (y.func.empty()) y.func = n; Merge(&y, s); } }
}  // namespace st
#endif
