// Generated program graphs: a plain model and the real graphs made from it.
#ifndef CFGGEN_H_
#define CFGGEN_H_
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_program_cfg.h"
#include "pbt.h"
namespace cg {
using devtools_crosstool_autofdo::CFGEdge; using devtools_crosstool_autofdo::CFGNode; using devtools_crosstool_autofdo::ControlFlowGraph; using devtools_crosstool_autofdo::ProgramCfg;
using pbt::Src;
enum { kRet = 1, kTail = 2, kPad = 4, kFall = 8, kInd = 16 };
enum { kBranch = 0, kCall = 1, kReturn = 2 };
struct Node { int bb = 0, clone = 0, id = 0, size = 0, md = 0; uint64_t addr = 0; };
struct Fn { int index = 0; std::string section; std::optional<std::string> module; std::vector<std::string> names; std::vector<Node> nodes; int originals = 0; std::vector<std::vector<int>> paths; std::vector<std::vector<int>> path_nodes; };
struct Edge { int sf = 0, sn = 0, tf = 0, tn = 0, w = 0, kind = 0; bool xsec = false; };
struct Prog { std::vector<Fn> fns; std::vector<Edge> edges; };
using H = std::pair<int, int>;  // function position, node position
struct Opts { int max_fn = 4, max_nodes = 8, max_edges = 20, avg_edges = 8; bool sections = true, modules = false, clones = false, zero_weights = false, intra_calls = true, clone_entries = false; int max_w = 100, max_size = 40; };
inline llvm::object::BBAddrMap::BBEntry::Metadata Md(int m) { llvm::object::BBAddrMap::BBEntry::Metadata r; r.HasReturn = m & kRet; r.HasTailCall = m & kTail; r.IsEHPad = m & kPad; r.CanFallThrough = m & kFall; r.HasIndirectBranch = m & kInd; return r; }
inline void AddPath(Fn& f, std::vector<int> path) {  // path[0] is the predecessor
  std::vector<int> at{path[0]}; for (size_t i = 1; i < path.size(); ++i) { Node n = f.nodes[path[i]]; int c = 0; for (auto& x : f.nodes) c = std::max(c, x.bb == n.bb ? x.clone : 0); n.clone = c + 1; at.push_back(f.nodes.size()); f.nodes.push_back(n); } f.paths.push_back(path); f.path_nodes.push_back(at);
}
inline Fn GenFn(Src& s, int index, const Opts& o, uint64_t addr) {
  Fn f; f.index = index; f.section = o.sections ? s.OneOf<std::string>({".text", ".text", ".text", ".text.hot", ".init"}) : ".text"; if (o.modules && s.Bool()) f.module = s.OneOf<std::string>({"m.cc", "dir/n.cc", "x"});
  f.names = {"f" + std::to_string(index)}; int a = 0; while (s.More(a, 0, 2, 0)) { ++a; f.names.push_back(f.names[0] + ".alias" + std::to_string(a)); }
  int n = 0, id = 0; bool shuffled = s.Chance(1, 3); std::vector<int> ids; while (s.More(n, 1, o.max_nodes, o.max_nodes / 2)) { ++n; Node b; b.bb = n - 1; b.id = id; id += s.Chance(1, 6) ? 2 : 1; b.size = s.Chance(1, 8) ? 0 : s.Chance(1, 8) ? 1 + s.Draw(2000) : 1 + s.Draw(o.max_size - 1); b.addr = addr; addr += b.size; b.md = s.OneOf<int>({kFall, kFall, kFall, 0, kRet, kTail, kInd}); if (n > 1 && s.Chance(1, 8)) b.md |= kPad; ids.push_back(b.id); f.nodes.push_back(b); }
  if (shuffled && n > 2) { std::vector<int> rest(ids.begin() + 1, ids.end()); s.Shuffle(rest); for (int i = 1; i < n; ++i) f.nodes[i].id = rest[i - 1]; } f.originals = n;
  if (o.clones && (n > 1 || o.clone_entries) && s.Chance(1, 3)) { int from = o.clone_entries ? 0 : 1; int k = 0; while (s.More(k, 1, 3, 1)) { ++k; std::vector<int> p{(int)s.Draw(n - 1)}; int l = 0; while (s.More(l, 1, 3, 1)) { ++l; p.push_back(from + s.Draw(n - 1 - from)); } AddPath(f, p); } }
  return f;
}
// Adds an edge unless one joins the two nodes already.
inline bool AddEdge(Prog& p, std::set<std::pair<H, H>>& have, Edge e) { if (!have.insert({{e.sf, e.sn}, {e.tf, e.tn}}).second) return false; e.xsec = p.fns[e.sf].section != p.fns[e.tf].section; p.edges.push_back(e); return true; }
inline Edge GenEdge(Src& s, const Prog& p, const Opts& o) {
  Edge e; e.sf = s.Draw(p.fns.size() - 1); auto& f = p.fns[e.sf]; e.sn = s.Draw(f.nodes.size() - 1); e.tf = e.sf; e.w = s.Chance(1, 6) ? 1 + s.Draw(3) : 1 + s.Draw(o.max_w - 1); if (o.zero_weights && s.Chance(1, 12)) e.w = 0; if (s.Chance(1, 3)) e.w = s.OneOf<int>({10, 20, 100});
  switch (s.Weighted({8, 8, 4, 3, 2, 1})) {
    case 0: e.tn = std::min<int>(e.sn + 1, f.nodes.size() - 1); break;
    case 1: e.tn = s.Draw(f.nodes.size() - 1); break;
    case 2: e.tf = s.Draw(p.fns.size() - 1); e.tn = 0; e.kind = kCall; if (e.tf == e.sf && !o.intra_calls) e.kind = kBranch; break;
    case 3: e.tf = s.Draw(p.fns.size() - 1); e.tn = s.Draw(p.fns[e.tf].nodes.size() - 1); e.kind = kReturn; if (e.tf == e.sf && !o.intra_calls) e.kind = kBranch; break;
    case 4: e.tf = s.Draw(p.fns.size() - 1); e.tn = 0; break;
    default: e.tf = s.Draw(p.fns.size() - 1); e.tn = s.Draw(p.fns[e.tf].nodes.size() - 1); break;
  }
  return e;
}
inline Opts Weights(Src& s, Opts o) { if (o.max_w == 100 && s.Chance(1, 6)) o.max_w = s.OneOf<int>({1000, 70000, 3000000}); return o; }
inline Prog Generate(Src& s, const Opts& given) {
  Opts o = Weights(s, given);
  Prog p; int n = 0, index = 0; uint64_t addr = 0x1000; while (s.More(n, 1, o.max_fn, o.max_fn / 2)) { ++n; if (s.Chance(1, 4)) index += s.Draw(3); p.fns.push_back(GenFn(s, index++, o, addr)); addr += 0x10000; }
  std::set<std::pair<H, H>> have; n = 0; while (s.More(n, 0, o.max_edges, o.avg_edges)) { ++n; AddEdge(p, have, GenEdge(s, p, o)); } return p;
}
inline CFGEdge::Kind K(int k) { return k == kCall ? CFGEdge::Kind::kCall : k == kReturn ? CFGEdge::Kind::kRet : CFGEdge::Kind::kBranchOrFallthough; }
inline int K(CFGEdge::Kind k) { return k == CFGEdge::Kind::kCall ? kCall : k == CFGEdge::Kind::kRet ? kReturn : kBranch; }
inline std::unique_ptr<ControlFlowGraph> BuildFn(const Fn& f) {
  std::vector<std::unique_ptr<CFGNode>> nodes; for (int i = 0; i < f.originals; ++i) { auto& n = f.nodes[i]; nodes.push_back(std::make_unique<CFGNode>(n.addr, n.bb, n.id, n.size, Md(n.md), f.index)); }
  llvm::SmallVector<llvm::StringRef, 3> names; for (auto& n : f.names) names.push_back(n); std::optional<llvm::StringRef> m; if (f.module) m = *f.module;
  auto g = std::make_unique<ControlFlowGraph>(f.section, f.index, m, names, std::move(nodes)); for (auto& p : f.paths) g->ClonePath(p[0], std::vector<int>(p.begin() + 1, p.end())); return g;
}
// The graphs share the strings of `p`. Functions are inserted in the order `order` (all of them when empty).
inline std::unique_ptr<ProgramCfg> Build(const Prog& p, std::vector<int> order = {}) {
  if (order.empty()) for (size_t i = 0; i < p.fns.size(); ++i) order.push_back(i);
  absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> m; for (int i : order) m.emplace(p.fns[i].index, BuildFn(p.fns[i]));
  for (auto& e : p.edges) { auto& a = *m.at(p.fns[e.sf].index); auto& b = *m.at(p.fns[e.tf].index); a.CreateEdge(a.nodes()[e.sn].get(), b.nodes()[e.tn].get(), e.w, K(e.kind), e.xsec); }
  return std::make_unique<ProgramCfg>(std::move(m));
}
inline int64_t Freq(const Prog& p, int f, int n) {
  int64_t call = 0, ret = 0, in = 0, out = 0; for (auto& e : p.edges) { if (e.sf == f && e.sn == n) { if (e.kind == kCall) call = std::max<int64_t>(call, e.w); else out += e.w; } if (e.tf == f && e.tn == n) { if (e.kind == kReturn) ret = std::max<int64_t>(ret, e.w); else in += e.w; } } return std::max({call, ret, in, out});
}
inline bool Hot(const Prog& p, int f) { for (auto& e : p.edges) if (e.sf == f || (e.tf == f && e.sf != f)) return true; return false; }
inline std::string Show(const Prog& p) {
  std::ostringstream o; for (auto& f : p.fns) { o << "function " << f.index << " " << f.names[0] << (f.names.size() > 1 ? " +" + std::to_string(f.names.size() - 1) : "") << " " << f.section << (f.module ? " module " + *f.module : "") << ":"; for (size_t i = 0; i < f.nodes.size(); ++i) { auto& n = f.nodes[i]; o << (i ? ", " : " ") << n.bb; if (n.clone) o << "c" << n.clone; o << "#" << n.id << "+" << n.size << (n.md & kFall ? "f" : "") << (n.md & kRet ? "r" : "") << (n.md & kTail ? "t" : "") << (n.md & kPad ? "p" : "") << (n.md & kInd ? "i" : ""); } for (auto& q : f.paths) { o << " path"; for (int b : q) o << " " << b; } o << "\n"; }
  for (auto& e : p.edges) o << " " << p.fns[e.sf].index << "." << e.sn << (e.kind == kCall ? " calls " : e.kind == kReturn ? " returns to " : " > ") << p.fns[e.tf].index << "." << e.tn << " x" << e.w << "\n"; return o.str();
}
}  // namespace cg
#endif
