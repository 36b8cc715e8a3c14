// Layout parameters, the published scoring formula and placements for checks of block layouts.
#ifndef LAYOUTGEN_H_
#define LAYOUTGEN_H_
#include "cfggen.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_function_cluster_info.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_statistics.h"
namespace cg {
using devtools_crosstool_autofdo::PropellerCodeLayoutParameters; using devtools_crosstool_autofdo::PropellerStats; using devtools_crosstool_autofdo::FunctionClusterInfo;
// Graphs as the graph builder makes them: a jump to the start of a function counts as a call.
inline Prog GenerateLayoutInput(Src& s, const Opts& given) {
  Opts o = Weights(s, given);
  Prog p; int n = 0, index = 0; uint64_t addr = 0x1000; bool gaps = s.Chance(1, 3);
  while (s.More(n, 1, o.max_fn, o.max_fn / 2)) { ++n; if (s.Chance(1, 4)) index += s.Draw(3); p.fns.push_back(GenFn(s, index++, o, addr)); auto& f = p.fns.back(); for (auto& x : f.nodes) if (!x.clone) addr += x.size; if (gaps) addr += s.Draw(3000); }
  std::set<std::pair<H, H>> have;
  auto Add = [&](Edge e) { bool entry = p.fns[e.tf].nodes[e.tn].bb == 0; if (entry && e.kind == kBranch) e.kind = kCall; AddEdge(p, have, e); };
  if (s.Bool()) for (size_t f = 0; f < p.fns.size(); ++f) if (s.Chance(3, 4)) { int w = 1 + s.Draw(o.max_w - 1); for (int i = 0; i + 1 < p.fns[f].originals; ++i) { if (s.Chance(1, 3)) { w = 1 + s.Draw(o.max_w - 1); continue; } Edge e; e.sf = e.tf = f; e.sn = i; e.tn = i + 1; e.w = w; Add(e); if (s.Chance(1, 4)) { Edge b = e; b.sn = i + 1; b.tn = s.Draw(i + 1); b.w = 1 + s.Draw(o.max_w - 1); Add(b); } } }
  n = 0; while (s.More(n, 0, o.max_edges, o.avg_edges)) { ++n; Add(GenEdge(s, p, o)); } return p;
}
inline PropellerCodeLayoutParameters GenParams(Src& s, bool exact = false) {
  PropellerCodeLayoutParameters q; if (s.Chance(1, 2)) { q.set_fallthrough_weight(s.Draw(20)); q.set_forward_jump_weight(s.Draw(5)); q.set_backward_jump_weight(s.Draw(5)); }
  if (exact || s.Chance(1, 2)) { q.set_forward_jump_distance(exact ? 1 << s.Range(3, 11) : 1 + s.Draw(2000)); q.set_backward_jump_distance(exact ? 1 << s.Range(3, 11) : 1 + s.Draw(2000)); }
  q.set_chain_split(s.Chance(4, 5)); q.set_chain_split_threshold(s.OneOf<int>({0, 0, 1, 2, 3, 5, 100})); q.set_call_chain_clustering(s.Chance(3, 4)); if (s.Chance(1, 3)) q.set_cluster_merge_size_threshold(s.Draw(200)); q.set_split_functions(s.Chance(2, 3)); q.set_reorder_hot_blocks(s.Chance(4, 5)); q.set_inter_function_reordering(s.Chance(1, 2)); return q;
}
inline std::string Show(const PropellerCodeLayoutParameters& q) { return q.ShortDebugString() + "\n"; }
inline double EdgeScore(const PropellerCodeLayoutParameters& q, const Prog& p, const Edge& e, int64_t d) {
  if (e.kind == kCall) d += p.fns[e.sf].nodes[e.sn].size / 2; if (e.kind == kReturn) d += p.fns[e.tf].nodes[e.tn].size / 2;
  if (d == 0) return e.kind == kBranch ? double(e.w) * q.fallthrough_weight() : 0; if (d > 0) return d < (int64_t)q.forward_jump_distance() ? double(e.w) * q.forward_jump_weight() * (1 - double(d) / q.forward_jump_distance()) : 0; return -d < (int64_t)q.backward_jump_distance() ? double(e.w) * q.backward_jump_weight() * (1 - double(-d) / q.backward_jump_distance()) : 0;
}
inline bool Near(double a, double b, double scale = 0) { double m = std::max({std::abs(a), std::abs(b), scale}); return std::abs(a - b) <= 1e-9 * m + 1e-9; }
using Infos = std::vector<FunctionClusterInfo>;
inline std::string ShowLayout(const Infos& v) { std::ostringstream o; for (auto& i : v) { o << i.function_index << " (cold " << i.cold_cluster_layout_index << "):"; for (auto& c : i.clusters) { o << " @" << c.layout_index << "["; for (auto& b : c.full_bb_ids) o << " " << b.intra_cfg_id.bb_index << (b.intra_cfg_id.clone_number ? "c" + std::to_string(b.intra_cfg_id.clone_number) : ""); o << " ]"; } o << "\n"; } return o.str(); }
// Node positions in placement order, from the parts of one section.
inline int FindNode(const Fn& f, CFGNode::IntraCfgId id) { for (size_t i = 0; i < f.nodes.size(); ++i) if (f.nodes[i].bb == id.bb_index && f.nodes[i].clone == id.clone_number) return i; return -1; }
inline int FindFn(const Prog& p, int index) { for (size_t i = 0; i < p.fns.size(); ++i) if (p.fns[i].index == index) return i; return -1; }
inline std::vector<H> Order(const Prog& p, const Infos& v) { std::map<unsigned, std::vector<H>> m; for (auto& i : v) for (auto& c : i.clusters) for (auto& b : c.full_bb_ids) m[c.layout_index].push_back({FindFn(p, i.function_index), FindNode(p.fns[FindFn(p, i.function_index)], b.intra_cfg_id)}); std::vector<H> r; for (auto& [_, x] : m) r.insert(r.end(), x.begin(), x.end()); return r; }
}  // namespace cg
#endif
