// MODE: LLVM
// SOURCES: llvm_propeller_statistics.cc llvm_propeller_formatting.cc llvm_propeller_cfg.cc pb:cfg
// TECHNIQUE: property-based testing: generated statistics split into parts against an independent field-by-field sum, formatted numbers parsed back, report text compared with a reference rendering
// LEVEL_NOTE: Random search. Score sums use multiples of 1/8 so that floating-point addition is exact in any order.
#include <functional>
#include <sstream>
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_formatting.h"
#include "llvm_propeller_statistics.h"
#include "pbt.h"
using pbt::Case; using pbt::Src;
using namespace devtools_crosstool_autofdo;

namespace {
using Flat = std::map<std::string, double>;
Flat Flatten(const PropellerStats& s) {
  Flat f; auto& b = s.bbaddrmap_stats; f["dup"] = b.duplicate_symbols; f["nosym"] = b.bbaddrmap_function_does_not_have_symtab_entry; f["hotf"] = b.hot_functions;
  auto& p = s.profile_stats; f["mmap"] = p.binary_mmap_num; f["files"] = p.perf_file_parsed; f["br"] = p.br_counters_accumulated;
  auto& d = s.disassembly_stats; f["cna"] = d.could_not_disassemble.absolute; f["cnw"] = d.could_not_disassemble.weighted; f["maa"] = d.may_affect_control_flow.absolute; f["maw"] = d.may_affect_control_flow.weighted; f["caa"] = d.cant_affect_control_flow.absolute; f["caw"] = d.cant_affect_control_flow.weighted;
  auto& g = s.cfg_stats; f["diff"] = g.edges_with_same_src_sink_but_different_type; f["cfgs"] = g.cfgs_created; f["lp"] = g.cfgs_with_hot_landing_pads; f["nodes"] = g.nodes_created; f["hbb"] = g.hot_basic_blocks; f["hebb"] = g.hot_empty_basic_blocks; for (auto& e : g.edges_created_by_kind) if (e.second) f["ek" + std::to_string((int)e.first)] = e.second; for (auto& e : g.total_edge_weight_by_kind) if (e.second) f["ew" + std::to_string((int)e.first)] = e.second; f["et"] = g.total_edges_created(); f["ewt"] = g.total_edge_weight_created();
  auto& l = s.code_layout_stats; f["oi"] = l.original_intra_score; f["pi"] = l.optimized_intra_score; f["oo"] = l.original_inter_score; f["po"] = l.optimized_inter_score; for (auto& e : l.n_assemblies_by_merge_order) if (e.second) f["mo" + std::to_string((int)e.first)] = e.second; f["s1"] = l.n_single_node_chains; f["sm"] = l.n_multi_node_chains;
  auto& c = s.cloning_stats; f["pc"] = c.paths_cloned; f["bc"] = c.bbs_cloned; f["byc"] = c.bytes_cloned; f["sg"] = c.score_gain; return f;
}
const std::vector<CFGEdge::Kind> kKinds = {CFGEdge::Kind::kBranchOrFallthough, CFGEdge::Kind::kCall, CFGEdge::Kind::kRet};
const std::vector<ChainMergeOrder> kOrders = {ChainMergeOrder::kSU, ChainMergeOrder::kS2S1U, ChainMergeOrder::kS1US2, ChainMergeOrder::kUS2S1, ChainMergeOrder::kS2US1};
PropellerStats Part(Src& s) {
  PropellerStats t; auto I = [&] { return s.Chance(1, 2) ? 0 : (int)s.U64(1000000); }; auto L = [&] { return s.Chance(1, 2) ? 0 : (int64_t)s.U64(1ull << 44); }; auto D = [&] { return s.Chance(1, 2) ? 0 : s.U64(1u << 30) / 8.0; };
  t.bbaddrmap_stats = {(uint64_t)I(), (uint64_t)I(), (uint64_t)I()}; t.profile_stats.binary_mmap_num = I(); t.profile_stats.perf_file_parsed = I(); t.profile_stats.br_counters_accumulated = L();
  for (auto* x : {&t.disassembly_stats.could_not_disassemble, &t.disassembly_stats.may_affect_control_flow, &t.disassembly_stats.cant_affect_control_flow}) { x->absolute = L(); x->weighted = L(); }
  auto& g = t.cfg_stats; g.edges_with_same_src_sink_but_different_type = I(); g.cfgs_created = I(); g.cfgs_with_hot_landing_pads = I(); g.nodes_created = I(); g.hot_basic_blocks = I(); g.hot_empty_basic_blocks = I(); for (auto k : kKinds) { if (s.Bool()) g.edges_created_by_kind[k] = L(); if (s.Bool()) g.total_edge_weight_by_kind[k] = L(); }
  auto& l = t.code_layout_stats; l.original_intra_score = D(); l.optimized_intra_score = D(); l.original_inter_score = D(); l.optimized_inter_score = D(); for (auto k : kOrders) if (s.Bool()) l.n_assemblies_by_merge_order[k] = I(); l.n_single_node_chains = I(); l.n_multi_node_chains = I();
  t.cloning_stats.paths_cloned = I(); t.cloning_stats.bbs_cloned = I(); t.cloning_stats.bytes_cloned = I(); t.cloning_stats.score_gain = D(); return t;
}
std::string Show(const Flat& f) { std::string r; char t[80]; for (auto& x : f) if (x.second) { snprintf(t, sizeof t, "%s=%.3f ", x.first.c_str(), x.second); r += t; } return r; }
void Sums(Src& s, Case& c) {
  std::vector<PropellerStats> parts; while (s.More(parts.size(), 0, 6, 2)) parts.push_back(Part(s)); Flat want = Flatten({}); for (auto& p : parts) for (auto& f : Flatten(p)) want[f.first] += f.second; for (auto it = want.begin(); it != want.end();) it = it->second == 0 && it->first.size() > 2 && (it->first[0] == 'e' || it->first.substr(0, 2) == "mo") && isdigit((unsigned char)it->first.back()) ? want.erase(it) : std::next(it);
  c.Describe([&] { std::string r; for (auto& p : parts) r += Show(Flatten(p)) + "\n"; return r; }); c.NonTrivial(parts.size() > 1); PropellerStats one; for (auto& p : parts) one += p; PBT_CHECK(Flatten(one) == want, "in order: " << Show(Flatten(one)) << "\nwant " << Show(want));
  s.Shuffle(parts); std::function<PropellerStats(size_t, size_t)> Tree = [&](size_t a, size_t b) { if (b - a == 0) return PropellerStats{}; if (b - a == 1) return parts[a]; size_t m = a + s.Draw(b - a); if (m == b) m = b - 1; if (m == a) m = a + 1; auto l = Tree(a, m), r = Tree(m, b); l += r; return l; }; PBT_CHECK(Flatten(Tree(0, parts.size())) == want, "as a tree");
  PropellerStats::DisassemblyStats::Stat st; int64_t w = 0, n = 0; while (s.More(n, 0, 20, 4)) { ++n; int64_t x = s.U64(1ull << 50); w += x; st.Increment(x); } PBT_EQ(st.absolute, n, "instructions"); PBT_EQ(st.weighted, w, "weighted instructions");
}
void Report(Src& s, Case& c) {
  auto t = Part(s); c.Describe([&] { return Show(Flatten(t)); }); std::string r = t.DebugString(); char b[400]; auto Has = [&](const std::string& x) { PBT_CHECK(r.find(x) != std::string::npos, "missing \"" << x << "\" in\n" << r); };
  snprintf(b, sizeof b, "Parsed %d profiles.\nTotal %d binary mmaps.\nTotal %llu br entries accumulated.", t.profile_stats.perf_file_parsed, t.profile_stats.binary_mmap_num, (unsigned long long)t.profile_stats.br_counters_accumulated); Has(b);
  snprintf(b, sizeof b, "%llu hot functions", (unsigned long long)t.bbaddrmap_stats.hot_functions); Has(b);
  auto& g = t.cfg_stats; int64_t e = 0, w = 0; for (auto& x : g.edges_created_by_kind) e += x.second; for (auto& x : g.total_edge_weight_by_kind) w += x.second;
  snprintf(b, sizeof b, "%d hot basic blocks found in profiles.\nCreated %llu cfgs.\nCreated %llu nodes.\n%d cfgs have hot landing pads.\n%d hot blocks have zero size.\nCreated %lld edges: {", g.hot_basic_blocks, (unsigned long long)g.cfgs_created, (unsigned long long)g.nodes_created, g.cfgs_with_hot_landing_pads, g.hot_empty_basic_blocks, (long long)e); Has(b);
  auto List = [&](const auto& m, int64_t total, const std::string& after) { size_t at = r.find(after); PBT_CHECK(at != std::string::npos, after); size_t a = r.find('{', at), z = r.find('}', a); std::string in = r.substr(a + 1, z - a - 1); std::set<std::string> got, want; size_t p = 0; while (p < in.size()) { size_t q = in.find(", ", p); if (q == std::string::npos) q = in.size(); got.insert(in.substr(p, q - p)); p = q + 2; } for (auto& x : m) { char u[100]; snprintf(u, sizeof u, "%s: %.2f%%", CFGEdge::GetCfgEdgeKindString(x.first).c_str(), x.second * 100.0 / total); want.insert(u); } if (total) PBT_EQ(got, want, after); };
  List(g.edges_created_by_kind, e, " edges: "); snprintf(b, sizeof b, "Profiled %lld total edge weight: ", (long long)w); Has(b); List(g.total_edge_weight_by_kind, w, "total edge weight: ");
  auto& l = t.code_layout_stats; if (l.original_intra_score > 0) { snprintf(b, sizeof b, "Changed intra-function (ext-tsp) score by %+.1f%% from %f to %f", 100 * (l.optimized_intra_score / l.original_intra_score - 1), l.original_intra_score, l.optimized_intra_score); Has(b); } if (l.original_inter_score > 0) { snprintf(b, sizeof b, "Changed inter-function (ext-tsp) score by %+.1f%% from %f to %f.", 100 * (l.optimized_inter_score / l.original_inter_score - 1), l.original_inter_score, l.optimized_inter_score); Has(b); }
  snprintf(b, sizeof b, "single-node chains: [%d] multi-node chains: [%d]", l.n_single_node_chains, l.n_multi_node_chains); Has(b); for (auto& x : l.n_assemblies_by_merge_order) { std::string m(GetMergeOrderName(x.first)); Has("[" + m + ":" + std::to_string(x.second) + "]"); }
  auto& d = t.disassembly_stats; auto A = [&](const char* n, const PropellerStats::DisassemblyStats::Stat& x) { snprintf(b, sizeof b, "%s: absolute: %lld / weighted: %lld", n, (long long)x.absolute, (long long)x.weighted); Has(b); }; A("Could not disassemble", d.could_not_disassemble); A("May affect control flow", d.may_affect_control_flow); A("Can not affect control flow", d.cant_affect_control_flow);
  snprintf(b, sizeof b, "Cloned %d paths.\nAdded %d cloned basic blocks.\nIncreased code size by %d bytes with cloning.", t.cloning_stats.paths_cloned, t.cloning_stats.bbs_cloned, t.cloning_stats.bytes_cloned); Has(b); c.NonTrivial(e > 0 && w > 0);
}
void Numbers(Src& s, Case& c) {
  uint64_t v = s.U64(); std::ostringstream o; if (s.Chance(1, 3)) o << std::hex; if (s.Chance(1, 4)) o << std::showbase; char f = s.OneOf({' ', '*', '0'}); o.fill(f); std::string before = s.Chance(1, 2) ? "x=" : ""; o << before; int mode = s.Draw(1); c.Describe([&] { return std::to_string(v); });
  if (mode == 0) {
    o << CommaStyleNumberFormatter(v); std::string g = o.str().substr(before.size()), d, want = std::to_string(v); for (int i = (int)want.size() - 3; i > 0; i -= 3) want.insert(i, ","); PBT_EQ(g, want, "number"); for (char ch : g) if (ch != ',') d += ch; PBT_EQ(d, std::to_string(v), "without separators"); c.NonTrivial(v > 999); PBT_EQ(o.fill(), f, "fill character"); PBT_EQ((int)o.width(), 0, "width"); c.LabelIf(g.find(",0") != std::string::npos, "group with leading zero");
  } else {
    auto flags = o.flags(); o << AddressFormatter(v); char b[40]; snprintf(b, sizeof b, v ? "0x%llx" : "0", (unsigned long long)v); PBT_EQ(o.str().substr(before.size()), std::string(b), "address"); PBT_CHECK(o.flags() == flags, "stream format changed"); c.NonTrivial(v > 9); std::ostringstream n; n.flags(flags); n << 77; std::ostringstream m; m.flags(flags); o.str(""); o << 77; PBT_EQ(o.str(), n.str(), "next number");
  }
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite t; t.property = "P43"; t.scale = 3; t.rule = "several parts are added, edges are reported, or the number has several digit groups";
  t.subs = {{"sums of parts", Sums, 120000, 2500000}, {"report", Report, 60000, 1200000}, {"numbers", Numbers, 600000, 10000000}};
  return pbt::Main(argc, argv, t);
}
