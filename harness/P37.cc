// MODE: LLVM
// SOURCES: llvm_propeller_program_cfg.cc llvm_propeller_cfg.cc llvm_propeller_code_layout.cc llvm_propeller_code_layout_scorer.cc llvm_propeller_chain_cluster_builder.cc llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain_builder.cc llvm_propeller_formatting.cc llvm_propeller_statistics.cc pb:options
// TECHNIQUE: property-based testing: the layout of generated program graphs under generated options is judged by the definition of a valid placement
// LEVEL_NOTE: Random search over programs of up to 5 functions (30 in one sub-check), all option combinations and orders of hashed collections.
#include "layoutgen.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo; using namespace cg;
namespace {
void Check(Case& c, const Prog& p, const PropellerCodeLayoutParameters& q, const std::string& sec, const Infos& v) {
  bool inter = q.inter_function_reordering(); std::vector<int> fns, hot; for (size_t i = 0; i < p.fns.size(); ++i) if (p.fns[i].section == sec) { fns.push_back(i); if (Hot(p, i)) hot.push_back(i); }
  std::vector<int> got, want; for (auto& i : v) got.push_back(i.function_index); for (int f : hot) want.push_back(p.fns[f].index); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(want, 0), "functions laid out in " << sec);
  std::map<unsigned, int> part_owner, cold; unsigned parts = 0;
  for (size_t k = 0; k < v.size(); ++k) {
    int fi = hot[k]; auto& f = p.fns[fi]; auto& info = v[k]; bool hot_pads = false; for (size_t i = 0; i < f.nodes.size(); ++i) hot_pads |= (f.nodes[i].md & kPad) && Freq(p, fi, i);
    std::set<int> must, placed; std::vector<int> must_order; for (size_t i = 0; i < f.nodes.size(); ++i) if (Freq(p, fi, i) || (!inter && f.nodes[i].bb == 0) || ((f.nodes[i].md & kPad) && hot_pads)) { must.insert(i); must_order.push_back(i); } if (!q.split_functions()) for (size_t i = 0; i < f.nodes.size(); ++i) must.insert(i);
    PBT_CHECK(!info.clusters.empty(), "function " << f.index << " without a part"); int prev = -1;
    for (auto& cl : info.clusters) {
      ++parts; PBT_CHECK(part_owner.insert({cl.layout_index, fi}).second, "two parts at position " << cl.layout_index); PBT_CHECK(!cl.full_bb_ids.empty(), "empty part"); if (prev >= 0) PBT_CHECK(cl.full_bb_ids[0].bb_id >= prev, "parts of function " << f.index << " unordered"); prev = cl.full_bb_ids[0].bb_id;
      for (size_t j = 0; j < cl.full_bb_ids.size(); ++j) { auto& b = cl.full_bb_ids[j]; int n = FindNode(f, b.intra_cfg_id); PBT_CHECK(n >= 0, "unknown block placed in function " << f.index); PBT_EQ(b.bb_id, f.nodes[n].id, "id of a placed block"); PBT_CHECK(must.count(n), "cold block " << n << " of function " << f.index << " placed"); PBT_CHECK(placed.insert(n).second, "block " << n << " of function " << f.index << " placed twice"); if (f.nodes[n].bb == 0) PBT_EQ(j, 0u, "position of the entry of function " << f.index << " in its part"); }
    }
    PBT_EQ(pbt::ToText(placed, 0), pbt::ToText(must, 0), "blocks of function " << f.index << " placed");
    if (!inter) { PBT_EQ(info.clusters.size(), 1u, "parts of function " << f.index); auto& b = info.clusters[0].full_bb_ids[0]; PBT_CHECK(b.intra_cfg_id.bb_index == 0 && !b.intra_cfg_id.clone_number, "function " << f.index << " does not start with its entry"); }
  }
  unsigned i = 0; for (auto& [l, _] : part_owner) PBT_EQ(l, i++, "layout positions have gaps"); std::map<int, unsigned> first; unsigned seq = 0; for (auto& [l, f] : part_owner) if (!first.count(f)) first[f] = seq++; for (size_t k = 0; k < v.size(); ++k) PBT_EQ(v[k].cold_cluster_layout_index, first[hot[k]], "position of the cold part of function " << p.fns[hot[k]].index);
  // Adjacent parts of one function meet only where its entry begins.
  for (auto it = part_owner.begin(); it != part_owner.end(); ++it) { auto nx = std::next(it); if (nx == part_owner.end() || nx->second != it->second) continue; for (auto& info : v) for (auto& cl : info.clusters) if (cl.layout_index == nx->first) PBT_EQ(cl.full_bb_ids[0].intra_cfg_id.bb_index, 0, "function " << p.fns[it->second].index << " is split for nothing"); }
  auto order = Order(p, v); std::map<H, int> at; for (size_t k = 0; k < order.size(); ++k) at[order[k]] = k;
  if (!inter && !q.call_chain_clustering()) { int last = -1; for (auto& h : order) { PBT_CHECK(h.first >= last, "functions reordered without call-chain clustering"); last = h.first; } }
  for (int fi : hot) {
    auto& f = p.fns[fi]; bool hot_pads = false; for (size_t k = 0; k < f.nodes.size(); ++k) hot_pads |= (f.nodes[k].md & kPad) && Freq(p, fi, k);
    std::vector<int> mine; for (size_t k = 0; k < f.nodes.size(); ++k) if (at.count({fi, (int)k})) mine.push_back(at[{fi, (int)k}]);
    // All blocks stay together where landing pads have to.
    if (inter && (fns.size() == 1 || (f.nodes.size() && std::count_if(f.nodes.begin(), f.nodes.end(), [](auto& n) { return n.md & kPad; }) > 1 && hot_pads))) { if (q.split_functions() || fns.size() == 1) { int lo = *std::min_element(mine.begin(), mine.end()), hi = *std::max_element(mine.begin(), mine.end()); PBT_EQ(hi - lo + 1, (int)mine.size(), "blocks of function " << f.index << " with landing pads are apart"); c.Label("landing pads kept together"); } }
    if (!q.reorder_hot_blocks()) { std::vector<int> hs; for (size_t k = 0; k < f.nodes.size(); ++k) if (Freq(p, fi, k) || (!inter && !f.nodes[k].bb) || ((f.nodes[k].md & kPad) && hot_pads)) hs.push_back(at[{fi, (int)k}]); for (size_t k = 1; k < hs.size(); ++k) PBT_EQ(hs[k], hs[k - 1] + 1, "hot blocks of function " << f.index << " reordered or parted"); if (hs.size() > 2) c.Label("hot blocks in original order"); }
    if (!q.split_functions()) { std::vector<int> cs; for (size_t k = 0; k < f.nodes.size(); ++k) if (!(Freq(p, fi, k) || (!inter && !f.nodes[k].bb) || ((f.nodes[k].md & kPad) && hot_pads))) cs.push_back(at[{fi, (int)k}]); for (size_t k = 1; k < cs.size(); ++k) PBT_EQ(cs[k], cs[k - 1] + 1, "cold blocks of function " << f.index << " reordered or parted"); if (cs.size()) c.Label("cold blocks placed"); }
    if (mine.size() && f.nodes.size() > mine.size()) c.Label("cold blocks split off"); if (f.nodes.size() != (size_t)f.originals) c.Label("cloned blocks");
  }
}
void Layouts(Src& s, Case& c, const Opts& o) {
  absl::shim::g_hash_seed = s.Draw(1000); Prog p = GenerateLayoutInput(s, o); auto q = GenParams(s); auto cfg = Build(p); std::map<std::string, Infos> done; c.Describe([&] { std::string r = Show(p) + Show(q); for (auto& [k, v] : done) r += k + "\n" + ShowLayout(v); return r; });
  PropellerStats::CodeLayoutStats st; auto all = GenerateLayoutBySection(*cfg, q, st); std::set<std::string> secs, got; for (auto& f : p.fns) secs.insert(f.section); for (auto& [k, v] : all) { got.insert(k.str()); done[k.str()] = v; } PBT_EQ(pbt::ToText(got, 0), pbt::ToText(secs, 0), "sections"); int placed = 0, moved = 0, split = 0;
  for (auto& [k, v] : done) { Check(c, p, q, k, v); auto ord = Order(p, v); placed += ord.size(); for (size_t i = 1; i < ord.size(); ++i) moved += ord[i] < ord[i - 1]; for (auto& i : v) split += i.clusters.size() > 1; }
  c.NonTrivial(placed > 3 && moved); c.LabelIf(q.inter_function_reordering(), "across functions"); c.LabelIf(split, "function in several parts"); c.LabelIf(secs.size() > 1, "several sections");
}
void Small(Src& s, Case& c) { Opts o; o.clones = true; o.max_edges = 24; o.avg_edges = 9; o.max_fn = 5; Layouts(s, c, o); }
void Large(Src& s, Case& c) { Opts o; o.max_fn = 30; o.max_nodes = 14; o.max_edges = 150; o.avg_edges = 60; o.max_size = 400; Layouts(s, c, o); }
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P37"; su.scale = 2; su.rule = "at least four blocks placed, not all in original order";
  su.assumptions = {"edges have positive weights and jumps to the start of a function are calls, as the graph builder makes them; entry blocks are not cloned"};
  su.subs = {{"layouts", Small, 120000, 2000000}, {"large", Large, 4000, 60000}};
  return pbt::Main(argc, argv, su);
}
