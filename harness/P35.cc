// MODE: LLVM
// SOURCES: llvm_propeller_program_cfg.cc llvm_propeller_cfg.cc
// TECHNIQUE: model-based testing of sequences of graph operations: a plain model of blocks and edges answers every query
// LEVEL_NOTE: Random search over programs and histories of edge insertions, updates, path clonings and graph copies.
#include "cfggen.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo; using namespace cg;
namespace {
void CheckGraph(const ControlFlowGraph& g, const Prog& p, int fi, bool inter) {
  auto& f = p.fns[fi]; PBT_EQ(g.function_index(), f.index, "function index"); PBT_EQ(g.section_name().str(), f.section, "section"); std::vector<std::string> names; for (auto& n : g.names()) names.push_back(n.str()); PBT_EQ(pbt::ToText(names, 0), pbt::ToText(f.names, 0), "names"); PBT_EQ(g.GetPrimaryName().str(), f.names[0], "primary name"); PBT_CHECK(g.module_name().has_value() == f.module.has_value() && (!f.module || g.module_name()->str() == *f.module), "module");
  PBT_EQ(g.nodes().size(), f.nodes.size(), "blocks"); int pads = 0; std::map<std::pair<int, int>, const CFGNode*> by_id; PBT_CHECK(g.GetEntryNode() == g.nodes()[0].get(), "entry"); std::set<const CFGEdge*> intra, inters; std::map<std::pair<H, H>, const CFGEdge*> mine;
  for (size_t i = 0; i < f.nodes.size(); ++i) {
    auto& n = *g.nodes()[i]; auto& w = f.nodes[i]; pads += bool(w.md & kPad); PBT_EQ(n.function_index(), f.index, "function of block " << i); PBT_EQ(n.node_index(), (int)i, "position of block " << i); PBT_EQ(n.bb_index(), w.bb, "index of block " << i); PBT_EQ(n.bb_id(), w.id, "id of block " << i); PBT_EQ(n.size(), w.size, "size of block " << i); PBT_EQ(n.addr(), w.addr, "address of block " << i); PBT_EQ(n.clone_number(), w.clone, "clone number of block " << i); PBT_EQ(n.is_cloned(), w.clone != 0, "cloned"); PBT_EQ(n.is_entry(), w.bb == 0, "entry block");
    PBT_CHECK(n.is_landing_pad() == bool(w.md & kPad) && n.can_fallthrough() == bool(w.md & kFall) && n.has_return() == bool(w.md & kRet) && n.has_tail_call() == bool(w.md & kTail) && n.has_indirect_branch() == bool(w.md & kInd), "properties of block " << i);
    PBT_CHECK(&g.GetNodeById({w.bb, w.clone}) == &n, "lookup of block " << i); std::string name = std::to_string(f.index) + (w.bb ? "." + std::to_string(w.bb) + ".id" + std::to_string(w.id) : "") + (w.clone ? ".c" + std::to_string(w.clone) : ""); PBT_EQ(n.GetName(), name, "name of block " << i); PBT_CHECK(n.full_intra_cfg_id() == (CFGNode::FullIntraCfgId{w.id, {w.bb, w.clone}}), "full id");
    PBT_CHECK((n.inter_cfg_id() == CFGNode::InterCfgId{f.index, {w.bb, w.clone}}), "program-wide id");
    int64_t freq = 0; if (inter) freq = Freq(p, fi, i); else { Prog q; q.fns = p.fns; for (auto& e : p.edges) if (e.sf == e.tf) q.edges.push_back(e); freq = Freq(q, fi, i); } PBT_EQ(int64_t{n.CalculateFrequency()}, freq, "frequency of block " << i);
    std::multiset<std::string> outs, ins, wouts, wins; auto T = [](int a, int b, int c, int d, int k, int w, bool x) { std::ostringstream o; o << a << "." << b << ">" << c << "." << d << " kind " << k << " x" << w << (x ? " cross" : ""); return o.str(); };
    for (auto* l : {&n.intra_outs(), &n.inter_outs()}) for (auto* e : *l) { PBT_CHECK(e->src() == &n, "foreign edge"); PBT_EQ(l == &n.intra_outs(), e->sink()->function_index() == f.index, "edge within the function"); outs.insert(T(f.index, i, e->sink()->function_index(), e->sink()->node_index(), K(e->kind()), e->weight(), e->inter_section())); if (l == &n.intra_outs()) intra.insert(e); else inters.insert(e); if (e->sink()->function_index() == f.index) PBT_CHECK(e->sink() == g.nodes()[e->sink()->node_index()].get(), "edge leaves the graph"); }
    for (auto* l : {&n.intra_ins(), &n.inter_ins()}) for (auto* e : *l) { PBT_CHECK(e->sink() == &n, "foreign edge"); PBT_EQ(l == &n.intra_ins(), e->src()->function_index() == f.index, "edge within the function"); ins.insert(T(e->src()->function_index(), e->src()->node_index(), f.index, i, K(e->kind()), e->weight(), e->inter_section())); if (e->src()->function_index() == f.index) PBT_CHECK(e->src() == g.nodes()[e->src()->node_index()].get(), "edge from outside the graph"); }
    for (auto& e : p.edges) { if (!inter && e.sf != e.tf) continue; auto t = T(p.fns[e.sf].index, e.sn, p.fns[e.tf].index, e.tn, e.kind, e.w, e.xsec); if (e.sf == fi && e.sn == (int)i) wouts.insert(t); if (e.tf == fi && e.tn == (int)i) wins.insert(t); }
    PBT_EQ(pbt::ToText(outs, 0), pbt::ToText(wouts, 0), "edges out of block " << i); PBT_EQ(pbt::ToText(ins, 0), pbt::ToText(wins, 0), "edges into block " << i);
    int k = 0; n.ForEachOutEdgeRef([&](CFGEdge& e) { ++k; PBT_CHECK(e.src() == &n, "foreign edge visited"); }); PBT_EQ(k, (int)outs.size(), "edges visited"); k = 0; n.ForEachInEdgeRef([&](CFGEdge& e) { ++k; PBT_CHECK(e.sink() == &n, "foreign edge visited"); }); PBT_EQ(k, (int)ins.size(), "edges visited");
  }
  PBT_EQ(g.n_landing_pads(), pads, "landing pads"); PBT_EQ(g.intra_edges().size(), intra.size(), "owned edges"); PBT_EQ(g.inter_edges().size(), inters.size(), "owned edges"); for (auto& e : g.intra_edges()) PBT_CHECK(intra.count(e.get()), "owned edge"); for (auto& e : g.inter_edges()) PBT_CHECK(inters.count(e.get()), "owned edge");
  for (int b = 0; b < f.originals; ++b) { auto all = g.GetAllClonesForBbIndex(b); std::vector<const CFGNode*> want; std::map<int, const CFGNode*> m; for (size_t i = 0; i < f.nodes.size(); ++i) if (f.nodes[i].bb == b) m[f.nodes[i].clone] = g.nodes()[i].get(); for (auto& [_, n] : m) want.push_back(n); PBT_CHECK(std::vector<const CFGNode*>(all.begin(), all.end()) == want, "clones of block " << b); }
  if (inter) { PBT_EQ(g.clone_paths().size(), f.paths.size(), "paths"); for (size_t k = 0; k < f.paths.size(); ++k) { auto& got = g.clone_paths()[k]; PBT_EQ(got.size(), f.path_nodes[k].size(), "path " << k); for (size_t i = 0; i < got.size(); ++i) { auto& w = f.nodes[f.path_nodes[k][i]]; PBT_CHECK(got[i] == (CFGNode::FullIntraCfgId{w.id, {w.bb, w.clone}}), "block " << i << " of path " << k); } } }
  ControlFlowGraph::NodeFrequencyStats st = g.GetNodeFrequencyStats(); auto fr = g.GetNodeFrequencies(); PBT_EQ(fr.size(), f.nodes.size(), "frequencies"); int hot = 0, hp = 0, he = 0; for (size_t i = 0; i < fr.size(); ++i) { PBT_EQ(fr[i], g.nodes()[i]->CalculateFrequency(), "frequency of block " << i); if (!fr[i]) continue; ++hot; hp += bool(f.nodes[i].md & kPad); he += !f.nodes[i].size; }
  PBT_EQ(st.n_hot_blocks, hot, "hot blocks"); PBT_EQ(st.n_hot_landing_pads, hp, "hot landing pads"); PBT_EQ(st.n_hot_empty_blocks, he, "hot empty blocks"); PBT_EQ(bool(g.has_hot_landing_pads()), hp > 0, "has hot landing pads"); if (inter) PBT_EQ(g.is_hot(), Hot(p, fi), "function is hot");
}
std::set<int> Joins(const Prog& p, int fi, int64_t nt, int64_t et) { std::set<int> r; auto& f = p.fns[fi]; for (size_t i = 0; i < f.nodes.size(); ++i) { if (!f.nodes[i].bb || Freq(p, fi, i) < nt) continue; int k = 0; for (auto& e : p.edges) k += e.tf == fi && e.sf == fi && e.tn == (int)i && e.sn != (int)i && e.kind == kBranch && e.w >= et; if (k > 1) r.insert(f.nodes[i].bb); } return r; }
void Histories(Src& s, Case& c) {
  absl::shim::g_hash_seed = s.Draw(1000); Opts o; o.max_edges = 16; o.avg_edges = 5; o.modules = true; o.clones = o.clone_entries = true; o.max_nodes = 6; Prog p = Generate(s, o); Prog start = p; for (auto& f : start.fns) f.names.reserve(8); auto cfg = Build(start); auto map = std::move(*cfg).release_cfgs_by_index(); std::string log; int clonings = 0, updates = 0, copies = 0;
  // Copies of graphs with the state they were made from.
  struct Copy { std::unique_ptr<ControlFlowGraph> g; Prog state; int f; }; std::vector<Copy> kept; std::set<std::pair<H, H>> have; for (auto& e : p.edges) have.insert({{e.sf, e.sn}, {e.tf, e.tn}});
  c.Describe([&] { return Show(start) + log; }); int n = 0;
  while (s.More(n, 0, 20, 7)) {
    ++n; switch (s.Weighted({6, 3, 2, 2, 1, 1})) {
      case 0: { Edge e = GenEdge(s, p, o); auto& a = *map.at(p.fns[e.sf].index); auto& b = *map.at(p.fns[e.tf].index); Edge* old = nullptr; bool other = false; for (auto& x : p.edges) if (x.sf == e.sf && x.sn == e.sn && x.tf == e.tf && x.tn == e.tn) { if (x.kind == e.kind) old = &x; else other = true; } if (!old && other) break; e.xsec = p.fns[e.sf].section != p.fns[e.tf].section; log += " add " + std::to_string(p.fns[e.sf].index) + "." + std::to_string(e.sn) + " > " + std::to_string(p.fns[e.tf].index) + "." + std::to_string(e.tn) + " kind " + std::to_string(e.kind) + " x" + std::to_string(e.w) + "\n"; auto *from = a.nodes()[e.sn].get(), *to = b.nodes()[e.tn].get(); PBT_EQ(from->HasEdgeTo(*to, K(e.kind)), old != nullptr, "edge exists"); auto* r = a.CreateOrUpdateEdge(from, to, e.w, K(e.kind), e.xsec); if (old) { old->w += e.w; ++updates; } else p.edges.push_back(e); PBT_CHECK(r == from->GetEdgeTo(*to, K(e.kind)) && r->src() == from && r->sink() == to, "returned edge"); for (int k = 0; k < 3; ++k) if (k != e.kind) PBT_CHECK(!from->HasEdgeTo(*to, K(k)), "edge of another kind"); break; }
      case 1: { if (p.edges.empty()) break; auto& e = s.Pick(p.edges); auto* x = map.at(p.fns[e.sf].index)->nodes()[e.sn]->GetEdgeTo(*map.at(p.fns[e.tf].index)->nodes()[e.tn], K(e.kind)); PBT_CHECK(x, "edge lost"); int by = s.Chance(1, 4) ? e.w + s.Draw(5) : s.Draw(e.w); log += " take " + std::to_string(by) + " from " + std::to_string(p.fns[e.sf].index) + "." + std::to_string(e.sn) + " > " + std::to_string(p.fns[e.tf].index) + "." + std::to_string(e.tn) + "\n"; int got = x->DecrementWeight(by); PBT_EQ(got, std::min(by, e.w), "reduction"); e.w -= got; ++updates; break; }
      case 2: { int fi = s.Draw(p.fns.size() - 1); auto& f = p.fns[fi]; if (f.nodes.size() > 14) break; std::vector<int> path{(int)s.Draw(f.originals - 1)}; int l = 0; while (s.More(l, 1, 4, 2)) { ++l; path.push_back(s.Draw(f.originals - 1)); } log += " clone in " + std::to_string(f.index) + " path " + pbt::ToText(path, 0) + "\n"; AddPath(f, path); map.at(f.index)->ClonePath(path[0], std::vector<int>(path.begin() + 1, path.end())); ++clonings; break; }
      case 3: { int fi = s.Draw(p.fns.size() - 1); log += " copy " + std::to_string(p.fns[fi].index) + "\n"; kept.push_back({CloneCfg(*map.at(p.fns[fi].index)), p, fi}); auto& k = kept.back(); k.state.edges.clear(); for (auto& e : p.edges) if (e.sf == e.tf) k.state.edges.push_back(e); ++copies; break; }
      case 4: { if (kept.empty()) break; auto& k = s.Pick(kept); auto& f = k.state.fns[k.f]; if (f.nodes.size() > 14) break; std::vector<int> path{(int)s.Draw(f.originals - 1), (int)s.Draw(f.originals - 1)}; log += " clone in copy of " + std::to_string(f.index) + " path " + pbt::ToText(path, 0) + "\n"; AddPath(f, path); k.g->ClonePath(path[0], std::vector<int>{path[1]}); break; }
      default: { if (kept.empty()) break; auto& k = s.Pick(kept); std::vector<Edge*> es; for (auto& e : k.state.edges) if (e.sf == k.f) es.push_back(&e); if (es.empty()) break; auto& e = *s.Pick(es); int by = s.Draw(e.w); auto* x = k.g->nodes()[e.sn]->GetEdgeTo(*k.g->nodes()[e.tn], K(e.kind)); PBT_CHECK(x, "edge of a copy lost"); log += " take " + std::to_string(by) + " from copy of " + std::to_string(p.fns[k.f].index) + "\n"; x->DecrementWeight(by); e.w -= by; }
    }
  }
  for (size_t i = 0; i < p.fns.size(); ++i) CheckGraph(*map.at(p.fns[i].index), p, i, true); for (auto& k : kept) CheckGraph(*k.g, k.state, k.f, false);
  // Queries of the whole program.
  absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> m2; std::vector<int> order; for (size_t i = 0; i < p.fns.size(); ++i) order.push_back(i); s.Shuffle(order); std::map<int, const ControlFlowGraph*> raw; for (int i : order) { raw[p.fns[i].index] = map.at(p.fns[i].index).get(); m2.emplace(p.fns[i].index, std::move(map.at(p.fns[i].index))); } ProgramCfg prog(std::move(m2));
  auto all = prog.GetCfgs(); PBT_EQ(all.size(), p.fns.size(), "graphs"); for (size_t i = 0; i < all.size(); ++i) PBT_CHECK(all[i] == raw[p.fns[i].index], "graph " << i); auto bi = prog.cfgs_by_index(); auto bn = prog.cfgs_by_name(); PBT_EQ(bi.size(), p.fns.size(), "by index"); PBT_EQ(bn.size(), p.fns.size(), "by name"); for (auto& f : p.fns) { PBT_CHECK(bi.at(f.index) == raw[f.index] && bn.at(f.names[0]) == raw[f.index] && prog.GetCfgByIndex(f.index) == raw[f.index], "lookup of " << f.index); } PBT_CHECK(prog.GetCfgByIndex(9999) == nullptr, "unknown index");
  std::map<std::string, std::set<int>> secs, got; for (auto& f : p.fns) secs[f.section].insert(f.index); for (auto& [k, v] : prog.GetCfgsBySectionName()) for (auto* g : v) PBT_CHECK(got[k.str()].insert(g->function_index()).second, "graph listed twice"); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(secs, 0), "graphs by section");
  std::vector<int64_t> hot; for (size_t i = 0; i < p.fns.size(); ++i) for (size_t k = 0; k < p.fns[i].nodes.size(); ++k) if (auto f = Freq(p, i, k)) hot.push_back(f); std::sort(hot.begin(), hot.end()); for (int pc : {0, 1, 50, 99, 100, (int)s.Draw(100)}) { int at = (int)(hot.size() * pc / 100) - 1; PBT_EQ(int64_t{prog.GetNodeFrequencyThreshold(pc)}, at < 0 ? 0 : hot[at], pc << "th percentile"); }
  int nt = s.Draw(120), et = s.Draw(60); std::map<int, std::set<int>> joins, gj; for (size_t i = 0; i < p.fns.size(); ++i) { auto j = Joins(p, i, nt, et); if (j.size()) joins[p.fns[i].index] = j; } for (auto& [k, v] : prog.GetHotJoinNodes(nt, et)) gj[k] = std::set<int>(v.begin(), v.end()); PBT_EQ(pbt::ToText(gj, 0), pbt::ToText(joins, 0), "join blocks with frequency " << nt << " and edges of " << et);
  c.NonTrivial(hot.size() > 2 && p.edges.size() > 2 && clonings + copies + updates > 1); c.LabelIf(clonings, "paths cloned"); c.LabelIf(copies, "graphs copied"); c.LabelIf(updates, "weights changed"); c.LabelIf(joins.size(), "join blocks"); bool pads = false; for (auto* g : prog.GetCfgs()) pads |= g->has_hot_landing_pads(); c.LabelIf(pads, "hot landing pads");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P35"; su.rule = "at least three edges and three hot blocks, with at least two updates, clonings or copies";
  su.assumptions = {"two blocks are not joined by edges of two kinds", "weights and their sums fit 31 bits", "the list of cloned paths is not part of a copy"};
  su.subs = {{"histories", Histories, 120000, 2000000}};
  return pbt::Main(argc, argv, su);
}
