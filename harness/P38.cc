// MODE: LLVM
// SOURCES: llvm_propeller_program_cfg.cc llvm_propeller_cfg.cc llvm_propeller_code_layout.cc llvm_propeller_code_layout_scorer.cc llvm_propeller_chain_cluster_builder.cc llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain_builder.cc llvm_propeller_formatting.cc llvm_propeller_statistics.cc pb:options
// TECHNIQUE: model-based testing: after every join the chains, offsets, edges and scores of the builder are recomputed from the node order alone, and every possible join is evaluated
// LEVEL_NOTE: Random search over graphs, parameters and, besides the builder's own joins, arbitrary ones; floating-point sums are compared with a relative tolerance of 1e-9.
#include "layoutgen.h"
#include "llvm_propeller_code_layout_scorer.h"
#include "llvm_propeller_node_chain.h"
#include "llvm_propeller_node_chain_assembly.h"
#include "llvm_propeller_node_chain_builder.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo; using namespace cg;
namespace {
using Params = PropellerCodeLayoutParameters; using Bundle = std::vector<H>; using Chain = std::vector<Bundle>;
struct World { const Prog* p; Params q; std::vector<int> fns; std::vector<Edge> edges; std::map<const CFGNode*, H> h; std::map<H, const CFGNode*> n; };
int Size(const World& w, H h) { return w.p->fns[h.first].nodes[h.second].size; }
std::map<H, int64_t> Offsets(const World& w, const std::vector<H>& order) { std::map<H, int64_t> r; int64_t o = 0; for (auto h : order) { r[h] = o; o += Size(w, h); } return r; }
std::vector<H> Flat(const Chain& c) { std::vector<H> r; for (auto& b : c) r.insert(r.end(), b.begin(), b.end()); return r; }
double Score(const World& w, const std::vector<H>& order, const std::map<H, int>* bundle = nullptr, double* mag = nullptr) { auto off = Offsets(w, order); double r = 0; for (auto& e : w.edges) { auto a = off.find({e.sf, e.sn}), b = off.find({e.tf, e.tn}); if (a == off.end() || b == off.end() || (bundle && bundle->at(a->first) == bundle->at(b->first))) continue; double x = EdgeScore(w.q, *w.p, e, b->second - a->second - Size(w, a->first)); r += x; if (mag) *mag += x; } return r; }
bool Exact(const World& w) { auto p2 = [](uint64_t x) { return x && !(x & (x - 1)); }; return p2(w.q.forward_jump_distance()) && p2(w.q.backward_jump_distance()); }  // sums of scores have no rounding
bool Entry(const World& w, H h) { return w.p->fns[h.first].nodes[h.second].bb == 0; }
std::vector<H> Joined(const Chain& a, const Chain& b, ChainMergeOrder o, int pos) { std::vector<H> r; auto A = [&](int from, int to) { for (int i = from; i < to; ++i) r.insert(r.end(), a[i].begin(), a[i].end()); }; auto B = [&] { for (auto& x : b) r.insert(r.end(), x.begin(), x.end()); }; int n = a.size(); switch (o) { case ChainMergeOrder::kSU: A(0, n); B(); break; case ChainMergeOrder::kS1US2: A(0, pos); B(); A(pos, n); break; case ChainMergeOrder::kS2S1U: A(pos, n); A(0, pos); B(); break; case ChainMergeOrder::kUS2S1: B(); A(pos, n); A(0, pos); break; case ChainMergeOrder::kS2US1: A(pos, n); B(); A(0, pos); break; } return r; }
// What joining `a` and `b` gains, or nothing when the join is forbidden.
std::optional<double> Gain(const World& w, const Chain& a, const Chain& b, ChainMergeOrder o, int pos, double* mag) {
  auto r = Joined(a, b, o, pos); if (!w.q.inter_function_reordering() && (Entry(w, a[0][0]) || Entry(w, b[0][0])) && !Entry(w, r[0])) return {}; std::set<H> sa; for (auto h : Flat(a)) sa.insert(h); auto off = Offsets(w, r); double cross = 0; for (auto& e : w.edges) { H x{e.sf, e.sn}, y{e.tf, e.tn}; if (!off.count(x) || !off.count(y) || sa.count(x) == sa.count(y)) continue; cross += EdgeScore(w.q, *w.p, e, off[y] - off[x] - Size(w, x)); }
  double after = Score(w, r, nullptr, mag), x = Score(w, Flat(a), nullptr, mag), y = Score(w, Flat(b), nullptr, mag); if (cross == 0) return 0; return after - x - y;
}
// The bundles of a joined chain: those of the parts, except that neighbours of one function become one where a chain of several functions exceeds the split threshold.
Chain Bundles(const World& w, const Chain& a, const Chain& b, ChainMergeOrder o, int pos) {
  Chain r; std::map<H, size_t> at; std::vector<const Bundle*> all; for (auto& x : a) all.push_back(&x); for (auto& x : b) all.push_back(&x); for (size_t i = 0; i < all.size(); ++i) for (auto h : *all[i]) at[h] = i; std::set<int> fs; for (auto& [h, _] : at) fs.insert(h.first); bool merge = fs.size() > 1 && w.q.chain_split() && all.size() > w.q.chain_split_threshold(); size_t last = all.size();
  for (auto h : Joined(a, b, o, pos)) { if (r.empty() || (at[h] != last && !(merge && r.back().back().first == h.first))) r.emplace_back(); last = at[h]; r.back().push_back(h); } return r;
}
std::string Name(ChainMergeOrder o) { switch (o) { case ChainMergeOrder::kSU: return "SU"; case ChainMergeOrder::kS1US2: return "S1US2"; case ChainMergeOrder::kS2S1U: return "S2S1U"; case ChainMergeOrder::kUS2S1: return "US2S1"; default: return "S2US1"; } }
Chain Read(const World& w, const NodeChain& c) { Chain r; for (auto& b : c.node_bundles()) { r.emplace_back(); for (auto* n : b->nodes()) r.back().push_back(w.h.at(n)); } return r; }
std::string ShowChain(const World& w, const Chain& c) { std::ostringstream o; for (auto& b : c) { o << "("; for (size_t i = 0; i < b.size(); ++i) o << (i ? " " : "") << w.p->fns[b[i].first].index << "." << b[i].second; o << ")"; } return o.str(); }
using State = std::map<const NodeChain*, Chain>;
// Recomputes everything the builder keeps about its chains.
State CheckState(const World& w, const NodeChainBuilder& b, const std::set<H>& nodes) {
  State st; std::map<H, const NodeChain*> in; std::map<H, int> bundle; int nb = 0;
  for (auto& [id, c] : b.chains()) { st[c.get()] = Read(w, *c); PBT_CHECK(id == c->id(), "chain filed under another id"); }
  for (auto& [c, chain] : st) {
    int64_t off = 0, freq = 0; int index = 0; std::set<int> fs;
    for (auto& bd : c->node_bundles()) { PBT_CHECK(!bd->nodes().empty(), "empty bundle"); PBT_CHECK(bd->chain_mapping().chain == c, "bundle filed under another chain"); PBT_EQ(bd->chain_mapping().chain_index, index++, "index of a bundle"); PBT_EQ(bd->chain_mapping().chain_offset, off, "offset of a bundle"); int64_t bs = 0, bf = 0; int f0 = w.h.at(bd->nodes()[0]).first; for (auto* n : bd->nodes()) { H h = w.h.at(n); PBT_CHECK(nodes.count(h), "cold block in a chain"); PBT_CHECK(in.insert({h, c}).second, "block in two chains"); bundle[h] = nb; auto& m = b.node_to_bundle_mapper().GetBundleMappingEntry(n); PBT_CHECK(m.bundle == bd.get(), "block filed under another bundle"); PBT_EQ(m.bundle_offset, bs, "offset of a block in its bundle"); PBT_EQ(b.node_to_bundle_mapper().GetNodeOffset(const_cast<CFGNode*>(n)), off + bs, "offset of a block"); bs += n->size(); bf += Freq(*w.p, h.first, h.second); fs.insert(h.first); PBT_EQ(h.first, f0, "function of a bundle"); } ++nb; PBT_EQ(bd->size(), bs, "size of a bundle"); PBT_EQ(bd->freq(), bf, "frequency of a bundle"); off += bs; freq += bf; }
    PBT_EQ(c->size(), off, "size of a chain"); PBT_EQ(c->freq(), freq, "frequency of a chain"); PBT_CHECK(c->function_index().has_value() == (fs.size() == 1) && (fs.size() > 1 || *c->function_index() == w.p->fns[*fs.begin()].index), "function of a chain"); PBT_CHECK(Near(c->exec_density(), double(freq) / std::max<int64_t>(off, 1)), "density of a chain"); PBT_CHECK(w.h.at(c->GetFirstNode()) == chain[0][0] && w.h.at(c->GetLastNode()) == chain.back().back(), "ends of a chain");
  }
  PBT_EQ(in.size(), nodes.size(), "blocks in chains");
  std::map<const NodeChain*, std::map<const NodeChain*, std::multiset<std::string>>> outs, gouts; std::map<const NodeChain*, std::set<const NodeChain*>> ins; std::map<int, std::multiset<std::string>> inner, ginner; auto T = [](H a, H b) { return std::to_string(a.first) + "." + std::to_string(a.second) + ">" + std::to_string(b.first) + "." + std::to_string(b.second); };
  for (auto& e : w.edges) { H a{e.sf, e.sn}, z{e.tf, e.tn}; PBT_CHECK(in.count(a) && in.count(z), "edge of an unplaced block"); if (in[a] != in[z]) { outs[in[a]][in[z]].insert(T(a, z)); ins[in[z]].insert(in[a]); } else if (bundle[a] != bundle[z]) inner[bundle[a]].insert(T(a, z)); }
  for (auto& [c, chain] : st) {
    double mag = 0, want = Score(w, Flat(chain), &bundle, &mag); PBT_CHECK(Near(c->score(), want, mag), "score of chain " << ShowChain(w, chain) << " is " << c->score() << ", want " << want); PBT_CHECK(Near(c->ComputeScore(b.node_to_bundle_mapper(), b.code_layout_scorer()), want, mag), "recomputed score of a chain");
    for (auto& [to, es] : c->inter_chain_out_edges()) { PBT_CHECK(to != c, "chain joined to itself"); for (auto* e : es) gouts[c][to].insert(T(w.h.at(e->src()), w.h.at(e->sink()))); } std::set<const NodeChain*> gin(c->inter_chain_in_edges().begin(), c->inter_chain_in_edges().end()); PBT_CHECK(gin == ins[c], "chains with edges to " << ShowChain(w, chain));
    for (auto& bd : c->node_bundles()) { int last = -1, id = bundle[w.h.at(bd->nodes()[0])]; for (auto* e : bd->intra_chain_out_edges()) { ginner[id].insert(T(w.h.at(e->src()), w.h.at(e->sink()))); int k = b.node_to_bundle_mapper().GetBundleMappingEntry(e->sink()).bundle->chain_mapping().chain_index; PBT_CHECK(k >= last, "edges of a bundle unordered"); last = k; } }
  }
  PBT_CHECK(outs == gouts, "edges between chains"); PBT_CHECK(inner == ginner, "edges within chains"); return st;
}
World Make(const Prog& p, const Params& q, const ProgramCfg& cfg, std::vector<int> fns) {
  World w{&p, q, fns, {}, {}, {}}; bool multi = q.inter_function_reordering() && fns.size() > 1; std::set<int> in(fns.begin(), fns.end()); for (auto& e : p.edges) { if (!e.w || e.kind == kReturn || !in.count(e.sf) || !in.count(e.tf)) continue; if (multi ? e.xsec : (e.kind == kCall || e.sf != e.tf)) continue; w.edges.push_back(e); }
  for (int f : fns) { auto& g = *cfg.GetCfgByIndex(p.fns[f].index); for (size_t i = 0; i < g.nodes().size(); ++i) { w.h[g.nodes()[i].get()] = {f, (int)i}; w.n[{f, (int)i}] = g.nodes()[i].get(); } } return w;
}
struct Join { const NodeChain *a, *b; ChainMergeOrder o; int pos; double gain, mag; };
// Every join the builder has to consider.
std::vector<Join> Joins(const World& w, const State& st) {
  std::vector<Join> r; std::map<H, std::pair<const NodeChain*, int>> at; for (auto& [c, chain] : st) for (size_t i = 0; i < chain.size(); ++i) for (auto h : chain[i]) at[h] = {c, (int)i}; std::set<std::pair<const NodeChain*, const NodeChain*>> pairs; for (auto& e : w.edges) { auto *a = at[{e.sf, e.sn}].first, *b = at[{e.tf, e.tn}].first; if (a != b) { pairs.insert({a, b}); pairs.insert({b, a}); } }
  for (auto [a, b] : pairs) {
    auto &ca = st.at(a), &cb = st.at(b); std::set<std::pair<ChainMergeOrder, int>> tries{{ChainMergeOrder::kSU, 0}}; int n = ca.size();
    if (w.q.chain_split()) {
      if (n <= (int)w.q.chain_split_threshold()) { for (auto o : {ChainMergeOrder::kS1US2, ChainMergeOrder::kS2S1U, ChainMergeOrder::kUS2S1, ChainMergeOrder::kS2US1}) for (int i = 1; i < n; ++i) tries.insert({o, i}); }
      else for (auto& e : w.edges) { H x{e.sf, e.sn}, y{e.tf, e.tn}; if (x == cb.back().back() && at[y].first == a && ca[at[y].second].front() == y && at[y].second) for (auto o : {ChainMergeOrder::kS1US2, ChainMergeOrder::kUS2S1}) tries.insert({o, at[y].second}); if (y == cb[0][0] && at[x].first == a && ca[at[x].second].back() == x && at[x].second + 1 < n) for (auto o : {ChainMergeOrder::kS1US2, ChainMergeOrder::kS2S1U}) tries.insert({o, at[x].second + 1}); }
    }
    for (auto [o, pos] : tries) { double mag = 0; auto g = Gain(w, ca, cb, o, pos, &mag); if (g && *g > 0) r.push_back({a, b, o, pos, *g, mag}); }
  }
  return r;
}
void CheckGain(const World& w, const State& st, const NodeChainAssembly& as) {
  auto &a = st.at(&as.split_chain()), &b = st.at(&as.unsplit_chain()); int pos = as.slice_pos().value_or(0); double mag = 0; auto g = Gain(w, a, b, as.merge_order(), pos, &mag); PBT_CHECK(g, "forbidden join"); PBT_CHECK(Near(as.score_gain(), *g, mag), "gain of joining " << ShowChain(w, a) << " and " << ShowChain(w, b) << " " << Name(as.merge_order()) << "@" << pos << " predicted " << as.score_gain() << ", is " << *g);
  std::vector<H> got; as.VisitEachNodeBundleInAssemblyOrder([&](const CFGNodeBundle& x) { for (auto* n : x.nodes()) got.push_back(w.h.at(n)); }); PBT_CHECK(got == Joined(a, b, as.merge_order(), pos), "order of blocks in a join"); PBT_CHECK(w.h.at(as.GetFirstNode()) == got[0], "first block of a join");
}
template <class Q> void Run(Src& s, Case& c, const World& w, const ProgramCfg& cfg, std::string* log, absl::flat_hash_map<int, std::vector<std::vector<CFGNode::IntraCfgId>>> initial) {
  PropellerCodeLayoutScorer scorer(w.q); PropellerStats::CodeLayoutStats stats; std::vector<const ControlFlowGraph*> cfgs; for (int f : w.fns) cfgs.push_back(cfg.GetCfgByIndex(w.p->fns[f].index)); auto b = NodeChainBuilder::CreateNodeChainBuilder<Q>(scorer, cfgs, initial, stats); b.InitNodeChains();
  std::set<H> nodes; bool inter = w.q.inter_function_reordering(); for (int f : w.fns) { if (!Hot(*w.p, f)) continue; auto& fn = w.p->fns[f]; bool pads = false; for (size_t i = 0; i < fn.nodes.size(); ++i) pads |= (fn.nodes[i].md & kPad) && Freq(*w.p, f, i); for (size_t i = 0; i < fn.nodes.size(); ++i) if (!w.q.split_functions() || Freq(*w.p, f, i) || (!inter && !fn.nodes[i].bb) || ((fn.nodes[i].md & kPad) && pads)) nodes.insert({f, (int)i}); }
  b.InitChainEdges(); b.InitChainAssemblies(); int joins = 0, splits = 0, arbitrary = 0, others = 0;
  for (;;) {
    State st = CheckState(w, b, nodes); *log = ""; for (auto& [_, ch] : st) *log += " " + ShowChain(w, ch) + "\n"; auto all = Joins(w, st);
    // An arbitrary join is predicted correctly as well.
    if (st.size() > 1) for (int k = 0; k < 2; ++k) {
      std::vector<std::pair<CFGNode::InterCfgId, const NodeChain*>> cs; for (auto& [x, _] : st) cs.push_back({x->id(), x}); std::sort(cs.begin(), cs.end()); int i = s.Draw(cs.size() - 1), j = s.Draw(cs.size() - 2); if (j >= i) ++j; auto *x = const_cast<NodeChain*>(cs[i].second), *y = const_cast<NodeChain*>(cs[j].second); int n = st[x].size(); auto o = n > 1 ? s.OneOf<ChainMergeOrder>({ChainMergeOrder::kSU, ChainMergeOrder::kS1US2, ChainMergeOrder::kS2S1U, ChainMergeOrder::kUS2S1, ChainMergeOrder::kS2US1}) : ChainMergeOrder::kSU; std::optional<int> pos; if (o != ChainMergeOrder::kSU) pos = 1 + s.Draw(n - 2); double mag = 0; auto g = Gain(w, st[x], st[y], o, pos.value_or(0), &mag); auto as = NodeChainAssembly::BuildNodeChainAssembly(b.node_to_bundle_mapper(), scorer, *x, *y, {.merge_order = o, .slice_pos = pos, .error_on_zero_score_gain = false}); ++arbitrary;
      if (!g || (*g < 0 && !Near(*g, 0, mag))) PBT_CHECK(!as.ok(), "bad join accepted"); else if ((*g == 0 && Exact(w)) || !Near(*g, 0, mag)) PBT_CHECK(as.ok(), "good join refused: " << as.status().ToString()); if (as.ok()) CheckGain(w, st, *as);
      auto as2 = NodeChainAssembly::BuildNodeChainAssembly(b.node_to_bundle_mapper(), scorer, *x, *y, {.merge_order = o, .slice_pos = pos}); if (as2.ok()) PBT_CHECK(as2->score_gain() > 0 && as.ok(), "join without gain accepted"); else if (as.ok()) PBT_EQ(as->score_gain(), 0, "refused with a gain");
    }
    double best = 0, best_mag = 0; for (auto& j : all) if (j.gain > best) { best = j.gain; best_mag = j.mag; }
    if (b.node_chain_assemblies().empty()) { PBT_CHECK(Near(best, 0, best_mag), "no join offered, but one gains " << best); break; }
    NodeChainAssembly as = b.node_chain_assemblies().GetBestAssembly(); PBT_CHECK(as.score_gain() > 0, "join without gain"); PBT_CHECK(st.count(&as.split_chain()) && st.count(&as.unsplit_chain()), "join of a chain that is gone"); CheckGain(w, st, as); PBT_CHECK(as.score_gain() >= best || Near(as.score_gain(), best, best_mag), "joins for " << as.score_gain() << " where " << best << " is available");
    bool offered = false; for (auto& j : all) offered |= j.a == &as.split_chain() && j.b == &as.unsplit_chain() && j.o == as.merge_order() && j.pos == as.slice_pos().value_or(0); PBT_CHECK(offered || Near(as.score_gain(), 0, best_mag), "join that is not to be considered"); others += all.size() > 1; ++joins; splits += as.splits(); const NodeChain* kept = &as.split_chain(); auto want = Joined(st[kept], st[&as.unsplit_chain()], as.merge_order(), as.slice_pos().value_or(0)); auto bundles = Bundles(w, st[kept], st[&as.unsplit_chain()], as.merge_order(), as.slice_pos().value_or(0)); size_t left = st.size() - 1; b.MergeChains(std::move(as)); PBT_EQ(b.chains().size(), left, "chains after a join"); bool found = false; for (auto& [_, ch] : b.chains()) if (ch.get() == kept) { found = true; PBT_CHECK(Flat(Read(w, *ch)) == want, "blocks of a joined chain"); PBT_CHECK(Read(w, *ch) == bundles, "pieces of a joined chain are " << ShowChain(w, Read(w, *ch)) << ", want " << ShowChain(w, bundles)); } PBT_CHECK(found, "joined chain lost");
  }
  if (w.fns.size() == 1 && b.chains().size()) {  // What is left is put together by density.
    State st = CheckState(w, b, nodes); std::vector<std::pair<std::tuple<bool, double, CFGNode::InterCfgId>, Chain>> cs; int entries = 0; for (auto& [x, ch] : st) { cs.push_back({{!Entry(w, ch[0][0]), -double(x->freq()) / std::max(x->size(), 1), x->id()}, ch}); entries += Entry(w, ch[0][0]); } std::sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; }); std::vector<H> want; for (auto& [_, ch] : cs) for (auto h : Flat(ch)) want.push_back(h); b.CoalesceChains(); st = CheckState(w, b, nodes); PBT_EQ(st.size(), 1u, "chains left"); if (entries <= 1) PBT_CHECK(Flat(st.begin()->second) == want, "order of the remaining chains");
  }
  c.NonTrivial(joins > 1 && others); c.LabelIf(splits, "chain split"); c.LabelIf(inter, "across functions"); c.LabelIf(!initial.empty(), "given chains"); c.LabelIf(arbitrary, "arbitrary joins");
}
void JoinsCase(Src& s, Case& c) { s.NoGrow();  // the model of every possible join is too slow for long lists

  absl::shim::g_hash_seed = s.Draw(1000); Opts o; o.clones = s.Chance(1, 4); o.max_fn = 3; o.max_nodes = 8; o.max_edges = 24; o.avg_edges = 12; o.sections = false; o.max_w = s.Chance(1, 6) ? 1000 : 99; /* larger ones leave rounding of running sums visible */ o.max_size = s.Bool() ? 40 : 900; Prog p = GenerateLayoutInput(s, o); auto q = GenParams(s, s.Chance(1, 3)); bool tree = s.Bool(); auto cfg = Build(p); std::vector<int> fns; if (q.inter_function_reordering()) for (size_t i = 0; i < p.fns.size(); ++i) fns.push_back(i); else fns = {(int)s.Draw(p.fns.size() - 1)};
  World w = Make(p, q, *cfg, fns); std::string log, gave; absl::flat_hash_map<int, std::vector<std::vector<CFGNode::IntraCfgId>>> initial; bool pads = false; for (auto& f : p.fns) { int k = 0; for (auto& n : f.nodes) k += bool(n.md & kPad); pads |= k > 1; }
  if (s.Chance(1, 4) && q.reorder_hot_blocks() && !(q.inter_function_reordering() && pads)) for (int f : fns) { std::vector<int> hot; for (size_t i = 0; i < p.fns[f].nodes.size(); ++i) if (p.fns[f].nodes[i].bb && Freq(p, f, i)) hot.push_back(i); if (hot.empty()) continue; s.Shuffle(hot); size_t at = 0; std::vector<std::vector<CFGNode::IntraCfgId>> v; if (Freq(p, f, 0) && s.Bool()) hot.insert(hot.begin(), 0); while (at < hot.size() && (v.empty() || s.Chance(2, 3))) { v.emplace_back(); size_t l = 1 + s.Draw(3); gave += " given chain"; for (; l && at < hot.size(); --l, ++at) { auto& n = p.fns[f].nodes[hot[at]]; v.back().push_back({n.bb, n.clone}); gave += " " + std::to_string(p.fns[f].index) + "." + std::to_string(hot[at]); } gave += "\n"; } initial[p.fns[f].index] = v; }
  c.Describe([&] { std::string r = Show(p) + Show(q) + gave + "functions"; for (int f : fns) r += " " + std::to_string(p.fns[f].index); return r + (tree ? ", tree queue\n" : "\n") + log; });
  if (tree) Run<NodeChainAssemblyBalancedTreeQueue>(s, c, w, *cfg, &log, initial); else Run<NodeChainAssemblyIterativeQueue>(s, c, w, *cfg, &log, initial);
}
// The reported scores, against the formula on both placements.
void Scores(Src& s, Case& c) {
  absl::shim::g_hash_seed = s.Draw(1000); Opts o; o.max_fn = 5; o.max_edges = 30; o.avg_edges = 12; o.max_size = s.Bool() ? 40 : 900; Prog p = GenerateLayoutInput(s, o); auto q = GenParams(s); if (s.Chance(1, 6)) { uint64_t d = s.OneOf<uint64_t>({1ull << 31, 1ull << 32, 3ull << 32}); for (auto& f : p.fns) { if (s.Bool()) for (auto& n : f.nodes) n.addr += d; } } auto cfg = Build(p); std::map<std::string, Infos> done; c.Describe([&] { std::string r = Show(p) + Show(q); for (auto& f : p.fns) { r += "addresses of " + std::to_string(f.index); for (auto& n : f.nodes) r += " " + std::to_string(n.addr); r += "\n"; } for (auto& [k, v] : done) r += k + "\n" + ShowLayout(v); return r; });
  PropellerStats::CodeLayoutStats st; for (auto& [k, v] : GenerateLayoutBySection(*cfg, q, st)) done[k.str()] = v; double oi = 0, oo = 0, ni = 0, no = 0; bool better = false;
  for (auto& [sec, v] : done) {
    int in_sec = 0; for (auto& f : p.fns) in_sec += f.section == sec; std::map<H, int64_t> at; int64_t off = 0; for (auto h : Order(p, v)) { at[h] = off; off += p.fns[h.first].nodes[h.second].size; }
    for (auto& info : v) {
      int f = FindFn(p, info.function_index); double w[4] = {}; for (auto& e : p.edges) { if (e.sf != f || !e.w || e.kind == kReturn) continue; bool intra = e.tf == f; if (!intra && (in_sec < 2 || e.xsec)) continue; auto &a = p.fns[f].nodes[e.sn], &b = p.fns[e.tf].nodes[e.tn]; w[intra ? 0 : 1] += EdgeScore(q, p, e, int64_t(b.addr - a.addr) - a.size); H x{f, e.sn}, y{e.tf, e.tn}; PBT_CHECK(at.count(x) && at.count(y), "unplaced block with an edge"); w[intra ? 2 : 3] += EdgeScore(q, p, e, at[y] - at[x] - a.size); }
      PBT_CHECK(Near(info.original_score.intra_score, w[0]), "original score of " << info.function_index << " is " << info.original_score.intra_score << ", want " << w[0]); PBT_CHECK(Near(info.original_score.inter_out_score, w[1]), "original score between functions of " << info.function_index << " is " << info.original_score.inter_out_score << ", want " << w[1]); PBT_CHECK(Near(info.optimized_score.intra_score, w[2]), "score of " << info.function_index << " is " << info.optimized_score.intra_score << ", want " << w[2]); PBT_CHECK(Near(info.optimized_score.inter_out_score, w[3]), "score between functions of " << info.function_index << " is " << info.optimized_score.inter_out_score << ", want " << w[3]); oi += w[0]; oo += w[1]; ni += w[2]; no += w[3]; better |= w[2] > w[0];
    }
  }
  PBT_CHECK(Near(st.original_intra_score, oi) && Near(st.original_inter_score, oo) && Near(st.optimized_intra_score, ni) && Near(st.optimized_inter_score, no), "total scores"); c.NonTrivial(better); c.LabelIf(oo > 0 || no > 0, "scores between functions"); c.LabelIf(ni + no < oi + oo, "score got worse");
}
// One edge at any distance.
void Formula(Src& s, Case& c) {
  Prog p; for (int i = 0; i < 2; ++i) { Fn f; f.index = i; f.section = ".text"; f.names = {"f" + std::to_string(i)}; Node n; n.size = s.Chance(1, 6) ? 0 : s.Draw(300); f.nodes = {n}; f.originals = 1; p.fns.push_back(f); } Edge e; e.tf = 1; e.w = s.OneOf<int>({0, 1, 7, 1000, 0x7fffffff, (int)s.Draw(100000)}); e.kind = s.Draw(2); p.edges = {e}; auto q = GenParams(s); int64_t near = s.OneOf<int64_t>({0, (int64_t)q.forward_jump_distance(), -(int64_t)q.backward_jump_distance(), -p.fns[0].nodes[0].size / 2, -p.fns[1].nodes[0].size / 2}), d = near; switch (s.Weighted({4, 2, 1})) { case 0: d = near + (int64_t)s.Draw(4) - 2; break; case 1: d = (int64_t)s.Draw(4000) - 2000; break; default: d = s.OneOf<int64_t>({1ll << 31, -(1ll << 31), 1ll << 32, (1ll << 32) + 5, -(1ll << 32) - 5, 1ll << 40}); }
  auto cfg = Build(p); auto& edge = *cfg->GetCfgByIndex(0)->inter_edges()[0]; c.Describe([&] { return Show(p) + Show(q) + "distance " + std::to_string(d) + "\n"; }); double got = PropellerCodeLayoutScorer(q).GetEdgeScore(edge, d), want = EdgeScore(q, p, p.edges[0], d); PBT_CHECK(Near(got, want), "score is " << got << ", want " << want); c.NonTrivial(want > 0); c.LabelIf(want > 0 && d < 0, "backward"); c.LabelIf(want > 0 && d > 0, "forward"); c.LabelIf(std::abs(d) > 0x7fffffff, "beyond 31 bits");
}
// The blocks that always run in sequence.
void Paths(Src& s, Case& c) {
  Opts o; o.max_fn = 1; o.max_nodes = 9; o.max_edges = 12; o.avg_edges = 6; o.sections = false; o.zero_weights = true; Prog p = Generate(s, o); if (p.fns.size() > 1) throw pbt::Discard(); c.Describe([&] { return Show(p); }); auto cfg = Build(p); auto& g = *cfg->GetCfgs()[0]; std::map<int, int> outs, ins, next, forced; for (auto& e : p.edges) if (e.w && e.kind == kBranch) { ++outs[e.sn]; ++ins[e.tn]; } for (auto& e : p.edges) if (e.w && e.kind == kBranch && outs[e.sn] == 1 && ins[e.tn] == 1) next[e.sn] = e.tn; forced = next; bool cycles = false;
  std::map<int, int> got; for (auto [a, b] : GetForcedEdges(g)) got[a->node_index()] = b->node_index(); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(forced, 0), "forced edges");
  for (auto [a, _] : forced) { std::vector<int> walk{a}; int x = forced[a]; while (x != a && forced.count(x) && (int)walk.size() < 2000) { walk.push_back(x); x = forced[x]; } if (x != a) continue; cycles = true; int cut = *std::min_element(walk.begin(), walk.end()); for (int y : walk) if (forced[y] == cut) next.erase(y); }
  std::vector<std::vector<int>> want, paths; std::set<int> sinks; for (auto [a, b] : next) sinks.insert(b); for (auto [a, _] : next) if (!sinks.count(a)) { want.push_back({a}); for (int x = a; next.count(x); x = next[x]) want.back().push_back(next[x]); } for (auto& v : GetForcedPaths(g)) { paths.emplace_back(); for (auto* n : v) paths.back().push_back(n->node_index()); } PBT_EQ(pbt::ToText(paths, 0), pbt::ToText(want, 0), "forced paths"); c.NonTrivial(want.size() && p.edges.size() > 2); c.LabelIf(cycles, "cycle"); c.LabelIf(want.size() > 1, "several paths");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P38"; su.rule = "at least two joins with a choice (joins), a function improved (scores), a positive score (formula), a path found (paths)";
  su.assumptions = {"jumps to the start of a function are calls, as the graph builder makes them; entry blocks are not cloned", "scores are compared with a relative tolerance of 1e-9"};
  su.subs = {{"joins", JoinsCase, 120000, 1500000}, {"scores", Scores, 60000, 1000000}, {"formula", Formula, 200000, 2000000}, {"paths", Paths, 100000, 1500000}};
  return pbt::Main(argc, argv, su);
}
