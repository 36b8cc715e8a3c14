// MODE: LLVM
// SOURCES: llvm_propeller_program_cfg.cc llvm_propeller_cfg.cc llvm_propeller_code_layout.cc llvm_propeller_code_layout_scorer.cc llvm_propeller_chain_cluster_builder.cc llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain_builder.cc llvm_propeller_formatting.cc llvm_propeller_statistics.cc pb:options
// TECHNIQUE: model-based property testing: the clustering and order of chains is compared with a plain reference computation of call-chain clustering over generated graphs
// LEVEL_NOTE: Random search over programs of up to 9 functions (40 in one sub-check) cut into chains at random, all option combinations, weights up to 2^31 and orders of hashed collections; function orders are checked through the whole layout too.
#include <deque>
#include "layoutgen.h"
#include "llvm_propeller_chain_cluster_builder.h"
#include "llvm_propeller_node_chain.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo; using namespace cg;
namespace {
using Chain = std::vector<H>;  // nodes in order
struct Ref { std::vector<std::vector<int>> clusters; int merges = 0, density_stops = 0, size_stops = 0, weak_stops = 0; };
// Call-chain clustering: chains in order of their incoming weight each join the cluster sending them the most.
Ref Cluster(const Prog& p, const PropellerCodeLayoutParameters& q, const std::vector<Chain>& chains) {
  Ref r; using Id = std::tuple<int, int, int>; int n = chains.size(); std::map<H, int> of; std::vector<Id> id; std::vector<int64_t> size, freq;
  for (int i = 0; i < n; ++i) { auto& [f, b] = chains[i][0]; id.push_back({p.fns[f].index, p.fns[f].nodes[b].bb, p.fns[f].nodes[b].clone}); int64_t s = 0, w = 0; for (auto& h : chains[i]) { of[h] = i; s += p.fns[h.first].nodes[h.second].size; w += Freq(p, h.first, h.second); } size.push_back(s); freq.push_back(w); }
  std::map<int, std::vector<int>> cl; std::vector<int> in(n); for (int i = 0; i < n; ++i) { cl[i] = {i}; in[i] = i; }
  auto Density = [&](int c) { return double(freq[c]) / std::max<int64_t>(size[c], 1); };
  if (q.call_chain_clustering()) {
    std::vector<int64_t> to(n); std::vector<int> order;
    auto Counts = [&](const Edge& e) { return e.w && e.kind != kReturn && !e.xsec && of.count({e.sf, e.sn}) && of.count({e.tf, e.tn}) && of.at({e.sf, e.sn}) != of.at({e.tf, e.tn}); };
    for (auto& e : p.edges) if (Counts(e)) to[of[{e.tf, e.tn}]] += e.w;
    for (int i = 0; i < n; ++i) if (to[i]) order.push_back(i); std::sort(order.begin(), order.end(), [&](int a, int b) { return to[a] != to[b] ? to[a] > to[b] : id[a] < id[b]; });
    std::vector<double> own(n); for (int i = 0; i < n; ++i) own[i] = Density(i); int64_t most = q.cluster_merge_size_threshold();
    for (int i : order) {
      if (own[i] < 0.005) { ++r.density_stops; continue; } int me = in[i]; if (size[me] > most) { ++r.size_stops; continue; } std::map<int, int64_t> from;
      for (auto& e : p.edges) {
        if (!Counts(e) || of[{e.tf, e.tn}] != i) continue; if (!q.inter_function_reordering() && H{e.tf, e.tn} != chains[i][0]) continue;
        if (int64_t{e.w} * 10 < Freq(p, e.tf, e.tn)) { ++r.weak_stops; continue; } int c = in[of[{e.sf, e.sn}]]; if (c == me) continue; if (size[c] > most) { ++r.size_stops; continue; }
        // The predecessor may lose at most an eighth... of its density: new density >= old / 8.
        if (8 * size[c] * (freq[me] + freq[c]) < freq[c] * (size[me] + size[c])) { ++r.density_stops; continue; } from[c] += e.w;
      }
      int best = -1; for (auto& [c, w] : from) if (best < 0 || std::tuple(w, id[c]) > std::tuple(from[best], id[best])) best = c; if (best < 0) continue;
      ++r.merges; for (int x : cl[me]) { in[x] = best; cl[best].push_back(x); } cl.erase(me); size[best] += size[me]; freq[best] += freq[me];
    }
  }
  std::vector<int> final; for (auto& [c, _] : cl) final.push_back(c); std::sort(final.begin(), final.end(), [&](int a, int b) { if (q.call_chain_clustering() && Density(a) != Density(b)) return Density(a) > Density(b); return id[a] < id[b]; });
  for (int c : final) r.clusters.push_back(cl[c]); return r;
}
std::string ShowChains(const Prog& p, const std::vector<Chain>& v) { std::ostringstream o; for (size_t i = 0; i < v.size(); ++i) { o << "chain " << i << ":"; for (auto& h : v[i]) o << " " << p.fns[h.first].index << "." << h.second; o << "\n"; } return o.str(); }
PropellerCodeLayoutParameters Params(Src& s) { auto q = GenParams(s); q.set_call_chain_clustering(!s.Chance(1, 8)); if (s.Chance(1, 3)) q.set_cluster_merge_size_threshold(s.Chance(1, 2) ? s.Draw(3000) : s.Draw(200)); else q.clear_cluster_merge_size_threshold(); return q; }
// Functions small and large, hot and cold, with chances for equal weights and densities.
void Flavour(Src& s, Prog& p, int max_w) {
  for (auto& f : p.fns) if (s.Chance(1, 4)) { int z = s.OneOf<int>({0, 1, 8, 16, 1000, 20000, 300000}); for (auto& b : f.nodes) b.size = z; }
  if (max_w > 1000) for (auto& e : p.edges) if (s.Bool()) e.w = std::max<int64_t>(1, s.Draw(max_w));
  if (s.Chance(1, 4)) for (auto& e : p.edges) e.w = s.OneOf<int>({1, 2, 10, 20, 100, 9, 11});
}
void Chains(Src& s, Case& c, const Opts& o, int max_w) {
  absl::shim::g_hash_seed = s.Draw(1000); Prog p = GenerateLayoutInput(s, o); Flavour(s, p, max_w); int64_t sum = 0; for (auto& e : p.edges) sum += e.w; if (sum > 700000000) for (auto& e : p.edges) e.w = std::max<int64_t>(1, e.w * int64_t{700000000} / sum);  // frequencies count an edge up to thrice
  auto q = Params(s); auto cfg = Build(p);
  std::vector<Chain> chains; std::string sec = s.OneOf<std::string>({".text", ".text", ".text.hot"}); bool across = q.inter_function_reordering();
  std::vector<H> all; for (size_t f = 0; f < p.fns.size(); ++f) if (p.fns[f].section == sec) { Chain v; for (size_t i = 0; i < p.fns[f].nodes.size(); ++i) v.push_back({(int)f, (int)i}); if (v.empty()) continue; if (!across) { if (s.Chance(1, 3)) { Chain t(v.begin() + 1, v.end()); s.Shuffle(t); std::copy(t.begin(), t.end(), v.begin() + 1); } chains.push_back(v); } all.insert(all.end(), v.begin(), v.end()); }
  if (across) { if (s.Bool()) s.Shuffle(all); for (auto& h : all) if (chains.empty() || s.Chance(1, 3)) chains.push_back({h}); else chains[s.Bool() ? chains.size() - 1 : s.Draw(chains.size() - 1)].push_back(h); } if (s.Bool()) s.Shuffle(chains);
  std::string got_text; c.Describe([&] { return Show(p) + Show(q) + ShowChains(p, chains) + got_text; });
  auto Node = [&](const H& h) { return cfg->GetCfgByIndex(p.fns[h.first].index)->nodes()[h.second].get(); };
  std::vector<const CFGNode*> want_nodes; std::vector<std::unique_ptr<const NodeChain>> real; for (auto& v : chains) { std::vector<const CFGNode*> nodes; for (auto& h : v) nodes.push_back(Node(h)); real.push_back(std::make_unique<NodeChain>(nodes, s.Bool() ? NodeChain::BundleMode::kBundleAllNodesTogether : NodeChain::BundleMode::kBundleEachSingleNode)); }
  std::map<const CFGNode*, int> of; for (size_t i = 0; i < chains.size(); ++i) for (auto& h : chains[i]) of[Node(h)] = i;
  auto out = ChainClusterBuilder(q, std::move(real)).BuildClusters(); std::vector<std::vector<int>> got; std::vector<const CFGNode*> seen;
  for (auto& k : out) { got.push_back({}); k->VisitEachNodeRef([&](const CFGNode& n) { seen.push_back(&n); int i = of.at(&n); if (got.back().empty() || got.back().back() != i) got.back().push_back(i); }); }
  Ref want = Cluster(p, q, chains); got_text = "clusters " + pbt::ToText(got, 0) + "\n"; PBT_EQ(pbt::ToText(got, 0), pbt::ToText(want.clusters, 0), "clusters of chains, in order");
  std::vector<const CFGNode*> expect; for (auto& k : want.clusters) for (int i : k) for (auto& h : chains[i]) expect.push_back(Node(h)); PBT_CHECK(seen == expect, "blocks of the chains are not kept in order");
  for (size_t i = 0; i < out.size(); ++i) { int64_t z = 0, w = 0; for (int k : want.clusters[i]) for (auto& h : chains[k]) { z += p.fns[h.first].nodes[h.second].size; w += Freq(p, h.first, h.second); } PBT_EQ((int64_t)out[i]->size(), z, "size of a cluster"); PBT_EQ((int64_t)out[i]->freq(), w, "frequency of a cluster"); }
  c.NonTrivial(want.merges > 1 && want.clusters.size() > 1); c.LabelIf(want.merges > 2, "several merges"); c.LabelIf(want.density_stops, "merge avoided for density"); c.LabelIf(want.size_stops, "merge avoided for size"); c.LabelIf(want.weak_stops, "edge too weak"); c.LabelIf(across, "chains across functions"); c.LabelIf(!q.call_chain_clustering(), "no clustering");
}
void Small(Src& s, Case& c) { Opts o; o.clones = true; o.max_fn = 9; o.max_nodes = 4; o.max_edges = 40; o.avg_edges = 14; o.sections = s.Chance(1, 4); Chains(s, c, o, 0); }
void Large(Src& s, Case& c) { Opts o; o.max_fn = 40; o.max_nodes = 3; o.max_edges = 200; o.avg_edges = 80; o.sections = false; Chains(s, c, o, 0); }
void Heavy(Src& s, Case& c) { Opts o; o.max_fn = 6; o.max_nodes = 3; o.max_edges = 14; o.avg_edges = 7; o.sections = false; Chains(s, c, o, 700000000); }
// The order of whole functions is the order of the clusters of their chains.
void Functions(Src& s, Case& c) {
  absl::shim::g_hash_seed = s.Draw(1000); Opts o; o.max_fn = 9; o.max_nodes = 4; o.max_edges = 40; o.avg_edges = 14; o.sections = s.Chance(1, 4); Prog p = GenerateLayoutInput(s, o); Flavour(s, p, 0); auto q = Params(s); q.set_inter_function_reordering(false); auto cfg = Build(p); std::map<std::string, Infos> done;
  c.Describe([&] { std::string r = Show(p) + Show(q); for (auto& [k, v] : done) r += k + "\n" + ShowLayout(v); return r; }); PropellerStats::CodeLayoutStats st; auto all = GenerateLayoutBySection(*cfg, q, st); int merges = 0, moved = 0;
  for (auto& [sec, v] : all) {
    done[sec.str()] = v; std::vector<Chain> chains; std::map<int, int> of; std::map<unsigned, int> at; for (auto& i : v) { int f = FindFn(p, i.function_index); Chain ch; for (auto& k : i.clusters) for (auto& b : k.full_bb_ids) ch.push_back({f, FindNode(p.fns[f], b.intra_cfg_id)}); of[f] = chains.size(); chains.push_back(ch); at[i.clusters.at(0).layout_index] = f; }
    std::vector<int> got, want; for (auto& [_, f] : at) got.push_back(p.fns[f].index); Ref r = Cluster(p, q, chains); for (auto& k : r.clusters) for (int i : k) want.push_back(p.fns[chains[i][0].first].index); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(want, 0), "functions of " << sec.str() << " in order"); merges += r.merges; moved += !std::is_sorted(got.begin(), got.end());
  }
  c.NonTrivial(merges && moved); c.LabelIf(merges > 2, "several merges"); c.LabelIf(moved, "functions moved");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P47"; su.scale = 3; su.rule = "chains were joined at least twice (once in whole layouts) and the outcome differs from one cluster in the original order";
  su.assumptions = {"sums of frequencies stay below 2^31 (edge weights are 32-bit, see the known finding of P34)", "when functions stay whole, each is one chain that begins with its entry, as the chain builder makes it"};
  su.subs = {{"chains", Small, 150000, 3000000}, {"large", Large, 6000, 150000}, {"heavy", Heavy, 40000, 600000}, {"functions", Functions, 60000, 1000000}};
  return pbt::Main(argc, argv, su);
}
