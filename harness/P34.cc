// MODE: LLVM
// SOURCES: llvm_propeller_program_cfg_builder.cc llvm_propeller_program_cfg.cc llvm_propeller_cfg.cc branch_aggregation.cc llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_content.cc addr2cu.cc llvm_propeller_formatting.cc llvm_propeller_statistics.cc pb:options
// TECHNIQUE: property-based testing: generated programs and branch profiles against a reference that attributes each branch to blocks by linear scan
// LEVEL_NOTE: Random search over programs and profiles, one or two merged into one graph, with the internal order of hashed collections drawn per case.
#include <unistd.h>
#include "bbprog.h"
#include "branch_aggregation.h"
#include "branchgen.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "llvm_propeller_statistics.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo;
namespace {
using br::U; using br::Profile; using br::GenProfile; using bb::H; using br::Show;
using br::Edge; using br::Edges; using br::Apply; using br::kBranch; using br::kCall; using br::kRet;
std::string N(H h) { return std::to_string(h.f) + "#" + std::to_string(h.b); }
int Kind(CFGEdge::Kind k) { return k == CFGEdge::Kind::kCall ? kCall : k == CFGEdge::Kind::kRet ? kRet : kBranch; }
void Graphs(Src& s, Case& c) {
  absl::shim::g_hash_seed = s.Draw(1000); bb::Opts o; o.max_funcs = 5; o.max_blocks = 7; bb::Program p = bb::Generate(s, o); bool zero = false; for (auto& f : p.funcs) zero |= f.End() == f.addr; if (s.Chance(1, 5)) { U d = s.OneOf<U>({0xffffffff80000000ull, 0x555500000000ull, 0x80000000ull}); for (auto& f : p.funcs) f.addr += d; for (auto& x : p.secs) x.addr += d; for (auto& y : p.extra) y.addr += d; } std::string path = c.Tmp("bin"); pbt::WriteFile(path, bb::Write(&p)); bool text = s.Chance(1, 3);
  std::vector<Profile> prs; int n = 0; while (s.More(n, 1, 3, 1)) { ++n; prs.push_back(GenProfile(s, p)); if (zero) prs.back().all = false; }
  c.Describe([&] { std::string d = bb::Show(p) + (text ? "code sections only\n" : ""); for (auto& r : prs) d += Show(r); return d; });
  auto content = GetBinaryContent(path); unlink(path.c_str()); PBT_CHECK(content.ok(), content.status().ToString()); PropellerOptions opt; opt.set_filter_non_text_functions(text);
  Edges want; std::unique_ptr<ProgramCfg> cfg; std::vector<std::unique_ptr<BinaryAddressMapper>> mappers; bool shifted = false, refused = false;
  for (auto& r : prs) {
    PropellerStats st; absl::flat_hash_set<uint64_t> hot(r.addrs.begin(), r.addrs.end()); auto m = BuildBinaryAddressMapper(opt, **content, st, r.all ? nullptr : &hot); PBT_CHECK(m.ok(), m.status().ToString()); mappers.push_back(std::move(*m)); BranchAggregation agg; for (auto& [k, v] : r.branches) agg.branch_counters[{.from = k.first, .to = k.second}] = v; for (auto& [k, v] : r.falls) agg.fallthrough_counters[{.from = k.first, .to = k.second}] = v;
    Edges before = want; std::map<int, int64_t> by_kind; std::set<int> sel; bool ok = Apply(p, r, text, &want, &sel, &by_kind, &shifted); int had = cfg ? cfg->GetCfgs().size() : 0; std::set<int> have; if (cfg) for (auto* g : cfg->GetCfgs()) have.insert(g->function_index()); auto buf = llvm::MemoryBuffer::getMemBufferCopy("content"); auto* raw = buf.get(); (void)had;
    auto b = ProgramCfgBuilder(mappers.back().get(), st, std::move(cfg)).Build(agg, std::move(buf)); PBT_CHECK(b.ok() == ok, (ok ? "profile refused: " : "profile accepted ") << b.status().ToString()); if (!ok) { PBT_CHECK(absl::IsInternal(b.status()), b.status().ToString()); refused = true; break; }
    cfg = std::move(*b); PBT_CHECK(cfg->file_content().get() == raw, "file content");
    for (auto [k, name] : std::map<int, CFGEdge::Kind>{{kBranch, CFGEdge::Kind::kBranchOrFallthough}, {kCall, CFGEdge::Kind::kCall}, {kRet, CFGEdge::Kind::kRet}}) { auto it = st.cfg_stats.total_edge_weight_by_kind.find(name); PBT_EQ(it == st.cfg_stats.total_edge_weight_by_kind.end() ? 0 : it->second, by_kind.count(k) ? by_kind[k] : 0, "weight of edges of kind " << k); }
    PBT_EQ(st.cfg_stats.total_edges_created(), (int64_t)(want.size() - before.size()), "edges created"); uint64_t nodes = 0, made = 0; for (int i : sel) if (!have.count(i)) { ++made; nodes += p.funcs[i].blocks.size(); } PBT_EQ(st.cfg_stats.cfgs_created, made, "graphs created"); PBT_EQ(st.cfg_stats.nodes_created, nodes, "nodes created");
    std::map<H, bool> hotb; for (auto& [k, e] : want) hotb[k.first] = hotb[k.second] = true; int hb = 0, he = 0; std::set<int> pads, fs; for (auto& [h, _] : hotb) { ++hb; fs.insert(h.f); auto& q = p.funcs[h.f].blocks[h.b]; he += q.size == 0; if (q.Pad()) pads.insert(h.f); } PBT_EQ(st.cfg_stats.hot_basic_blocks, hb, "hot blocks"); PBT_EQ(st.cfg_stats.hot_empty_basic_blocks, he, "hot empty blocks"); PBT_EQ(st.cfg_stats.cfgs_with_hot_landing_pads, (int)pads.size(), "graphs with hot landing pads");
    std::set<int> got; for (auto* g : cfg->GetCfgs()) got.insert(g->function_index()); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(fs, 0), "functions with samples"); Edges seen;
    for (auto* g : cfg->GetCfgs()) {
      int fi = g->function_index(); auto& f = p.funcs[fi]; std::vector<std::string> names; for (auto& x : g->names()) names.push_back(x.str()); PBT_EQ(pbt::ToText(names, 0), pbt::ToText(bb::NamesAt(p, f.addr), 0), "names of function " << fi); PBT_EQ(g->section_name().str(), bb::SectionOf(p, f), "section of function " << fi); PBT_CHECK(!g->module_name(), "module name"); PBT_EQ(g->nodes().size(), f.blocks.size(), "blocks of function " << fi); PBT_CHECK(cfg->GetCfgByIndex(fi) == g, "lookup by index"); PBT_CHECK(g->is_hot(), "function " << fi << " not hot"); int lp = 0;
      for (size_t i = 0; i < f.blocks.size(); ++i) { auto& q = f.blocks[i]; auto& nd = *g->nodes()[i]; lp += q.Pad(); H h{fi, (int)i}; PBT_EQ(nd.addr(), f.At(i), "address of " << N(h)); PBT_EQ(nd.bb_index(), (int)i, "index of " << N(h)); PBT_EQ(nd.node_index(), (int)i, "node index"); PBT_EQ(nd.bb_id(), (int)q.id, "id of " << N(h)); PBT_EQ(nd.size(), (int)q.size, "size of " << N(h)); PBT_EQ(nd.clone_number(), 0, "clone number"); PBT_EQ(nd.function_index(), fi, "function of " << N(h)); PBT_CHECK(nd.can_fallthrough() == q.Falls() && nd.has_return() == q.Returns() && nd.is_landing_pad() == q.Pad() && nd.has_tail_call() == bool(q.md & bb::kTail) && nd.has_indirect_branch() == bool(q.md & bb::kInd), "properties of " << N(h));
        auto Seen = [&](const CFGEdge* e, bool intra, bool out) { auto& mine = out ? *e->src() : *e->sink(); PBT_CHECK(&mine == &nd, "edge is not of " << N(h)); H a{e->src()->function_index(), e->src()->bb_index()}, b{e->sink()->function_index(), e->sink()->bb_index()}; PBT_EQ(intra, a.f == b.f, "edge " << N(a) << ">" << N(b) << " within a function"); if (!out) return; auto it = want.find({a, b}); PBT_CHECK(it != want.end(), "edge " << N(a) << ">" << N(b) << " x" << e->weight() << " unexplained"); PBT_CHECK(seen.insert({{a, b}, {}}).second, "edge " << N(a) << ">" << N(b) << " twice"); PBT_EQ(int64_t{e->weight()}, it->second.w, "weight of " << N(a) << ">" << N(b)); PBT_CHECK(it->second.kinds & Kind(e->kind()), "kind of " << N(a) << ">" << N(b) << " is " << Kind(e->kind()) << ", want " << it->second.kinds); PBT_EQ(e->inter_section(), bb::SectionOf(p, p.funcs[a.f]) != bb::SectionOf(p, p.funcs[b.f]), "across sections " << N(a) << ">" << N(b)); };
        for (auto* e : nd.intra_outs()) Seen(e, true, true); for (auto* e : nd.inter_outs()) Seen(e, false, true); for (auto* e : nd.intra_ins()) Seen(e, true, false); for (auto* e : nd.inter_ins()) Seen(e, false, false); int ins = 0; for (auto& [k, e] : want) ins += k.second == h; PBT_EQ((int)(nd.intra_ins().size() + nd.inter_ins().size()), ins, "edges into " << N(h)); }
      PBT_EQ(g->n_landing_pads(), lp, "landing pads");
    }
    PBT_EQ(seen.size(), want.size(), "edges");
  }
  int inter = 0, kinds = 0; bool mixed = false; for (auto& [k, e] : want) { inter += k.first.f != k.second.f; kinds |= e.kinds; mixed |= (e.kinds & (e.kinds - 1)) != 0; }
  c.NonTrivial(!refused && want.size() > 2 && inter); c.LabelIf(refused, "profile refused"); c.LabelIf(prs.size() > 1 && !refused, "profiles merged"); c.LabelIf(kinds == 7, "all kinds"); c.LabelIf(mixed, "edge of two kinds"); c.LabelIf(shifted, "return to the start of a block"); c.LabelIf(p.secs.size() > 1, "several sections");
}
// One branch with a count of any size.
void LargeCounts(Src& s, Case& c) {
  bb::Opts o; o.max_funcs = 2; o.max_blocks = 3; bb::Program p = bb::Generate(s, o); for (auto& f : p.funcs) if (f.End() == f.addr) throw pbt::Discard(); std::string path = c.Tmp("bin"); pbt::WriteFile(path, bb::Write(&p)); auto content = GetBinaryContent(path); unlink(path.c_str()); PBT_CHECK(content.ok(), content.status().ToString()); PropellerOptions opt; opt.set_filter_non_text_functions(false);
  int64_t w = s.OneOf<int64_t>({1, 1000, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, int64_t(1 + s.U64((1ull << 62) - 1))}); auto sel = bb::Select(p, nullptr, false); if (!sel.count(0)) throw pbt::Discard(); auto& f = p.funcs[0]; int k = s.Draw(f.blocks.size() - 1); if (!f.blocks[k].size || f.blocks[k].Returns()) throw pbt::Discard(); U from = f.EndOf(k) - 1, to = f.At(0); c.Describe([&] { return bb::Show(p) + "branch of block " + std::to_string(k) + " to the entry, count " + std::to_string(w) + "\n"; });
  PropellerStats st; auto m = BuildBinaryAddressMapper(opt, **content, st, nullptr); PBT_CHECK(m.ok(), m.status().ToString()); BranchAggregation agg; agg.branch_counters[{.from = from, .to = to}] = w; auto b = ProgramCfgBuilder((*m).get(), st).Build(agg, nullptr); PBT_CHECK(b.ok(), b.status().ToString()); int64_t got = 0; for (auto* g : (*b)->GetCfgs()) for (auto& e : g->intra_edges()) got += e->weight();
  c.NonTrivial(w > 0xffff); c.LabelIf(w > 0x7fffffff, "count beyond 31 bits"); if (w > 0x7fffffff && (got == int32_t(w) || (got == 0 && int32_t(w) <= 0))) { c.Known("32-bit-edge-weights", "counts beyond 31 bits are truncated in control-flow graphs"); return; } PBT_EQ(got, w, "weight of the branch");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P34"; su.scale = 2; su.rule = "accepted, with at least three edges, one between functions";
  su.assumptions = {"counts are positive; sums fit 31 bits in sub graphs (see the known finding)", "where branches of different kinds join the same two blocks, the edge may be of any of these kinds"};
  su.subs = {{"graphs", Graphs, 100000, 1500000}, {"counts", LargeCounts, 5000, 100000}};
  return pbt::Main(argc, argv, su);
}
