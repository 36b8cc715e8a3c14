// MODE: LLVM
// SOURCES: llvm_propeller_program_cfg_builder.cc llvm_propeller_program_cfg.cc llvm_propeller_program_cfg_proto_builder.cc llvm_propeller_cfg.cc branch_aggregation.cc llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_content.cc addr2cu.cc llvm_propeller_formatting.cc llvm_propeller_statistics.cc llvm_propeller_code_layout.cc llvm_propeller_code_layout_scorer.cc llvm_propeller_chain_cluster_builder.cc llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain_builder.cc llvm_propeller_profile_writer.cc frequencies_branch_aggregator.cc profile_writer.cc llvm_profile_writer.cc gcov.cc symbol_map.cc source_info.cc util/symbolize/elf_reader.cc pb:options pb:cfg
// TECHNIQUE: property-based testing (metamorphic): the same facts in shuffled insertion orders and under drawn hash orders must give the same files, byte for byte
// LEVEL_NOTE: Random search. Iteration orders of hashed collections are drawn per run through the build's stand-in for the hash library; pointer orders of interned names vary between runs.
#include <dirent.h>
#include <unistd.h>
#include "branch_aggregation.h"
#include "branch_frequencies.h"
#include "branchgen.h"
#include "frequencies_branch_aggregator.h"
#include "gcov.h"
#include "layoutgen.h"
#include "llvm_profile_writer.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_profile.h"
#include "llvm_propeller_profile_writer.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "llvm_propeller_program_cfg_proto_builder.h"
#include "profgen.h"
#include "profile_writer.h"
#include "third_party/abseil/absl/flags/flag.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo;
ABSL_DECLARE_FLAG(uint64_t, gcov_version);
namespace {
using U = uint64_t; using Files = std::map<std::string, std::string>;
void Same(const Files& a, const Files& b, const std::string& how) {
  for (auto& [n, t] : a) { PBT_CHECK(b.count(n), "file " << n << " is written only once" << how); auto& u = b.at(n); if (t == u) continue; size_t i = 0; while (i < t.size() && i < u.size() && t[i] == u[i]) ++i; size_t from = i > 200 ? i - 200 : 0; PBT_CHECK(false, "file " << n << " differs at byte " << i << how << "\n--- first\n" << t.substr(from, 500) << "\n--- then\n" << u.substr(from, 500)); }
  PBT_EQ(a.size(), b.size(), "files written" << how);
}
void TakeDir(const std::string& d, Files* out) { DIR* h = opendir(d.c_str()); if (!h) return; while (auto* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; (*out)["dump/" + n] = pbt::ReadFile(d + "/" + n); unlink((d + "/" + n).c_str()); } closedir(h); rmdir(d.c_str()); }
template <class M, class K> void Fill(Src& s, M* m, const br::Counts& c, K key) { std::vector<std::pair<br::Pair, int64_t>> v(c.begin(), c.end()); s.Shuffle(v); for (auto& [k, n] : v) (*m)[key(k)] += n; }

void Layouts(Src& s, Case& c) {
  bb::Opts o; o.max_funcs = 6; o.max_blocks = 7; bb::Program p = bb::Generate(s, o); bool zero = false; for (auto& f : p.funcs) zero |= f.End() == f.addr; std::string path = c.Tmp("bin"); pbt::WriteFile(path, bb::Write(&p)); bool ties = s.Chance(1, 2), freqs = s.Chance(1, 5);
  std::vector<br::Profile> prs; int n = 0; while (s.More(n, 1, 2, 1)) { ++n; prs.push_back(br::GenProfile(s, p)); auto& r = prs.back(); if (zero) r.all = false; if (ties) { int64_t w = 1 + s.Draw(30); for (auto* m : {&r.branches, &r.falls}) for (auto& [k, v] : *m) v = w * (1 + v % 2); } }
  std::vector<std::pair<U, int64_t>> not_taken; if (freqs) { n = 0; while (s.More(n, 0, 8, 3)) { ++n; not_taken.push_back({bb::SomeAddress(s, p), 1 + (int64_t)s.Draw(20)}); } }
  PropellerOptions opt; opt.set_filter_non_text_functions(false); opt.set_verbose_cluster_output(true); opt.set_cluster_out_version(s.Bool() ? ClusterEncodingVersion::VERSION_0 : ClusterEncodingVersion::VERSION_1); auto q = cg::GenParams(s); *opt.mutable_code_layout_params() = q;
  c.Describe([&] { std::string d = bb::Show(p) + cg::Show(q); for (auto& r : prs) d += br::Show(r); for (auto& [a, k] : not_taken) d += " not taken " + std::to_string(a) + " x" + std::to_string(k) + "\n"; return d; });
  auto content = GetBinaryContent(path); unlink(path.c_str()); PBT_CHECK(content.ok(), content.status().ToString()); Files first; int runs = 0; bool laid = false, refused = false; size_t hot = 0;
  for (int run = 0; run < 3; ++run) {
    absl::shim::g_hash_seed = run == 0 ? 0 : s.Draw(100000); Files now; std::unique_ptr<ProgramCfg> cfg; std::vector<std::unique_ptr<BinaryAddressMapper>> mappers; bool ok = true;
    for (auto& r : prs) {
      PropellerStats st; std::vector<U> hv(r.addrs.begin(), r.addrs.end()); s.Shuffle(hv); absl::flat_hash_set<uint64_t> ha(hv.begin(), hv.end()); auto m = BuildBinaryAddressMapper(opt, **content, st, r.all ? nullptr : &ha); PBT_CHECK(m.ok(), m.status().ToString()); mappers.push_back(std::move(*m)); BranchAggregation agg;
      if (freqs) { struct L : BranchFrequenciesAggregator { const BranchFrequencies* f; absl::StatusOr<BranchFrequencies> AggregateBranchFrequencies(const PropellerOptions&, const BinaryContent&, PropellerStats&) override { return *f; } };
        BranchFrequencies f; Fill(s, &f.taken_branch_counters, r.branches, [](br::Pair k) { return BinaryAddressBranch{.from = k.first, .to = k.second}; }); auto nt = not_taken; s.Shuffle(nt); for (auto& [a, k] : nt) f.not_taken_branch_counters[{.address = a}] += k; auto l = std::make_unique<L>(); l->f = &f; FrequenciesBranchAggregator fa(std::move(l), opt, **content); auto b = fa.Aggregate(*mappers.back(), st); if (!b.ok()) { now["status"] = b.status().ToString(); ok = false; break; } agg = *b; }
      else { Fill(s, &agg.branch_counters, r.branches, [](br::Pair k) { return BinaryAddressBranch{.from = k.first, .to = k.second}; }); Fill(s, &agg.fallthrough_counters, r.falls, [](br::Pair k) { return BinaryAddressFallthrough{.from = k.first, .to = k.second}; }); }
      auto b = ProgramCfgBuilder(mappers.back().get(), st, std::move(cfg)).Build(agg, nullptr); if (!b.ok()) { now["status"] = b.status().ToString(); ok = false; break; } cfg = std::move(*b);
    }
    refused = !ok;
    if (ok) {
      std::string cc = c.Tmp("cc" + std::to_string(run)), ld = c.Tmp("ld" + std::to_string(run)), dir = c.Tmp("d" + std::to_string(run)), pb = c.Tmp("pb" + std::to_string(run)); opt.set_cluster_out_name(cc); opt.set_symbol_order_out_name(ld); opt.set_cfg_dump_dir_name(dir); PropellerStats st; PropellerProfile prof; hot = cfg->GetCfgs().size(); prof.functions_cluster_info_by_section_name = GenerateLayoutBySection(*cfg, q, st.code_layout_stats); prof.program_cfg = std::move(cfg);
      PropellerProfileWriter(opt).Write(prof); now["clusters"] = pbt::ReadFile(cc); now["order"] = pbt::ReadFile(ld); TakeDir(dir, &now); unlink(cc.c_str()); unlink(ld.c_str()); laid |= now["order"].size() > 0;
      // Graphs go to the graph file in a copied container of another order.
      absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> copy; auto cfgs = prof.program_cfg->GetCfgs(); std::vector<const ControlFlowGraph*> v(cfgs.begin(), cfgs.end()); s.Shuffle(v); for (auto* g : v) copy[g->function_index()] = CloneCfg(*g); ProgramCfgProtoBuilder w; if (!w.InitWriter(pb)) throw std::runtime_error("graph file"); w.AddCfgs(copy); PBT_CHECK(w.WriteAndClose(), "cannot write the graph file"); now["graphs"] = pbt::ReadFile(pb); unlink(pb.c_str());
    }
    if (run == 0) first = now; else { Same(first, now, run == 1 ? " (second run)" : " (third run)"); ++runs; }
  }
  c.NonTrivial(laid && hot > 1); c.LabelIf(ties, "equal weights"); c.LabelIf(prs.size() > 1, "profiles merged"); c.LabelIf(refused, "profile refused"); c.LabelIf(freqs, "from frequencies"); c.LabelIf(q.inter_function_reordering(), "across functions");
}

// The same samples added in different orders, written in every format.
void Profiles(Src& s, Case& c) {
  pg::Opt o; o.max_line = 4000; o.max_disc = 200; o.files = s.Bool(); o.timestamps = s.Bool(); o.max_count = 1ull << 50; if (s.Bool()) { o.big_counts = false; o.zero_counts = s.Bool(); } pg::Profile p = pg::Gen(s, o); if (s.Bool()) for (auto& [k, f] : p) { U w = 1 + s.Draw(3); std::function<void(pg::Func*)> even = [&](pg::Func* g) { for (auto& [x, l] : g->lines) { l.count = w; for (auto& [t, m] : l.targets) m = w; } for (auto& [x, g2] : g->calls) even(&g2); }; even(&f); f.head = w; }
  c.Describe([&] { return pg::Show(p); }); Files first; bool some = false; namespace sp = llvm::sampleprof; uint32_t v = s.OneOf<uint32_t>({1, 2, 3});
  for (int run = 0; run < 2; ++run) {
    absl::shim::g_hash_seed = run == 0 ? 0 : s.Draw(100000); if (run) pg::SwitchPool(s); SymbolMap m; pg::Build(p, &m, run ? &s : nullptr); Files now; std::string f = c.Tmp("f" + std::to_string(run));
    absl::SetFlag(&FLAGS_gcov_version, v); { AutoFDOProfileWriter w(&m, v); PBT_CHECK(w.WriteToFile(f), "cannot write"); now["gcov"] = pbt::ReadFile(f); unlink(f.c_str()); }
    for (auto [name, fmt] : std::map<std::string, sp::SampleProfileFormat>{{"text", sp::SPF_Text}, {"binary", sp::SPF_Binary}, {"extbinary", sp::SPF_Ext_Binary}}) { LLVMProfileWriter w(fmt); w.setSymbolMap(&m); PBT_CHECK(w.WriteToFile(f), "cannot write " << name); now[name] = pbt::ReadFile(f); unlink(f.c_str()); }
    if (run == 0) { first = now; some = p.size() > 1; } else Same(first, now, " (samples in another order)");
  }
  pg::SwitchPool(s, true); c.NonTrivial(some); c.LabelIf(std::any_of(p.begin(), p.end(), [](auto& x) { return x.second.calls.size() > 1; }), "several inlined calls");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P39"; su.rule = "a layout of at least two functions (layouts), at least two functions (profiles)";
  su.assumptions = {"names, files and start lines of functions do not depend on the order of samples", "thread schedules are out of scope: the code under test starts no threads"};
  su.subs = {{"layouts", Layouts, 60000, 1000000}, {"profiles", Profiles, 30000, 500000}};
  return pbt::Main(argc, argv, su);
}
