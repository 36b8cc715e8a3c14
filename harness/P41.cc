// MODE: LLVM
// SOURCES: llvm_propeller_options_builder.cc llvm_propeller_profile_generator.cc llvm_propeller_profile_computer.cc llvm_propeller_profile_writer.cc llvm_propeller_perf_lbr_aggregator.cc llvm_propeller_perf_branch_frequencies_aggregator.cc llvm_propeller_file_perf_data_provider.cc llvm_propeller_program_cfg_builder.cc llvm_propeller_program_cfg.cc llvm_propeller_telemetry_reporter.cc llvm_propeller_code_layout.cc llvm_propeller_code_layout_scorer.cc llvm_propeller_chain_cluster_builder.cc llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain_builder.cc llvm_propeller_formatting.cc perfdata_reader.cc spe_tid_pid_provider.cc mini_disassembler.cc branch_aggregation.cc lbr_branch_aggregator.cc frequencies_branch_aggregator.cc llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_content.cc addr2cu.cc llvm_propeller_cfg.cc llvm_propeller_statistics.cc status_provider.cc status_consumer_registry.cc pb:options pb:cfg pb:perf
// TECHNIQUE: property-based testing: generated builder call sequences against a protobuf-reflection model, generated option combinations against the acceptance table
// LEVEL_NOTE: Random search. Accepted requests run the whole pipeline on one small program with generated branch records.
#include <unistd.h>
#include "google/protobuf/util/message_differencer.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_options_builder.h"
#include "llvm_propeller_profile_computer.h"
#include "llvm_propeller_profile_generator.h"
#include "pbt.h"
#include "quipper/perf_reader.h"
using pbt::Case; using pbt::Src;
using namespace devtools_crosstool_autofdo;
using google::protobuf::Message; using google::protobuf::FieldDescriptor;

namespace {
struct Value { uint32_t n = 0; bool b = false; std::string s; InputProfile p; PropellerCodeLayoutParameters l; int e = 0; };
void SetField(Message* m, const std::string& path, const Value& v) {
  size_t dot = path.find('.'); auto* d = m->GetDescriptor()->FindFieldByName(path.substr(0, dot)); auto* r = m->GetReflection(); if (!d) throw std::logic_error("no field " + path);
  if (dot != std::string::npos) return SetField(r->MutableMessage(m, d), path.substr(dot + 1), v);
  if (d->is_repeated()) { if (d->cpp_type() == FieldDescriptor::CPPTYPE_STRING) r->AddString(m, d, v.s); else r->AddMessage(m, d)->CopyFrom(v.p); return; }
  switch (d->cpp_type()) { case FieldDescriptor::CPPTYPE_STRING: r->SetString(m, d, v.s); break; case FieldDescriptor::CPPTYPE_BOOL: r->SetBool(m, d, v.b); break; case FieldDescriptor::CPPTYPE_UINT32: r->SetUInt32(m, d, v.n); break; case FieldDescriptor::CPPTYPE_ENUM: r->SetEnumValue(m, d, v.e); break; default: r->MutableMessage(m, d)->CopyFrom(v.l); }
}
template <class B> using Setters = std::vector<std::pair<std::string, std::function<B&(B&, const Value&)>>>;
#define S(B, M, F, X) {F, [](B& b, const Value& v) -> B& { (void)v; return b.M(X); }}
const Setters<InputProfileBuilder> kInput = {S(InputProfileBuilder, SetName, "name", v.s), S(InputProfileBuilder, SetType, "type", static_cast<ProfileType>(v.e))};
#define PO(M, F, X) S(PropellerOptionsBuilder, M, F, X)
#define CL(M, F, X) S(PropellerOptionsBuilder, SetCodeLayoutParams##M, "code_layout_params." F, X)
const Setters<PropellerOptionsBuilder> kOptions = {
  PO(SetBinaryName, "binary_name", v.s), PO(AddProfileNames, "profile_names", v.s), PO(SetClusterOutName, "cluster_out_name", v.s), PO(SetSymbolOrderOutName, "symbol_order_out_name", v.s), PO(SetProfiledBinaryName, "profiled_binary_name", v.s), PO(SetIgnoreBuildId, "ignore_build_id", v.b), PO(SetCodeLayoutParams, "code_layout_params", v.l),
  CL(FallthroughWeight, "fallthrough_weight", v.n), CL(ForwardJumpWeight, "forward_jump_weight", v.n), CL(BackwardJumpWeight, "backward_jump_weight", v.n), CL(ForwardJumpDistance, "forward_jump_distance", v.n), CL(BackwardJumpDistance, "backward_jump_distance", v.n), CL(ChainSplit, "chain_split", v.b), CL(ChainSplitThreshold, "chain_split_threshold", v.n), CL(CallChainClustering, "call_chain_clustering", v.b), CL(ClusterMergeSizeThreshold, "cluster_merge_size_threshold", v.n), CL(SplitFunctions, "split_functions", v.b), CL(ReorderHotBlocks, "reorder_hot_blocks", v.b), CL(InterFunctionReordering, "inter_function_reordering", v.b),
  PO(SetVerboseClusterOutput, "verbose_cluster_output", v.b), PO(SetCfgDumpDirName, "cfg_dump_dir_name", v.s), PO(SetHttp, "http", v.b), PO(SetOutputModuleName, "output_module_name", v.b), PO(SetFilterNonTextFunctions, "filter_non_text_functions", v.b), PO(SetClusterOutVersion, "cluster_out_version", static_cast<ClusterEncodingVersion>(v.e)), PO(AddInputProfiles, "input_profiles", v.p)};
#define LP(M, F, X) S(PropellerCodeLayoutParametersBuilder, M, F, X)
const Setters<PropellerCodeLayoutParametersBuilder> kLayout = {LP(SetFallthroughWeight, "fallthrough_weight", v.n), LP(SetForwardJumpWeight, "forward_jump_weight", v.n), LP(SetBackwardJumpWeight, "backward_jump_weight", v.n), LP(SetForwardJumpDistance, "forward_jump_distance", v.n), LP(SetBackwardJumpDistance, "backward_jump_distance", v.n), LP(SetChainSplit, "chain_split", v.b), LP(SetChainSplitThreshold, "chain_split_threshold", v.n), LP(SetCallChainClustering, "call_chain_clustering", v.b), LP(SetClusterMergeSizeThreshold, "cluster_merge_size_threshold", v.n), LP(SetSplitFunctions, "split_functions", v.b), LP(SetReorderHotBlocks, "reorder_hot_blocks", v.b), LP(SetInterFunctionReordering, "inter_function_reordering", v.b)};

template <class B, class M> void Build(Src& s, Case& c, const Setters<B>& setters) {
  M model; std::string text; auto Gen = [&] { Value v; v.n = (uint32_t)s.U64(0xffffffffu); v.b = s.Bool(); v.s = s.Text("ab/ .\n", 0, 12, 4); v.e = s.Draw(2); if (s.Bool()) v.p.set_name(s.Text("xy", 0, 4, 2)); if (s.Bool()) v.p.set_type(static_cast<ProfileType>(s.Draw(3))); if (s.Bool()) v.l.set_forward_jump_weight(s.Draw(100)); if (s.Bool()) v.l.set_chain_split(s.Bool()); return v; };
  if (s.Bool()) { int k = 1 + s.Draw(4); for (int i = 0; i < k; ++i) SetField(&model, s.Pick(setters).first, Gen()); text = "from " + model.ShortDebugString() + ": "; }
  B b = s.Bool() ? B(model) : B(M(model)); int n = 0;
  while (s.More(n, 0, 30, 6)) { ++n; auto& x = s.Pick(setters); Value v = Gen(); B& r = x.second(b, v); SetField(&model, x.first, v); text += x.first + " "; PBT_CHECK(&r == &b, "builder does not return itself: " << x.first); const M& m = b; if (!google::protobuf::util::MessageDifferencer::Equals(m, model)) PBT_EQ(m.ShortDebugString(), model.ShortDebugString(), "after " << text); }
  const M& m = b; PBT_EQ(m.ShortDebugString(), model.ShortDebugString(), text); M copy = B(b); PBT_EQ(copy.SerializeAsString(), model.SerializeAsString(), "request message"); c.Describe([&] { return text; }); c.NonTrivial(n > 1);
}
void Builders(Src& s, Case& c) { switch (s.Weighted({1, 4, 2})) { case 0: Build<InputProfileBuilder, InputProfile>(s, c, kInput); c.Label("input"); break; case 1: Build<PropellerOptionsBuilder, PropellerOptions>(s, c, kOptions); c.Label("options"); break; default: Build<PropellerCodeLayoutParametersBuilder, PropellerCodeLayoutParameters>(s, c, kLayout); c.Label("layout"); } }

// One program with basic block addresses, compiled once per process.
std::string g_exe; uint64_t g_lo, g_hi, g_a, g_b;
void Program(Case& c) {
  if (g_exe.size()) return; std::string d = c.Tmp("prog41"), f = d + ".cc", out, err; pbt::WriteFile(f, "volatile int sink; __attribute__((noinline)) int work(int x) { for (int i = 0; i < x; ++i) { if (sink & 1) sink = i; else sink += 3; } return sink; } extern \"C\" void _start() { for (;;) work(sink); }\n");
  if (pbt::Exec({"clang++-18", "-O1", "-fbasic-block-sections=labels", "-nostdlib", "-no-pie", "-fuse-ld=lld", "-Wl,--build-id", "-o", d, f}, &out, &err)) throw std::runtime_error("cannot compile: " + err); if (pbt::Exec({"nm", "-S", d}, &out, &err)) throw std::runtime_error(err);
  size_t p = out.find(" T _Z4worki"); unsigned long long a, n; if (p == std::string::npos || sscanf(out.c_str() + out.rfind('\n', p) + 1, "%llx %llx", &a, &n) != 2) throw std::runtime_error("no symbol"); g_exe = d; g_lo = a; g_hi = a + n;
}
std::string Perf(const std::string& exe, Src& s) {
  quipper::PerfDataProto p; auto* m = p.add_events()->mutable_mmap_event(); m->set_pid(10); m->set_tid(10); m->set_start(0x200000); m->set_len(0x100000); m->set_pgoff(0); m->set_filename(exe); int n = 1 + s.Draw(4);
  for (int i = 0; i < n; ++i) { auto* e = p.add_events()->mutable_sample_event(); e->set_pid(10); e->set_tid(10); e->set_ip(g_lo); for (int k = 0; k < 3; ++k) { auto* b = e->add_branch_stack(); b->set_from_ip(g_hi - 1); b->set_to_ip(g_lo); } }
  return quipper::EncodeStandInPerf(p);
}
void Requests(Src& s, Case& c) {
  PropellerOptions o; std::string out = c.Tmp("cc.txt"), ld = c.Tmp("ld.txt"); unlink(out.c_str()); unlink(ld.c_str()); bool names = s.Chance(1, 4); bool real = s.Bool(); Program(c); std::string perf = c.Tmp("perf.data"), bad = c.Tmp("missing"); pbt::WriteFile(perf, Perf(g_exe, s));
  o.set_binary_name(real ? g_exe : bad); o.set_cluster_out_name(out); o.set_symbol_order_out_name(ld); o.set_profiled_binary_name(g_exe); if (s.Bool()) o.set_http(s.Bool()); if (s.Bool()) o.set_ignore_build_id(s.Bool()); if (s.Bool()) o.set_cluster_out_version(static_cast<ClusterEncodingVersion>(1 + s.Draw(1))); if (s.Bool()) o.set_verbose_cluster_output(s.Bool());
  if (names) { int k = 1 + s.Draw(1); while (k--) o.add_profile_names(s.Bool() ? perf : ""); }
  int same = s.Chance(1, 2) ? s.Draw(3) : -1; std::set<int> kinds; int n = 0; while (s.More(n, 0, 4, 2)) { ++n; int t = same >= 0 ? same : s.Draw(3); auto* p = o.add_input_profiles(); p->set_name(perf); if (t || s.Bool()) p->set_type(static_cast<ProfileType>(t)); kinds.insert(t == 0 ? 1 : t); }
  c.Describe([&] { return o.ShortDebugString(); }); bool valid = !names && kinds.size() == 1 && *kinds.begin() != FREQUENCIES_PROTO;
  absl::Status r = GeneratePropellerProfiles(o); bool wrote = !access(out.c_str(), F_OK) || !access(ld.c_str(), F_OK);
  if (!valid) { PBT_CHECK(r.code() == absl::StatusCode::kInvalidArgument, r); PBT_CHECK(!wrote, "refused but written"); c.Label(names ? "profile names" : kinds.empty() ? "no input" : kinds.size() > 1 ? "mixed kinds" : "unsupported kind"); }
  else if (!real) { PBT_CHECK(!r.ok() && r.code() != absl::StatusCode::kInvalidArgument, r); PBT_CHECK(!wrote, "failed but written"); c.Label("no binary"); }
  else if (kinds.count(PERF_LBR)) { PBT_CHECK(r.ok(), r); PBT_CHECK(wrote && !access(out.c_str(), F_OK) && !access(ld.c_str(), F_OK), "not written"); std::string t = pbt::ReadFile(out); PBT_CHECK(t.find("_Z4worki") != std::string::npos, t); c.Label("branch records"); }
  else { PBT_CHECK(r.code() != absl::StatusCode::kInvalidArgument, r); c.Label("statistical profiling records"); }
  c.NonTrivial(o.input_profiles_size() > 1 || names);
}
void Providers(Src& s, Case& c) {
  Program(c); std::string out = c.Tmp("cc2.txt"), perf = c.Tmp("perf2.data"); unlink(out.c_str()); pbt::WriteFile(perf, Perf(g_exe, s)); PropellerOptions o; o.set_binary_name(g_exe); o.set_cluster_out_name(out); o.set_symbol_order_out_name(c.Tmp("ld2.txt")); o.set_profiled_binary_name(g_exe); int t = s.Draw(3), n = 0; bool computer = s.Bool(); bool other = false; while (s.More(n, 0, 3, 1)) { ++n; auto* p = o.add_input_profiles(); p->set_name(perf); int k = s.Draw(3); if (k || s.Bool()) p->set_type(static_cast<ProfileType>(k)); other |= k > 1; }
  std::vector<std::string> files(1 + s.Draw(2), perf); c.Describe([&] { return o.ShortDebugString() + " type " + std::to_string(t); }); auto prov = std::make_unique<GenericFilePerfDataProvider>(files);
  if (computer) { auto r = s.Bool() ? PropellerProfileComputer::Create(o) : PropellerProfileComputer::Create(o, std::move(prov)); if (other) PBT_CHECK(r.status().code() == absl::StatusCode::kInvalidArgument, r.status()); else PBT_CHECK(r.ok(), r.status()); c.Label("computer"); c.NonTrivial(other); return; }
  absl::Status r = GeneratePropellerProfiles(o, std::move(prov), static_cast<ProfileType>(t)); bool wrote = !access(out.c_str(), F_OK);
  if (t == PERF_LBR) PBT_CHECK(r.ok() && wrote, r); else if (t == PERF_SPE) PBT_CHECK(r.code() != absl::StatusCode::kInvalidArgument, r); else PBT_CHECK(r.code() == absl::StatusCode::kInvalidArgument && !wrote, r); c.Label("provider"); c.NonTrivial(t != PERF_LBR);
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite t; t.property = "P41"; t.scale = 4; t.rule = "several builder calls, several input profiles or an unsupported combination";
  t.subs = {{"builders", Builders, 150000, 3000000}, {"requests", Requests, 40000, 1000000}, {"given provider", Providers, 20000, 500000}};
  return pbt::Main(argc, argv, t);
}
