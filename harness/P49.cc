// MODE: LLVM
// SOURCES: profile_creator.cc sample_reader.cc spe_sample_reader.cc perfdata_reader.cc spe_tid_pid_provider.cc mini_disassembler.cc branch_aggregation.cc llvm_propeller_binary_content.cc llvm_propeller_options_builder.cc status_provider.cc profile.cc instruction_map.cc symbol_map.cc source_info.cc gcov.cc profile_writer.cc llvm_profile_writer.cc profile_symbol_list.cc addr2line.cc addr2cu.cc branch_frequencies_autofdo_sample.cc llvm_propeller_file_perf_data_provider.cc util/symbolize/elf_reader.cc pb:options pb:cfg pb:perf
// TECHNIQUE: property-based testing end to end: generated binaries with debug information, sample and hint files and flags; the written profile, read by LLVM's own reader, compared with a reference line profile; the layout request compared with the flags
// LEVEL_NOTE: Random search. The tool's own main function runs inside the check, once per case; the layout pipeline behind it is replaced by one that records the request (that pipeline is checked by P28 to P42).
#include <fstream>
#include "addr2line.h"
#include <sstream>
#include "createprof.h"
#include "llvmview.h"
#define main create_llvm_prof_main
#include "create_llvm_prof.cc"
#undef main
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; using U = uint64_t;
ABSL_DECLARE_FLAG(bool, use_lbr); ABSL_DECLARE_FLAG(double, sample_threshold_frac); ABSL_DECLARE_FLAG(std::string, suffix_elision_policy); ABSL_DECLARE_FLAG(double, symbol_list_size_coverage_ratio); ABSL_DECLARE_FLAG(bool, compress_symbol_list); ABSL_DECLARE_FLAG(bool, use_discriminator_encoding);
// The layout pipeline: only what it is asked to do.
static int g_requests; static dca::PropellerOptions g_request; static absl::Status g_answer;
namespace devtools_crosstool_autofdo { absl::Status GeneratePropellerProfiles(const PropellerOptions& o) { ++g_requests; g_request = o; return g_answer; } }
namespace {
int Run(const std::vector<std::string>& args) {
  using absl::SetFlag; SetFlag(&FLAGS_profile, "perf.data"); SetFlag(&FLAGS_profiler, "perf"); SetFlag(&FLAGS_prefetch_hints, ""); SetFlag(&FLAGS_out, ""); SetFlag(&FLAGS_gcov, ""); SetFlag(&FLAGS_binary, "a.out"); SetFlag(&FLAGS_format, "text"); SetFlag(&FLAGS_propeller_symorder, ""); SetFlag(&FLAGS_propeller_cfg_dump_dir, ""); SetFlag(&FLAGS_propeller_chain_split_threshold, 0); SetFlag(&FLAGS_propeller_chain_split, true); SetFlag(&FLAGS_propeller_verbose_cluster_output, false); SetFlag(&FLAGS_propeller_call_chain_clustering, false); SetFlag(&FLAGS_propeller_inter_function_ordering, false); SetFlag(&FLAGS_propeller_forward_jump_distance, 1024); SetFlag(&FLAGS_propeller_backward_jump_distance, 680); SetFlag(&FLAGS_profiled_binary_name, ""); SetFlag(&FLAGS_prof_sym_list, false); SetFlag(&FLAGS_http, false); SetFlag(&FLAGS_ignore_build_id, false); SetFlag(&FLAGS_propeller_split_only, false); SetFlag(&FLAGS_propeller_layout_only, false); SetFlag(&FLAGS_propeller_output_module_name, false); SetFlag(&FLAGS_propeller_cluster_encoding_version, 2);
  SetFlag(&FLAGS_use_lbr, true); SetFlag(&FLAGS_sample_threshold_frac, 0.0); SetFlag(&FLAGS_suffix_elision_policy, "selected"); SetFlag(&FLAGS_use_discriminator_encoding, false); SetFlag(&FLAGS_symbol_list_size_coverage_ratio, 1.0); SetFlag(&FLAGS_compress_symbol_list, true);
  std::vector<std::string> a = args; a.insert(a.begin(), "create_llvm_prof"); std::vector<char*> v; for (auto& x : a) v.push_back(x.data()); v.push_back(nullptr); g_requests = 0; return create_llvm_prof_main(a.size(), v.data());
}
std::string Line(const std::vector<std::string>& a) { std::string r; for (auto& x : a) r += x + " "; return r; }
bool SameTotals(const st::Sym& y, const std::string& path, const std::map<std::string, U>& t, std::string* d) {
  auto it = t.find(path); if (it == t.end() || it->second != y.total) { *d = path + ": total is " + (it == t.end() ? "absent" : std::to_string(it->second)) + ", samples give " + std::to_string(y.total); return false; }
  std::map<std::string, U> sum; for (auto& [k, x] : y.calls) { std::string p = path + "/" + std::to_string(k.first >> 32 & 0xffff) + "." + std::to_string((uint32_t)k.first) + ":" + k.second; if (!SameTotals(x, p, t, d)) return false; } return true;
}
const std::vector<std::string> kFormats = {"text", "binary", "extbinary"};
void Compare(const std::string& out, const std::string& fmt, const pg::Profile& want, lv::View* v) {
  if (want.empty() && fmt == "text") { PBT_EQ(pbt::ReadFile(out), std::string(), "profile of nothing"); return; }
  *v = lv::Read(out); PBT_CHECK(v->error.empty(), v->error); std::string d = pg::Diff(v->p, want); PBT_CHECK(d.empty(), d); PBT_CHECK(!v->is_fs, "marked as using flow-sensitive discriminators");
}
std::string OutFlag(Src& s, const std::string& out, std::vector<std::string>* a) { switch (s.Draw(2)) { case 0: a->push_back("--out=" + out); break; case 1: a->push_back("--gcov=" + out); break; default: a->push_back("--out=" + out); a->push_back("--gcov=" + out); } return out; }
void Profiles(Src& s, Case& c) {
  cp::Setup t; cp::Generate(s, c, &t, true); t.w.enc.enc = true; t.w.enc.mul = true; auto r = lm::Lines(t.w, t.sm, t.lbr, t.threshold); if (r.odd) throw pbt::Discard(); auto folded = lm::Folded(t.w, r.raw); auto want = cp::ToProfile(folded, t.threshold);
  std::string fmt = s.Pick(kFormats), out = c.Tmp("out"); unlink(out.c_str()); std::vector<std::string> a = t.flags; if (fmt != "text" || s.Bool()) a.push_back("--format=" + fmt); a.push_back("--profiler=text"); a.push_back("--binary=" + t.bin); a.push_back("--profile=" + t.text); OutFlag(s, out, &a); bool list = fmt == "extbinary" && s.Bool(); double share = 1; bool packed = false; if (list) { a.push_back("--prof_sym_list"); if (s.Chance(1, 3)) { share = s.OneOf<double>({0, 0.25, 0.5, 0.75, 0.875}); std::ostringstream o; o << share; a.push_back("--symbol_list_size_coverage_ratio=" + o.str()); } packed = !s.Chance(1, 3); if (!packed) a.push_back("--compress_symbol_list=false"); }
  c.NonTrivial(want.size() && t.depth > 1 && (t.lbr ? r.multi > 0 : t.sm.addr.size() > 2)); c.Label(fmt); c.LabelIf(t.lbr, "ranges"); c.LabelIf(list, "with symbol list"); c.LabelIf(r.targets, "call targets"); c.LabelIf(want.size() < t.w.fns.size() && want.size(), "some functions too cold"); c.Describe([&] { return cp::Show(t) + fmt; });
  int rc = Run(a); PBT_EQ(rc, 0, "exit code"); PBT_EQ(g_requests, 0, "layout requests"); lv::View v; Compare(out, fmt, want, &v);
  for (auto& [n, y] : folded) if (want.count(n)) { std::string d; PBT_CHECK(SameTotals(y, n, v.totals, &d), d); }
  if (list) { std::set<std::string> used, names; std::function<void(const st::Sym&, const std::string&)> Use = [&](const st::Sym& y, const std::string& n) { used.insert(n); for (auto& [k, p] : y.pos) for (auto& [x, q] : p.targets) used.insert(x); for (auto& [k, x] : y.calls) Use(x, k.second); }; for (auto& [n, y] : folded) if (y.total) Use(y, n); std::vector<U> sz; U sum = 0; for (auto& f : t.w.fns) if (!used.count(f.name)) { sz.push_back(f.hi - f.lo); sum += f.hi - f.lo; } std::sort(sz.rbegin(), sz.rend()); U cover = (U)(sum * share), acc = 0, cut = ~0ull; if (share && !sz.empty() && sz[0] <= cover) for (U z : sz) { acc += z; cut = z; if (acc >= cover) break; } for (auto& f : t.w.fns) if (!used.count(f.name) && f.hi - f.lo >= cut) names.insert(t.w.Base(f.name)); PBT_EQ(pbt::ToText(v.list, 0), pbt::ToText(names, 0), "listed functions"); c.LabelIf(names.size(), "symbols listed"); c.LabelIf(share < 1, "list of the larger functions"); std::string raw = pbt::ReadFile(out); bool plain = true; for (auto& n : names) plain &= raw.find(n) != std::string::npos; PBT_CHECK(packed || plain, "the list was compressed against the request"); }
  unlink(out.c_str()); unlink(t.bin.c_str()); unlink(t.text.c_str());
}
void Hints(Src& s, Case& c) {
  cp::Setup t; cp::GenWorld(s, c, &t, true); t.w.enc.enc = true; struct H { U pc; int64_t delta; std::string type; }; std::vector<H> hs; int n = 0; bool many = s.Chance(1, 40); std::ostringstream o;
  while (s.More(n, 0, many ? 700 : 20, many ? 400 : 6)) { ++n; H h; h.pc = !hs.empty() && s.Chance(many ? 9 : 1, many ? 10 : 4) ? s.Pick(hs).pc : lm::Spot(s, t.w); h.delta = s.Chance(1, 6) ? (int64_t)s.U64(~0ull) : (int64_t)s.Draw(4000) - 2000; h.type = s.OneOf<std::string>({"T0", "T1", "T2", "NTA", "W", s.Chance(1, 3) ? s.Text("ABCdef012_", 1, 40, 12) : "ET0X"}); hs.push_back(h); o << std::hex << (s.Bool() ? "0x" : "") << h.pc << "," << std::dec << h.delta << "," << h.type; if (n || true) o << "\n"; }
  std::string txt = o.str(); if (!txt.empty() && s.Chance(1, 4)) { txt.pop_back(); c.Label("no final line end"); } int bad = s.Chance(1, 6) && !hs.empty() ? 1 + s.Draw(2) : 0; std::string file = c.Tmp("hints"); if (bad == 1) { unlink(file.c_str()); c.Label("missing file"); } else if (bad) { size_t at = s.Draw(hs.size()); std::istringstream in(txt); std::string l, r; size_t k = 0; while (std::getline(in, l)) { if (k++ == at) r += s.OneOf<std::string>({"12", "zz,1,T0", "12,x,T0", "1f,4", "1f;4;T0"}) + "\n"; r += l + "\n"; } if (k == at) r += "zz,1,T0\n"; txt = r; c.Label("malformed line"); }
  if (bad == 3 || bad == 2 || !bad) pbt::WriteFile(file, txt);
  c.Describe([&] { return cp::Show(t) + txt; });
  st::Map raw; std::map<U, size_t> idx; std::set<std::string> made; size_t marked = 0; bool odd = false;
  for (auto& h : hs) { auto* f = t.w.Find(h.pc); if (!f) continue; std::string name = "__prefetch_" + h.type + "_" + std::to_string(idx[h.pc]++); auto it = t.w.stacks.find(h.pc); if (it == t.w.stacks.end() || it->second.empty()) continue;
    auto& y = raw[f->name]; y.func = f->name; y.total = 1; st::Sym* leaf = lm::Walk(t.w.enc, &y, it->second, 0, true); if (!leaf) { odd = true; continue; } leaf->pos[lm::Key(t.w.enc, it->second[0])].targets[t.w.Base(name)] = (U)h.delta; ++marked; }
  if (odd) throw pbt::Discard(); std::map<std::string, int> bases; for (auto& [x, y] : raw) ++bases[t.w.Base(x)]; for (auto& [x, k] : bases) if (k > 1) throw pbt::Discard();  // distances of two parts of one function are not comparable
  auto want = cp::ToProfile(lm::Folded(t.w, raw), 0); std::string fmt = s.Pick(kFormats), out = c.Tmp("out"); unlink(out.c_str()); std::vector<std::string> a = t.flags; a.push_back("--format=" + fmt); a.push_back("--profiler=prefetch"); a.push_back("--binary=" + t.bin); a.push_back("--profile=" + file); OutFlag(s, out, &a);
  c.NonTrivial(marked > 2); c.LabelIf(idx.size() < marked, "several hints for one address");
  int rc = Run(a); if (bad) { PBT_CHECK(rc != 0, "a profile is made from bad hints"); PBT_CHECK(access(out.c_str(), F_OK), "a profile is written from bad hints"); return; }
  PBT_EQ(rc, 0, "exit code"); lv::View v; Compare(out, fmt, want, &v); unlink(out.c_str()); unlink(t.bin.c_str()); unlink(file.c_str());
}
std::string Norm(dca::PropellerOptions o) { for (auto& p : *o.mutable_input_profiles()) if (p.type() == dca::PROFILE_TYPE_UNSPECIFIED) p.set_type(dca::PERF_LBR); return o.ShortDebugString(); }
void Layout(Src& s, Case& c) {
  std::vector<std::string> a = {"--format=propeller"}; dca::PropellerOptions w; auto* l = w.mutable_code_layout_params(); auto B = [&](const char* flag, bool def) { if (s.Chance(2, 3)) return def; bool v = s.Bool(); a.push_back(std::string("--") + (v || s.Bool() ? flag : std::string("no") + flag)); if (!v && a.back().substr(2, 2) != "no") a.back() += "=false"; return v; };
  auto N = [&](const char* flag, uint32_t def) { if (s.Bool()) return def; uint32_t v = s.U64(~0u); a.push_back(std::string("--") + flag + "=" + std::to_string(v)); return v; }; auto T = [&](const char* flag, const std::string& def) { if (s.Bool()) return def; std::string v = s.Text("ab/._-$*", 0, 12, 5); a.push_back(std::string("--") + flag + "=" + v); return v; };
  std::string out = T("out", ""), gcov = ""; if (s.Chance(1, 3)) gcov = s.Chance(2, 3) ? out : s.Text("ab", 0, 3, 2); if (!gcov.empty()) a.push_back("--gcov=" + gcov); bool refuse = (!out.empty() && !gcov.empty() && out != gcov) || (out.empty() && gcov.empty()); w.set_cluster_out_name(out.empty() ? gcov : out);
  w.set_binary_name(T("binary", "a.out")); w.set_symbol_order_out_name(T("propeller_symorder", "")); w.set_profiled_binary_name(T("profiled_binary_name", "")); w.set_ignore_build_id(B("ignore_build_id", false)); l->set_chain_split(B("propeller_chain_split", true)); l->set_chain_split_threshold(N("propeller_chain_split_threshold", 0)); l->set_backward_jump_distance(N("propeller_backward_jump_distance", 680)); l->set_forward_jump_distance(N("propeller_forward_jump_distance", 1024)); l->set_call_chain_clustering(B("propeller_call_chain_clustering", false)); bool so = B("propeller_split_only", false), lo = B("propeller_layout_only", false); l->set_reorder_hot_blocks(!so); l->set_split_functions(!lo); l->set_inter_function_reordering(B("propeller_inter_function_ordering", false)); w.set_http(B("http", false)); w.set_output_module_name(B("propeller_output_module_name", false)); w.set_verbose_cluster_output(B("propeller_verbose_cluster_output", false)); std::string dump = T("propeller_cfg_dump_dir", ""); if (!dump.empty()) w.set_cfg_dump_dir_name(dump); int ver = 2; if (s.Bool()) { ver = 1 + s.Draw(1); a.push_back("--propeller_cluster_encoding_version=" + std::to_string(ver)); } w.set_cluster_out_version(static_cast<dca::ClusterEncodingVersion>(ver));
  dca::ProfileType type = dca::PERF_LBR; if (s.Bool()) { std::string p = s.OneOf<std::string>({"perf", "perf_spe", "text", ""}); a.push_back("--profiler=" + p); if (p == "perf_spe") type = dca::PERF_SPE; }
  std::vector<std::string> files = {"perf.data"}; std::string list; if (s.Chance(3, 4)) { files.clear(); int n = 0; bool at = s.Bool(); std::string joined; while (s.More(n, 0, 6, 2)) { ++n; std::string f = s.Chance(1, 6) ? "" : s.Text(at ? "ab/.;@ #" : "ab/.#@ ", 1, 10, 5); if (!at && joined.empty() && !f.empty() && f[0] == '@') f[0] = 'a'; if (n > 1) joined += at ? "\n" : ";"; joined += f; if (!f.empty() && (!at || f[0] != '#')) files.push_back(f); }
    if (at) { list = c.Tmp("list"); pbt::WriteFile(list, joined + (s.Bool() ? "\n" : "")); a.push_back("--profile=@" + list); c.Label("list file"); } else a.push_back("--profile=" + joined); }
  for (auto& f : files) { auto* p = w.add_input_profiles(); p->set_name(f); p->set_type(type); } s.Shuffle(a); refuse |= so && lo; g_answer = s.Chance(1, 4) ? absl::InternalError("no layout") : absl::OkStatus();
  c.Describe([&] { return Line(a) + (list.empty() ? "" : "\nlist: " + pbt::ReadFile(list)); }); c.NonTrivial(!refuse && files.size() > 1 && a.size() > 4); c.LabelIf(type == dca::PERF_SPE, "statistical profiling"); c.LabelIf(files.size() > 1, "several files"); c.LabelIf(refuse, "contradictory flags"); c.LabelIf(!g_answer.ok(), "failing layout");
  int rc = Run(a); if (refuse) { PBT_EQ(rc, 1, "exit code"); PBT_EQ(g_requests, 0, "layout requests"); return; } PBT_EQ(g_requests, 1, "layout requests"); PBT_EQ(rc, g_answer.ok() ? 0 : 1, "exit code"); PBT_EQ(Norm(g_request), Norm(w), "request");
}
void Refused(Src& s, Case& c) {
  cp::Setup t; cp::GenWorld(s, c, &t, true); t.text = c.Tmp("samples"); pbt::WriteFile(t.text, "0\n0\n0\n"); std::string out = c.Tmp("out"); unlink(out.c_str()); std::string fmt = s.Pick(kFormats), profile = t.text, binary = t.bin, profiler = "text", of = "--out=" + out; std::vector<std::string> a; std::string what;
  switch (s.Draw(10)) {
    case 0: what = "no output name"; of = s.Bool() ? "--out=" : ""; break; case 1: what = "two output names"; a.push_back("--gcov=" + out + "x"); break; case 2: what = "build id option"; a.push_back("--ignore_build_id"); break; case 3: what = "several profiles"; profile += s.Bool() ? ";" : ";" + t.text; if (s.Bool()) { profile = t.text + ";"; pbt::WriteFile(profile, "0\n0\n0\n"); } break; case 4: what = "list of profiles"; { std::string l = c.Tmp("list"); pbt::WriteFile(l, t.text + "\n"); profile = "@" + l; } break; case 5: what = "unknown format"; fmt = s.OneOf<std::string>({"", "Text", "txt", "compbinary", "gcov", "extbinary ", "prop"}); break;
    case 6: what = "symbol list"; fmt = s.Bool() ? "text" : "binary"; a.push_back("--prof_sym_list"); break; case 7: what = "missing samples"; profile = c.Tmp("absent"); break; case 8: what = "missing binary"; binary = c.Tmp("absent"); break; case 9: what = "unwritable output"; of = "--out=" + c.Tmp("absent") + "/x"; break; default: what = "unknown profiler"; profiler = s.OneOf<std::string>({"", "lbr", "Text", "afdo", "perf "}); }
  if (!of.empty()) a.push_back(of); a.push_back("--format=" + fmt); a.push_back("--profile=" + profile); a.push_back("--binary=" + binary); a.push_back("--profiler=" + profiler); s.Shuffle(a); c.Label(what); c.Describe([&] { return what + ": " + Line(a); }); c.NonTrivial(true);
  bool died = false; std::string r = pbt::InChild([&] { return std::to_string(Run(a)); }, &died); PBT_CHECK(died || r != "0", "accepted: " << what); PBT_CHECK(access(out.c_str(), F_OK), "refused but written: " << what); unlink(t.bin.c_str()); unlink(t.text.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P49"; su.rule = "profiles: a function is written, the program has inlined code, and some byte lies in more than one range (or more than two addresses were sampled); hints: more than two hints are attached; layout: several files and flags; refused: any";
  su.assumptions = {"line offsets fit 16 bits", "functions at different addresses have different names", "the layout pipeline is replaced by one that records what it is asked"};
  su.subs = {{"profiles", Profiles, 20000, 500000}, {"hints", Hints, 20000, 400000}, {"layout", Layout, 60000, 1000000}, {"refused", Refused, 1500, 20000}};
  return pbt::Main(argc, argv, su);
}
