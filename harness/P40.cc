// MODE: LLVM
// SOURCES: llvm_propeller_profile_writer.cc llvm_propeller_program_cfg.cc llvm_propeller_cfg.cc llvm_propeller_code_layout.cc llvm_propeller_code_layout_scorer.cc llvm_propeller_chain_cluster_builder.cc llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain_builder.cc llvm_propeller_formatting.cc llvm_propeller_statistics.cc pb:options pb:cfg
// TECHNIQUE: property-based testing: generated graphs with arbitrary and computed layouts, written and parsed back by an independent parser of the published file formats
// LEVEL_NOTE: Random search over layouts, names, modules, clone paths and options; write failures by missing directories, full devices and size limits.
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "layoutgen.h"
#include "llvm_propeller_profile.h"
#include "llvm_propeller_profile_writer.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo; using namespace cg;
namespace {
using Lines = std::vector<std::string>; using Sections = std::map<std::string, Infos>;
template <class W, class P> bool WriteOk(const W& w, const P& p) { if constexpr (std::is_void_v<decltype(w.Write(p))>) { w.Write(p); return true; } else return w.Write(p).ok(); }
Lines Split(const std::string& t, char by) { Lines r; size_t at = 0; while (at <= t.size()) { size_t e = t.find(by, at); if (e == t.npos) { r.push_back(t.substr(at)); break; } r.push_back(t.substr(at, e - at)); at = e + 1; } return r; }
Lines FileLines(const std::string& t) { if (t.empty()) return {}; PBT_CHECK(t.back() == '\n', "the last line is not ended"); return Split(t.substr(0, t.size() - 1), '\n'); }
std::string Join(const Lines& l) { std::string r; for (auto& x : l) r += x + "\n"; return r; }
std::string F(const char* f, double x) { char b[400]; snprintf(b, sizeof b, f, x); return b; }
struct Rec { std::string section; bool has_module = false; std::string module; Lines names; std::vector<std::vector<int>> paths; std::vector<std::vector<std::pair<int, int>>> clusters; Lines scores, entry; std::multiset<std::string> prof; int seen_clusters_at_prof = -1; };
int Num(const std::string& t) { PBT_CHECK(t.size() && t.find_first_not_of("0123456789") == t.npos, "'" << t << "' is no number"); return std::stoi(t); }
std::vector<std::pair<int, int>> Ids(const std::string& t) { std::vector<std::pair<int, int>> r; for (auto& x : Split(t, ' ')) { auto p = Split(x, '.'); PBT_CHECK(p.size() <= 2, "'" << x << "' is no block"); r.push_back({Num(p[0]), p.size() > 1 ? Num(p[1]) : 0}); } return r; }
bool Starts(const std::string& t, const char* p, std::string* rest) { size_t n = strlen(p); if (t.compare(0, n, p)) return false; *rest = t.substr(n); return true; }
std::vector<Rec> Parse(const std::string& text, int version, bool verbose) {
  auto ls = FileLines(text); std::vector<Rec> r; size_t i = 0; std::string x, section; bool pending = false; std::string module;
  if (version == 1) { PBT_CHECK(ls.size() && ls[0] == "v1", "no version line"); i = 1; }
  for (; i < ls.size(); ++i) {
    auto& l = ls[i];
    if (l.size() && l[0] == '#') { PBT_CHECK(verbose, "comment '" << l << "' though not verbose"); if (Starts(l, "#section ", &x)) { PBT_CHECK(!pending, "module of no function"); section = x; continue; } PBT_CHECK(r.size() && r.back().section == section, "'" << l << "' outside a function"); auto& f = r.back(); if (Starts(l, "#ext-tsp score: ", &x)) f.scores.push_back(x); else if (Starts(l, "#entry-freq ", &x)) f.entry.push_back(x); else if (Starts(l, "#cfg-prof ", &x)) { auto p = Split(x, ' '); std::sort(p.begin() + 1, p.end()); std::string j; for (auto& y : p) j += y + " "; f.prof.insert(j); } else PBT_CHECK(false, "unknown comment '" << l << "'"); continue; }
    if (version == 1 ? Starts(l, "c", &x) : Starts(l, "!!", &x)) { PBT_CHECK(r.size() && !pending, "part outside a function"); r.back().clusters.push_back(Ids(x)); continue; }
    if (version == 1 && Starts(l, "m ", &x)) { PBT_CHECK(!pending, "two modules for a function"); pending = true; module = x; continue; }
    if (version == 1 && Starts(l, "p", &x)) { PBT_CHECK(r.size() && !pending && r.back().clusters.empty(), "path outside a function or after parts"); r.back().paths.emplace_back(); for (auto& [id, clone] : Ids(x)) { PBT_EQ(clone, 0, "clone in a path"); r.back().paths.back().push_back(id); } continue; }
    if (version == 1 ? Starts(l, "f ", &x) : Starts(l, "!", &x)) { Rec f; f.section = section; if (version == 0) { size_t m = x.find(" M="); if (m != x.npos) { f.has_module = true; f.module = x.substr(m + 3); x = x.substr(0, m); } } else if (pending) { f.has_module = true; f.module = module; pending = false; } f.names = Split(x, version == 1 ? ' ' : '/'); r.push_back(f); continue; }
    PBT_CHECK(false, "line '" << l << "' of no known kind");
  }
  PBT_CHECK(!pending, "module of no function"); return r;
}
// A layout of some functions, their blocks placed at will, entries first in their parts.
Sections Arbitrary(Src& s, const Prog& p) {
  Sections out; std::map<std::string, std::vector<int>> by; for (size_t i = 0; i < p.fns.size(); ++i) if (s.Chance(5, 6)) by[p.fns[i].section].push_back(i); bool shuffled = s.Chance(1, 3);
  for (auto& [sec, fs] : by) {
    auto& v = out[sec]; if (shuffled) s.Shuffle(fs); int total = 0; for (int f : fs) { auto& fn = p.fns[f]; FunctionClusterInfo i; i.function_index = fn.index; std::vector<int> at; for (size_t k = 0; k < fn.nodes.size(); ++k) at.push_back(k); if (s.Chance(2, 3)) s.Shuffle(at); size_t keep = s.Bool() ? at.size() : s.Draw(at.size()); at.resize(keep);
      for (size_t k = 0; k < at.size(); ++k) { if (i.clusters.empty() || at[k] == 0 || s.Chance(1, 3)) i.clusters.push_back(FunctionClusterInfo::BBCluster(total++)); auto& n = fn.nodes[at[k]]; i.clusters.back().full_bb_ids.push_back({.bb_id = n.id, .intra_cfg_id = {.bb_index = n.bb, .clone_number = n.clone}}); }
      i.original_score = {.intra_score = s.Draw(100000) / 7.0, .inter_out_score = s.Draw(1000) * 0.5}; i.optimized_score = {.intra_score = s.Draw(100000) * 1e6 / 3, .inter_out_score = s.Draw(1000) * 1e-3}; v.push_back(i); }
    std::vector<unsigned> perm; for (int i = 0; i < total; ++i) perm.push_back(i); s.Shuffle(perm); std::vector<unsigned> cold; for (size_t i = 0; i < v.size(); ++i) cold.push_back(i); s.Shuffle(cold); for (size_t i = 0; i < v.size(); ++i) { v[i].cold_cluster_layout_index = cold[i]; for (auto& cl : v[i].clusters) cl.layout_index = perm[cl.layout_index]; }
  }
  return out;
}
std::string ShowSections(const Sections& l) { std::string r; for (auto& [n, v] : l) r += "section " + n + "\n" + ShowLayout(v); return r; }
struct Input { Prog p; std::unique_ptr<ProgramCfg> cfg; Sections layout; bool computed; int version; bool verbose; };
Input GenInput(Src& s, Case& c) {
  Input in; in.version = s.Bool(); in.computed = s.Chance(1, 3); in.verbose = s.Bool(); Opts o; o.modules = true; o.max_fn = 5; o.clones = in.version == 1 && s.Bool(); o.zero_weights = !in.computed; in.p = in.computed ? GenerateLayoutInput(s, o) : Generate(s, o);
  for (auto& f : in.p.fns) for (auto& n : f.names) if (s.Chance(1, 5)) n += s.OneOf<std::string>({".llvm.12", "$x", ".part.0", "@v1", ".__uniq.7", ".cold", "Ev"}); in.cfg = Build(in.p);
  if (in.computed) { auto q = GenParams(s); PropellerStats st; for (auto& [k, v] : GenerateLayoutBySection(*in.cfg, q, st.code_layout_stats)) in.layout[k.str()] = v; } else in.layout = Arbitrary(s, in.p);
  c.Describe([&] { return Show(in.p) + ShowSections(in.layout) + "version " + std::to_string(in.version) + (in.verbose ? " verbose" : "") + "\n"; }); return in;
}
PropellerProfile Profile(Input& in) { PropellerProfile r; r.program_cfg = std::move(in.cfg); for (auto& [k, v] : in.layout) r.functions_cluster_info_by_section_name[llvm::StringRef(k)] = v; return r; }
void CheckOrder(const Prog& p, const Sections& layout, const std::string& text) {
  Lines want; for (auto& [sec, v] : layout) {
    std::map<unsigned, std::pair<int, int>> at; std::map<unsigned, int> cold; for (size_t i = 0; i < v.size(); ++i) { for (size_t k = 0; k < v[i].clusters.size(); ++k) at[v[i].clusters[k].layout_index] = {i, k}; cold[v[i].cold_cluster_layout_index] = i; }
    for (auto& [_, ik] : at) { auto& i = v[ik.first]; auto& f = p.fns[FindFn(p, i.function_index)]; bool entry = i.clusters[ik.second].full_bb_ids[0].intra_cfg_id.bb_index == 0; for (auto& n : f.names) want.push_back(entry ? n : n + ".__part." + std::to_string(ik.second)); }
    for (auto& [_, k] : cold) { auto& i = v[k]; auto& f = p.fns[FindFn(p, i.function_index)]; size_t placed = 0; bool entry = false; for (auto& cl : i.clusters) for (auto& b : cl.full_bb_ids) { ++placed; entry |= b.intra_cfg_id.bb_index == 0; } if (placed == f.nodes.size()) continue; for (auto& n : f.names) want.push_back(entry ? n + ".cold" : n); }
  }
  PBT_EQ(Join(FileLines(text)), Join(want), "symbol order");
}
void CheckClusters(const Input& in, const std::string& text) {
  auto& p = in.p; auto got = Parse(text, in.version, in.verbose); size_t k = 0; std::map<std::string, Rec*> by; for (auto& r : got) { PBT_CHECK(by.insert({r.names[0], &r}).second, "function " << r.names[0] << " twice"); }
  for (auto& [sec, v] : in.layout) for (auto& i : v) {
    ++k; int fi = FindFn(p, i.function_index); auto& f = p.fns[fi]; auto it = by.find(f.names[0]); PBT_CHECK(it != by.end(), "function " << f.names[0] << " is missing"); auto& r = *it->second; PBT_EQ(Join(r.names), Join(f.names), "names"); PBT_EQ(r.has_module, f.module.has_value(), "module of " << f.names[0]); PBT_EQ(r.module, f.module.value_or(""), "module of " << f.names[0]);
    std::vector<std::vector<int>> paths; for (auto& q : f.paths) { paths.emplace_back(); for (int n : q) paths.back().push_back(f.nodes[n].id); } PBT_EQ(pbt::ToText(r.paths, 0), pbt::ToText(paths, 0), "cloned paths of " << f.names[0]);
    std::vector<std::vector<std::pair<int, int>>> cl; for (auto& x : i.clusters) { cl.emplace_back(); for (auto& b : x.full_bb_ids) cl.back().push_back({b.bb_id, b.intra_cfg_id.clone_number}); } PBT_EQ(pbt::ToText(r.clusters, 0), pbt::ToText(cl, 0), "parts of " << f.names[0]);
    if (!in.verbose) continue; PBT_EQ(r.section, sec, "section of " << f.names[0]); PBT_EQ(Join(r.scores), "[intra: " + F("%f", i.original_score.intra_score) + F(" -> %f", i.optimized_score.intra_score) + F("] [inter: %f", i.original_score.inter_out_score) + F(" -> %f]\n", i.optimized_score.inter_out_score), "scores of " << f.names[0]); PBT_EQ(Join(r.entry), std::to_string(Freq(p, fi, 0)) + "\n", "entry frequency of " << f.names[0]);
    std::multiset<std::string> prof; for (size_t n = 0; n < f.nodes.size(); ++n) { Lines to; for (auto& e : p.edges) if (e.sf == fi && e.sn == (int)n && e.tf == fi && e.kind == kBranch) to.push_back(std::to_string(f.nodes[e.tn].id) + ":" + std::to_string(e.w)); std::sort(to.begin(), to.end()); std::string l = std::to_string(f.nodes[n].id) + ":" + std::to_string(Freq(p, fi, n)) + " "; for (auto& t : to) l += t + " "; prof.insert(l); } PBT_EQ(pbt::ToText(r.prof, 0), pbt::ToText(prof, 0), "edge profile of " << f.names[0]);
  }
  PBT_EQ(got.size(), k, "functions in the file");
}
void CheckDump(const Input& in, const std::string& dir) {
  auto& p = in.p; std::multiset<std::string> index; std::set<std::string> files{"cfg-index.txt"};
  for (auto& [sec, v] : in.layout) for (auto& i : v) {
    int fi = FindFn(p, i.function_index); auto& f = p.fns[fi]; std::ostringstream a; a << "0x" << std::hex << f.nodes[0].addr; std::ostringstream l; l << f.names[0] << " " << a.str() << " " << f.nodes.size() << " " << i.clusters.size() << " " << i.original_score.intra_score << " " << i.optimized_score.intra_score; index.insert(l.str()); std::string file = a.str() + ".dot"; files.insert(file);
    std::map<unsigned, std::vector<std::pair<int, int>>> pos; for (auto& cl : i.clusters) for (auto& b : cl.full_bb_ids) pos[cl.layout_index].push_back({b.intra_cfg_id.bb_index, b.intra_cfg_id.clone_number}); std::set<std::pair<std::pair<int, int>, std::pair<int, int>>> next; const std::pair<int, int>* last = nullptr; unsigned at = 0; for (auto& [x, bs] : pos) { if (last && x != at + 1) last = nullptr; at = x; for (auto& b : bs) { if (last) next.insert({*last, b}); last = &b; } }
    auto Label = [&](int n) { auto& q = f.nodes[n]; return std::to_string(q.id) + (q.clone ? "." + std::to_string(q.clone) : ""); }; std::multiset<std::string> want; want.insert({"digraph {", "label=\"" + f.names[0] + "#" + std::to_string(f.index) + "\"", "forcelabels=true;", "}"});
    for (size_t n = 0; n < f.nodes.size(); ++n) { auto& q = f.nodes[n]; want.insert(Label(n) + " [xlabel=\"*#" + std::to_string(q.size) + "#" + std::to_string(q.bb) + "\", color = \"" + (q.clone ? "red" : "black") + "\" ];"); }
    for (auto& e : p.edges) if (e.sf == fi && e.tf == fi) { auto& x = f.nodes[e.sn]; auto& y = f.nodes[e.tn]; want.insert(Label(e.sn) + " -> " + Label(e.tn) + "[ label=\"" + (e.kind == kCall ? "C" : e.kind == kReturn ? "R" : "B") + "#" + std::to_string(e.w) + "\", color =\"" + (next.count({{x.bb, x.clone}, {y.bb, y.clone}}) ? "red" : "black") + "\"];"); }
    std::multiset<std::string> got; for (auto l2 : FileLines(pbt::ReadFile(dir + "/" + file))) { size_t x = l2.find("xlabel=\""); if (x != l2.npos) { size_t e = l2.find('#', x); if (e != l2.npos) l2.replace(x + 8, e - x - 8, "*"); } got.insert(l2); } PBT_EQ(pbt::ToText(got, 0), pbt::ToText(want, 0), "drawing of " << f.names[0]);
  }
  auto ls = FileLines(pbt::ReadFile(dir + "/cfg-index.txt")); PBT_CHECK(ls.size() && ls[0] == "Function.Name Function.Address N_Nodes N_Clusters Original.ExtTSP.Score Optimized.ExtTSP.Score", "heading of the index"); PBT_EQ(pbt::ToText(std::multiset<std::string>(ls.begin() + 1, ls.end()), 0), pbt::ToText(index, 0), "index of graphs");
  std::set<std::string> have; DIR* h = opendir(dir.c_str()); if (!h) throw std::runtime_error(dir); while (auto* e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") { have.insert(n); unlink((dir + "/" + n).c_str()); } } closedir(h); rmdir(dir.c_str()); PBT_EQ(pbt::ToText(have, 0), pbt::ToText(files, 0), "files of the dump");
}
void FilesCase(Src& s, Case& c) {
  absl::shim::g_hash_seed = s.Draw(1000); Input in = GenInput(s, c); std::string cc = c.Tmp("cc"), ld = c.Tmp("ld"), dir = c.Tmp("dir"); bool stale = s.Chance(1, 4), dump = s.Chance(1, 4), module = s.Bool(); std::set<uint64_t> starts; for (auto& f : in.p.fns) dump &= starts.insert(f.nodes[0].addr).second; for (auto& f : {cc, ld}) { unlink(f.c_str()); if (stale) pbt::WriteFile(f, std::string(5000, 'x')); }
  PropellerOptions opt; opt.set_cluster_out_version(in.version ? ClusterEncodingVersion::VERSION_1 : ClusterEncodingVersion::VERSION_0); opt.set_cluster_out_name(cc); opt.set_symbol_order_out_name(ld); if (in.verbose || s.Bool()) opt.set_verbose_cluster_output(in.verbose); if (dump) opt.set_cfg_dump_dir_name(dir); opt.set_output_module_name(module);
  auto prof = Profile(in); PBT_CHECK(WriteOk(PropellerProfileWriter(opt), prof), "writing is reported as failed"); std::string ct = pbt::ReadFile(cc), lt = pbt::ReadFile(ld); unlink(cc.c_str()); unlink(ld.c_str()); CheckClusters(in, ct); CheckOrder(in.p, in.layout, lt); if (dump) CheckDump(in, dir); else PBT_CHECK(access(dir.c_str(), F_OK) != 0, "a dump nobody asked for");
  int parts = 0, cold = 0; bool clone = false, mod = false; for (auto& [_, v] : in.layout) for (auto& i : v) { size_t n = 0; parts += i.clusters.size(); for (auto& cl : i.clusters) for (auto& b : cl.full_bb_ids) { ++n; clone |= b.intra_cfg_id.clone_number != 0; } auto& f = in.p.fns[FindFn(in.p, i.function_index)]; cold += n < f.nodes.size(); mod |= f.module.has_value(); }
  c.NonTrivial(parts > 2 && cold); c.LabelIf(in.computed, "computed layout"); c.LabelIf(clone, "clones placed"); c.LabelIf(in.layout.size() > 1, "several sections"); c.LabelIf(in.verbose, "verbose"); c.LabelIf(dump, "graphs dumped"); c.LabelIf(mod, "modules"); c.Label(in.version ? "version 1" : "version 0");
}
void Faults(Src& s, Case& c) {
  Input in = GenInput(s, c); std::string f[2] = {c.Tmp("cc"), c.Tmp("ld")}; for (auto& x : f) unlink(x.c_str()); PropellerOptions opt; opt.set_cluster_out_version(in.version ? ClusterEncodingVersion::VERSION_1 : ClusterEncodingVersion::VERSION_0); opt.set_verbose_cluster_output(in.verbose); opt.set_cluster_out_name(f[0]); opt.set_symbol_order_out_name(f[1]); auto prof = Profile(in);
  PBT_CHECK(WriteOk(PropellerProfileWriter(opt), prof), "writing is reported as failed"); std::string ref[2] = {pbt::ReadFile(f[0]), pbt::ReadFile(f[1])}; for (auto& x : f) unlink(x.c_str()); int which = s.Draw(1), fault = s.Weighted({4, 2, 1, 1}); uint64_t cut = 0; std::string path = f[which]; if (fault == 0) { if (ref[which].size() < ref[!which].size()) which = !which; cut = s.Draw(ref[which].size() + 2); } if (fault == 1) path = "/dev/full"; if (fault == 2) path = c.Tmp("missing") + "/x"; if (fault == 3) { path = c.Tmp("somedir"); mkdir(path.c_str(), 0755); }
  if (fault) { if (which) opt.set_symbol_order_out_name(path); else opt.set_cluster_out_name(path); } bool died = false;
  std::string out = pbt::InChild([&] { if (fault == 0) { signal(SIGXFSZ, SIG_IGN); rlimit rl{cut, cut}; if (setrlimit(RLIMIT_FSIZE, &rl)) _exit(99); } return std::string(WriteOk(PropellerProfileWriter(opt), prof) ? "success" : "failure"); }, &died); bool bites = fault == 0 ? cut < ref[0].size() || cut < ref[1].size() : fault == 1 ? !ref[which].empty() : true;
  if (fault == 0 && !died && out == "success") for (int i = 0; i < 2; ++i) PBT_CHECK(access(f[i].c_str(), F_OK) == 0 && pbt::ReadFile(f[i]) == ref[i], "success is reported for an incomplete " << (i ? "symbol order" : "block order") << " file (limit " << cut << " of " << ref[i].size() << ")");
  if (fault && bites) PBT_CHECK(died || out != "success", "success is reported though the " << (which ? "symbol order" : "block order") << " file cannot be written (" << path << ")"); if (!bites) PBT_CHECK(!died && out == "success", "failure is reported though both files fit");
  for (auto& x : f) unlink(x.c_str()); if (fault == 3) rmdir(path.c_str()); c.NonTrivial(bites); static const char* fn[] = {"size limit", "full device", "missing directory", "path is a directory"}; c.Label(fn[fault]);
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P40"; su.rule = "at least three parts and a split function (files), the fault bites (faults)";
  su.assumptions = {"entry blocks, when placed, begin a part (P37) and are not cloned", "the block frequencies drawn in graph dumps are not compared: upstream's own test pins them to zero", "functions of graph dumps start at different addresses", "cloned paths need encoding version 1 (version 0 has no way to write them)"};
  su.subs = {{"files", FilesCase, 200000, 3000000}, {"faults", Faults, 10000, 100000}};
  return pbt::Main(argc, argv, su);
}
