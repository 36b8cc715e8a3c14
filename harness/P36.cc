// MODE: LLVM
// SOURCES: llvm_propeller_program_cfg_proto_builder.cc llvm_propeller_program_cfg.cc llvm_propeller_cfg.cc pb:cfg
// TECHNIQUE: property-based round-trip testing: generated program graphs are saved, loaded and compared with the model they were made from
// LEVEL_NOTE: Random search over programs, names of any bytes and targets (new, existing, full or unwritable files).
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "cfggen.h"
#include "llvm_propeller_program_cfg_proto_builder.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo; using namespace cg;
namespace {
std::string Name(Src& s) { switch (s.Weighted({4, 2, 1, 1})) { case 0: return s.Text("abz_.09", 1, 12, 4); case 1: return "_ZN1a1bEv.llvm." + std::to_string(s.Draw(99)); case 2: return s.Bytes(6); default: return s.OneOf<std::string>({"\"", "\\", "\n", "'", "a b", "{", "#", "\xff", std::string("\0x", 2)}); } }
std::string Line(const Fn& f, const Prog& p, int fi) { std::ostringstream o; o << f.index << " section " << pbt::Hex(f.section); for (auto& n : f.names) o << " " << pbt::Hex(n); for (size_t i = 0; i < f.nodes.size(); ++i) { auto& n = f.nodes[i]; o << "\n  " << n.id << " +" << n.size << " " << (n.md & (kRet | kTail | kPad | kFall)); std::set<std::string> es; for (auto& e : p.edges) if (e.sf == fi && e.tf == fi && e.sn == (int)i) es.insert(std::to_string(e.tn) + "/" + std::to_string(f.index) + " k" + std::to_string(e.kind) + " x" + std::to_string(e.w)); for (auto& e : es) o << " > " << e; } return o.str(); }
std::string Line(const ControlFlowGraphPb& g) { std::ostringstream o; o << g.function_index() << " section " << pbt::Hex(g.section_name()); for (auto& n : g.name()) o << " " << pbt::Hex(n); for (auto& n : g.node()) { auto& m = n.metadata(); o << "\n  " << n.bb_id() << " +" << n.size() << " " << ((m.has_return() ? kRet : 0) | (m.has_tail_call() ? kTail : 0) | (m.is_landing_pad() ? kPad : 0) | (m.can_fallthrough() ? kFall : 0)); std::set<std::string> es; for (auto& e : n.out_edges()) es.insert(std::to_string(e.sink().bb_index()) + "/" + std::to_string(e.sink().function_index()) + " k" + std::to_string(e.kind() == CFGEdgePb::CALL ? kCall : e.kind() == CFGEdgePb::RETURN ? kReturn : kBranch) + " x" + std::to_string(e.weight())); if ((int)es.size() != n.out_edges_size()) o << " DUPLICATE EDGES"; for (auto& e : es) o << " > " << e; } return o.str(); }
void Files(Src& s, Case& c) {
  absl::shim::g_hash_seed = s.Draw(1000); Opts o; o.modules = true; o.zero_weights = true; o.max_edges = 14; Prog p = Generate(s, o); bool odd = s.Chance(1, 2); if (odd) for (auto& f : p.fns) { for (auto& n : f.names) n = Name(s); if (s.Bool()) f.section = Name(s); } for (auto& e : p.edges) { e.xsec = false; if (s.Chance(1, 20)) e.w = 0x7fffffff; } for (auto& f : p.fns) for (auto& n : f.nodes) { if (s.Chance(1, 20)) n.size = 0x7fffffff; if (s.Chance(1, 20)) n.id = s.Draw(0x7fffffff); }
  int target = s.Weighted({6, 3, 1, 1}); c.Describe([&] { return Show(p) + (target == 1 ? "over an existing file\n" : target == 2 ? "to /dev/full\n" : target == 3 ? "to a missing directory\n" : ""); });
  auto cfg = Build(p); auto map = std::move(*cfg).release_cfgs_by_index(); std::string path = c.Tmp("cfg.pb"); if (target == 1) pbt::WriteFile(path, std::string(20000, 'x')); else unlink(path.c_str());
  ProgramCfgProtoBuilder w; if (target == 3) { PBT_CHECK(!w.InitWriter("/nonexistent/dir/cfg.pb"), "missing directory accepted"); ProgramCfgProtoBuilder r; PBT_CHECK(!r.Read("/nonexistent/dir/cfg.pb"), "missing file accepted"); return; }
  PBT_CHECK(w.InitWriter(target == 2 ? "/dev/full" : path), "cannot open the file"); if (p.fns.size() > 1 && s.Bool()) { absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> a, b; for (auto& [k, v] : map) (k % 2 ? a : b).emplace(k, std::move(v)); w.AddCfgs(a); w.AddCfgs(b); } else w.AddCfgs(map);
  bool ok = w.WriteAndClose(); c.LabelIf(odd, "names of any bytes"); c.LabelIf(target == 1, "over an existing file"); if (target == 2) { PBT_CHECK(!ok, "a full device is reported as success"); c.Label("full device"); return; } PBT_CHECK(ok, "cannot write the file");
  ProgramCfgProtoBuilder r; PBT_CHECK(r.Read(path), "cannot read the file back"); std::map<int, std::string> got, want, had; for (auto& g : r.program_cfg_pb().cfg()) PBT_CHECK(got.emplace(g.function_index(), Line(g)).second, "function twice"); for (auto& g : w.program_cfg_pb().cfg()) had.emplace(g.function_index(), Line(g)); for (size_t i = 0; i < p.fns.size(); ++i) want[p.fns[i].index] = Line(p.fns[i], p, i); PBT_EQ(pbt::ToText(had, 0), pbt::ToText(want, 0), "functions in memory"); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(want, 0), "functions");
  // Loading replaces what was loaded before.
  PBT_CHECK(r.Read(path), "cannot read the file again"); PBT_EQ(r.program_cfg_pb().cfg_size(), (int)p.fns.size(), "functions after loading twice"); int intra = 0; for (auto& e : p.edges) intra += e.sf == e.tf; c.NonTrivial(p.fns.size() > 1 && intra > 1);
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P36"; su.scale = 2; su.rule = "at least two functions and two internal edges, written and loaded";
  su.assumptions = {"graphs without cloned blocks", "the stored form records id, size, can-fall-through, has-return, has-tail-call and landing-pad of a block"};
  su.subs = {{"files", Files, 120000, 1500000}};
  return pbt::Main(argc, argv, su);
}
