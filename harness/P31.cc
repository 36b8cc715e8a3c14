// MODE: LLVM
// SOURCES: perfdata_reader.cc spe_tid_pid_provider.cc llvm_propeller_binary_content.cc addr2cu.cc llvm_propeller_perf_lbr_aggregator.cc llvm_propeller_perf_branch_frequencies_aggregator.cc llvm_propeller_file_perf_data_provider.cc mini_disassembler.cc pb:perf pb:options
// TECHNIQUE: property-based testing: generated branch stacks, trace records and sets of recordings against a counting reference
// LEVEL_NOTE: Random search; several recordings, some damaged or of other programs, are aggregated together and compared with the sum over the usable ones.
#include <unistd.h>
#include "bbprog.h"
#include "perfgen.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_perf_branch_frequencies_aggregator.h"
#include "llvm_propeller_perf_lbr_aggregator.h"
#include "llvm_propeller_statistics.h"
#include "perfdata_reader.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo;
namespace {
using U = uint64_t; using Pair = std::pair<U, U>; using Counts = std::map<Pair, int64_t>; constexpr U kNone = pgn::kNone;
struct Trace { pgn::Rec rec; struct Sample { uint32_t pid; bool has_pid; std::vector<Pair> stack; }; std::vector<Sample> samples; std::vector<quipper::ArmSpeDecoder::Record> spe; std::vector<std::pair<uint32_t, uint32_t>> forks; std::set<int> chunks; };
struct Want { Counts taken, falls, not_taken; };
Trace GenTrace(Src& s, const pgn::Bin& b, bool kernel, const std::string& exe, bool spe) {
  Trace t; t.rec = pgn::GenRec(s, b, kernel, exe, true); std::vector<U> pool; int n = 0; while (s.More(n, 1, 10, 6)) { ++n; pool.push_back(pgn::SomeAddress(s, b, t.rec)); }
  auto Any = [&](U near) { if (near != kNone && s.Chance(1, 2)) return near + s.Draw(40); return s.Chance(1, 10) ? s.U64() : s.Pick(pool); };
  n = 0; if (!spe) while (s.More(n, 0, 8, 4)) { ++n; Trace::Sample x; x.has_pid = !s.Chance(1, 12); x.pid = s.OneOf<uint32_t>({100, 100, 101, 102, 7}); int k = 0; U prev = kNone; std::vector<Pair> old_first; while (s.More(k, 0, 12, 5)) { ++k; Pair p = old_first.size() && s.Chance(1, 6) ? old_first.back() : Pair{Any(prev), Any(kNone)}; prev = p.second; old_first.push_back(p); } x.stack.assign(old_first.rbegin(), old_first.rend()); t.samples.push_back(x); if (s.Chance(1, 5)) t.samples.push_back(x); }
  n = 0; if (spe) while (s.More(n, 0, 16, 8)) { ++n; quipper::ArmSpeDecoder::Record r; r.event.retired = !s.Chance(1, 8); r.op.is_br_eret = !s.Chance(1, 8); r.op.br_eret.br_cond = s.Bool(); r.event.cond_not_taken = s.Bool(); r.op.br_eret.br_indirect = s.Chance(1, 6); int cx = s.Weighted({6, 2, 1}); r.context.el1 = cx == 0; r.context.el2 = cx == 1; r.context.id = s.OneOf<uint32_t>({100, 100, 101, 102, 200, 201, 7}); r.ip.addr = Any(kNone); r.tgt_br_ip.addr = Any(kNone); t.spe.push_back(r); if (s.Chance(1, 4)) t.chunks.insert(t.spe.size()); if (s.Chance(1, 4)) t.spe.push_back(r); }
  if (spe) for (uint32_t tid : {200, 201}) if (s.Chance(1, 2)) t.forks.push_back({tid, s.OneOf<uint32_t>({100, 101, 7})});
  return t;
}
std::string Bytes(const Trace& t) {
  quipper::PerfDataProto p; pgn::Put(t.rec, &p); for (auto& [tid, pid] : t.forks) { auto* e = p.add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_FORK); e->mutable_fork_event()->set_pid(pid); e->mutable_fork_event()->set_tid(tid); }
  for (auto& x : t.samples) { auto* e = p.add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE); auto* v = e->mutable_sample_event(); if (x.has_pid) v->set_pid(x.pid); for (auto& [f, to] : x.stack) { auto* q = v->add_branch_stack(); q->set_from_ip(f); q->set_to_ip(to); } }
  std::string d; auto Flush = [&] { if (d.empty()) return; auto* e = p.add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_AUXTRACE); e->mutable_auxtrace_event()->set_trace_data(d); d.clear(); }; for (size_t i = 0; i < t.spe.size(); ++i) { d += quipper::ArmSpeDecoder::Encode(t.spe[i]); if (t.chunks.count(i + 1)) Flush(); } Flush(); return quipper::EncodeStandInPerf(p);
}
void Count(const pgn::Bin& b, const pgn::Maps& maps, const Trace& t, Want* w) {
  bool kernel = maps.count(pgn::kKernel);
  for (auto& x : t.samples) { if (!kernel && (!x.has_pid || !maps.count(x.pid))) continue; uint32_t pid = kernel ? pgn::kKernel : x.pid; auto Tr = [&](U a) { return pgn::Translate(b, maps, pid, a); }; for (size_t i = 0; i < x.stack.size(); ++i) { Pair p{Tr(x.stack[i].first), Tr(x.stack[i].second)}; if (p != Pair{kNone, kNone}) ++w->taken[p]; if (i + 1 < x.stack.size()) { U from = Tr(x.stack[i + 1].second); if (from != kNone && p.first != kNone && from <= p.first) ++w->falls[{from, p.first}]; } } }
  for (auto& r : t.spe) { uint32_t pid = r.context.id; if (!r.context.el1 && !r.context.el2) { std::set<uint32_t> ps; for (auto& f : t.forks) ps.insert(f.second); if (ps.size() != 1) continue; pid = *ps.begin(); } else for (auto& f : t.forks) if (f.first == r.context.id) pid = f.second; if (kernel) pid = pgn::kKernel; if (!maps.count(pid) || !r.event.retired || !r.op.is_br_eret) continue; U f = pgn::Translate(b, maps, pid, r.ip.addr), to = pgn::Translate(b, maps, pid, r.tgt_br_ip.addr); if (r.op.br_eret.br_cond && r.event.cond_not_taken) { if (f != kNone) ++w->not_taken[{f, f}]; } else if (f != kNone || to != kNone) ++w->taken[{f, to}]; }
}
std::string Show(const pgn::Bin& b, const Trace& t) { std::ostringstream o; o << pgn::Show(b, t.rec) << std::hex; for (auto& [tid, pid] : t.forks) o << "thread " << std::dec << tid << " of " << pid << std::hex << "\n"; for (auto& x : t.samples) { o << "stack of "; if (x.has_pid) o << std::dec << x.pid << std::hex; for (auto& p : x.stack) o << " " << p.first << ">" << p.second; o << "\n"; } for (auto& r : t.spe) { o << "record thread " << std::dec << r.context.id << std::hex << (r.context.el1 ? " el1" : "") << (r.context.el2 ? " el2" : "") << (r.event.retired ? " retired" : "") << (r.op.is_br_eret ? " branch" : "") << (r.op.br_eret.br_cond ? " cond" : "") << (r.event.cond_not_taken ? " not-taken" : "") << " " << r.ip.addr << ">" << r.tgt_br_ip.addr << "\n"; } return o.str(); }
template <class M, class F> void Same(const M& got, const Counts& want, F key, const char* what) { Counts g; for (auto& [k, v] : got) { Pair p = key(k); if (p == Pair{kNone, kNone}) continue; PBT_CHECK(g.emplace(p, v).second, "twice"); } for (auto& [k, v] : want) PBT_CHECK(g.count(k) && g[k] == v, std::hex << what << " " << k.first << ">" << k.second << " counted " << std::dec << (g.count(k) ? g[k] : 0) << " times, want " << v); for (auto& [k, v] : g) PBT_CHECK(want.count(k), std::hex << what << " " << k.first << ">" << k.second << " counted " << std::dec << v << " times, want 0"); }
Pair K(const BinaryAddressBranch& k) { return {k.from, k.to}; } Pair KF(const BinaryAddressFallthrough& k) { return {k.from, k.to}; } Pair KN(const BinaryAddressNotTakenBranch& k) { return {k.address, k.address}; }
void Marks(Case& c, const Want& w) { bool half = false; for (auto& [p, n] : w.taken) half |= p.first == kNone || p.second == kNone; c.LabelIf(half, "one end outside"); c.LabelIf(w.falls.size(), "fall-throughs"); c.LabelIf(w.not_taken.size(), "not taken"); }
// One recording at a time, into a result that may hold others already.
void One(Src& s, Case& c) {
  bool kernel = s.Chance(1, 6), spe = s.Chance(1, 3); pgn::Bin b = pgn::GenBin(s, kernel); if (b.build_id.empty()) b.build_id = "a"; std::string exe = kernel ? "[kernel.kallsyms]_text" : "/bin/prog"; std::vector<Trace> ts; int n = 0; while (s.More(n, 1, 3, 1)) { ++n; ts.push_back(GenTrace(s, b, kernel, exe, spe)); }
  c.Describe([&] { std::string d; for (auto& t : ts) d += Show(b, t); return d; });
  BinaryContent content; content.is_pie = b.pie; content.build_id = pgn::HexOf(b.build_id); for (auto& g : b.segs) content.segments.push_back({.offset = g.off, .vaddr = g.vaddr, .memsz = g.memsz});
  LbrAggregation l; BranchFrequencies f; Want w; int used = 0;
  for (auto& t : ts) { auto maps = pgn::Select(t.rec, {kernel ? "[kernel.kallsyms]" : exe}); auto r = BuildPerfDataReader({.description = "x", .buffer = llvm::MemoryBuffer::getMemBufferCopy(Bytes(t))}, &content, kernel ? "[kernel.kallsyms]" : s.Bool() ? exe : ""); PBT_EQ(r.ok(), maps.has_value(), "usable"); if (!maps) continue; ++used; Count(b, *maps, t, &w); if (spe) { auto st = r->AggregateSpe(f); PBT_CHECK(st.ok(), st.ToString()); } else r->AggregateLBR(&l); }
  if (spe) { Same(f.taken_branch_counters, w.taken, K, "branch"); Same(f.not_taken_branch_counters, w.not_taken, KN, "not taken branch"); } else { Same(l.branch_counters, w.taken, K, "branch"); Same(l.fallthrough_counters, w.falls, KF, "fall-through"); }
  c.NonTrivial(w.taken.size() > 1 && (spe ? w.not_taken.size() > 0 : w.falls.size() > 0)); Marks(c, w); c.LabelIf(spe, "trace records"); c.LabelIf(kernel, "kernel"); c.LabelIf(used > 1, "several recordings");
}
// Sets of recordings of a program on disk, through the aggregators.
void Sets(Src& s, Case& c) {
  bb::Opts o; o.max_funcs = 3; o.max_blocks = 3; bb::Program p = bb::Generate(s, o); if (p.build_id.empty() && s.Chance(3, 4)) p.build_id = "abcdefgh"; std::string path = c.Tmp("bin"); pbt::WriteFile(path, bb::Write(&p)); pgn::Bin b; b.pie = p.pie; b.build_id = p.build_id; for (auto& g : p.segs) b.segs.push_back({g.offset, g.vaddr, g.memsz}); bool spe = s.Bool();
  PropellerOptions opt; opt.set_binary_name(s.Bool() ? "/bin/prog" : path); std::string name; if (s.Chance(1, 3)) { name = s.OneOf<std::string>({"/bin/prog", "prog"}); opt.set_profiled_binary_name(name); opt.set_ignore_build_id(s.Bool()); } else if (s.Chance(1, 3)) { opt.set_ignore_build_id(true); name = opt.binary_name(); }
  std::vector<Trace> ts; std::vector<std::string> files; int n = 0, used = 0, maps_n = 0; Want w; std::string d; bool odd = false;
  while (s.More(n, 0, 5, 3)) { ++n; Trace t = GenTrace(s, b, false, "/bin/prog", spe); std::string bytes = Bytes(t); int k = s.Weighted({6, 1, 1, 1}); files.push_back(c.Tmp("perf" + std::to_string(n))); if (k == 1) bytes = bytes.substr(0, s.Draw(9)); else if (k == 2) { for (auto& x : t.rec.maps) x.name = "/lib/other.so"; bytes = Bytes(t); } else if (k == 3) bytes = s.Bytes(30); pbt::WriteFile(files.back(), bytes); d += (k == 1 ? "cut short: " : k == 3 ? "noise: " : "") + Show(b, t); odd |= k > 0; if (k == 1 || k == 3) continue; std::set<std::string> names{name}; if (name.empty()) names = pgn::IdNames(t.rec, pgn::HexOf(b.build_id)); auto maps = names.empty() ? std::nullopt : pgn::Select(t.rec, names); if (!maps) { odd = true; continue; } ++used; for (auto& [pid, v] : *maps) (void)v; maps_n += maps->size(); Count(b, *maps, t, &w); }
  c.Describe([&] { return "mapping name '" + name + "'" + (opt.ignore_build_id() ? " no build id" : "") + "\n" + d; });
  auto content = GetBinaryContent(path); unlink(path.c_str()); PBT_CHECK(content.ok(), content.status().ToString()); PropellerStats st; int64_t had = s.Bool() ? 0 : s.Draw(1000), had_maps = s.Bool() ? 0 : s.Draw(50); st.profile_stats.br_counters_accumulated = had; st.profile_stats.binary_mmap_num = had_maps; auto prov = std::make_unique<GenericFilePerfDataProvider>(files); int64_t sum = 0;
  if (spe) { PerfBranchFrequenciesAggregator a(std::move(prov)); auto r = a.AggregateBranchFrequencies(opt, **content, st); PBT_EQ(r.ok(), used > 0, "recordings usable"); if (r.ok()) { Same(r->taken_branch_counters, w.taken, K, "branch"); Same(r->not_taken_branch_counters, w.not_taken, KN, "not taken branch"); sum = r->GetNumberOfTakenBranchCounters(); } else PBT_CHECK(absl::IsFailedPrecondition(r.status()), r.status().ToString()); }
  else { PerfLbrAggregator a(std::move(prov)); auto r = a.AggregateLbrData(opt, **content, st); PBT_CHECK(r.ok() == (used > 0), "recordings usable " << used << ": " << r.status().ToString()); if (r.ok()) { Same(r->branch_counters, w.taken, K, "branch"); Same(r->fallthrough_counters, w.falls, KF, "fall-through"); sum = r->GetNumberOfBranchCounters(); } else PBT_CHECK(absl::IsFailedPrecondition(r.status()), r.status().ToString()); }
  for (auto& f : files) unlink(f.c_str());
  PBT_EQ(st.profile_stats.perf_file_parsed, used, "recordings parsed"); PBT_EQ(st.profile_stats.binary_mmap_num, had_maps + maps_n, "mapped processes"); if (used) PBT_EQ(st.profile_stats.br_counters_accumulated, had + sum, "branches accumulated");
  c.NonTrivial(used > 0 && n > 1 && w.taken.size()); Marks(c, w); c.LabelIf(odd && used, "some recordings unusable"); c.LabelIf(!used, "none usable"); c.LabelIf(used > 1, "several usable"); c.LabelIf(spe, "trace records");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P31"; su.rule = "at least two different branches and a fall-through (or not-taken branch); for sets, several recordings with a usable one";
  su.assumptions = {"branches with both ends outside the binary are not compared", "perf's container format and the trace packet format are replaced by stand-ins", "every recording file exists"};
  su.subs = {{"recordings", One, 300000, 3000000}, {"sets", Sets, 50000, 600000}};
  return pbt::Main(argc, argv, su);
}
