// MODE: LLVM
// SOURCES: llvm_propeller_options_builder.cc llvm_propeller_profile_generator.cc llvm_propeller_profile_computer.cc llvm_propeller_profile_writer.cc llvm_propeller_perf_lbr_aggregator.cc llvm_propeller_perf_branch_frequencies_aggregator.cc llvm_propeller_file_perf_data_provider.cc llvm_propeller_program_cfg_builder.cc llvm_propeller_program_cfg.cc llvm_propeller_telemetry_reporter.cc llvm_propeller_code_layout.cc llvm_propeller_code_layout_scorer.cc llvm_propeller_chain_cluster_builder.cc llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain_builder.cc llvm_propeller_formatting.cc perfdata_reader.cc spe_tid_pid_provider.cc mini_disassembler.cc branch_aggregation.cc lbr_branch_aggregator.cc frequencies_branch_aggregator.cc llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_content.cc addr2cu.cc llvm_propeller_cfg.cc llvm_propeller_statistics.cc status_provider.cc status_consumer_registry.cc pb:options pb:cfg pb:perf
// TECHNIQUE: property-based testing: generated binaries and recordings through the whole pipeline, the written files judged by a reference built from the inputs
// LEVEL_NOTE: Random search over programs, recordings (branch stacks and trace records), options and unwritable outputs; recordings use stand-in containers.
#include <unistd.h>
#include "bbprog.h"
#include "branch_aggregator.h"
#include "branch_frequencies.h"
#include "branchgen.h"
#include "dwenc.h"
#include "frequencies_branch_aggregator.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_profile_computer.h"
#include "llvm_propeller_profile_generator.h"
#include "llvm_propeller_profile_writer.h"
#include "llvm_propeller_telemetry_reporter.h"
#include "perfgen.h"
#include "status_consumer_registry.h"
#include "status_provider.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo;
namespace {
using U = uint64_t; using bb::H; using br::Edges; using Lines = std::vector<std::string>; constexpr U kNone = ~0ull;
Lines Split(const std::string& t, char by) { Lines r; size_t at = 0; for (;;) { size_t e = t.find(by, at); r.push_back(t.substr(at, e == t.npos ? e : e - at)); if (e == t.npos) return r; at = e + 1; } }
bool Starts(const std::string& t, const std::string& p, std::string* rest) { if (t.compare(0, p.size(), p)) return false; *rest = t.substr(p.size()); return true; }
int Num(const std::string& t) { PBT_CHECK(t.size() && t.size() < 10 && t.find_first_not_of("0123456789") == t.npos, "'" << t << "' is no number"); return std::stoi(t); }
struct Rec { std::string section, module; bool has_module = false; Lines names; std::vector<std::vector<int>> parts; std::vector<std::string> prof; std::string entry; };
std::vector<Rec> Parse(const std::string& text, bool v1) {
  std::vector<Rec> r; Lines ls = Split(text, '\n'); PBT_CHECK(ls.back().empty(), "last line not ended"); ls.pop_back(); std::string x, sec, mod; bool has_mod = false; size_t i = 0; if (v1) { PBT_CHECK(ls.size() && ls[0] == "v1", "no version line"); i = 1; }
  for (; i < ls.size(); ++i) { auto& l = ls[i];
    if (Starts(l, "#section ", &x)) { sec = x; continue; } if (v1 && Starts(l, "m ", &x)) { mod = x; has_mod = true; continue; }
    if (Starts(l, "#", &x)) { PBT_CHECK(r.size(), "'" << l << "' outside a function"); if (Starts(l, "#cfg-prof ", &x)) r.back().prof.push_back(x); else if (Starts(l, "#entry-freq ", &x)) r.back().entry = x; continue; }
    if (Starts(l, v1 ? "c" : "!!", &x)) { PBT_CHECK(r.size(), "part outside a function"); r.back().parts.emplace_back(); for (auto& n : Split(x, ' ')) r.back().parts.back().push_back(Num(n)); continue; }
    if (Starts(l, v1 ? "f " : "!", &x)) { Rec f; f.section = sec; if (!v1) { size_t m = x.find(" M="); if (m != x.npos) { has_mod = true; mod = x.substr(m + 3); x = x.substr(0, m); } } f.has_module = has_mod; f.module = mod; has_mod = false; mod.clear(); f.names = Split(x, v1 ? ' ' : '/'); r.push_back(f); continue; }
    PBT_CHECK(false, "line '" << l << "' of no known kind"); }
  return r;
}
struct Unit { std::string name; U lo, hi; };
// Compile units over runs of functions.
std::vector<Unit> AddUnits(Src& s, bb::Program* p) {
  std::vector<Unit> us; std::vector<int> at; for (size_t i = 0; i < p->funcs.size(); ++i) at.push_back(i); std::sort(at.begin(), at.end(), [&](int a, int b) { return p->funcs[a].addr < p->funcs[b].addr; }); dwenc::Enc a; a.Uleb(1); a.Uleb(0x11); a.U(0, 1); a.Uleb(3); a.Uleb(8); a.Uleb(0x11); a.Uleb(1); a.Uleb(0x12); a.Uleb(7); a.U(0, 2); a.Uleb(2); a.Uleb(0x11); a.U(0, 1); a.Uleb(3); a.Uleb(8); a.U(0, 2); a.U(0, 1); p->debug_abbrev = a.b;
  for (size_t i = 0; i < at.size();) { int n = 1 + s.Draw(2); size_t e = std::min(at.size(), i + n); if (!s.Chance(1, 5)) { Unit u; u.name = s.OneOf<std::string>({"a.cc", "dir/b.cc", "/abs/c d.cc"}) ; if (s.Bool()) u.name += std::to_string(i); u.lo = p->funcs[at[i]].addr; u.hi = p->funcs[at[e - 1]].End(); if (u.hi > u.lo) us.push_back(u); } i = e; }
  dwenc::Enc d; auto Cu = [&](const Unit* u) { size_t l = d.Len(); d.U(4, 2); d.O(0); d.U(8, 1); d.Uleb(u ? 1 : 2); d.Str(u ? u->name : "nothing.cc"); if (u) { d.U(u->lo, 8); d.U(u->hi - u->lo, 8); } d.Close(l); }; if (us.empty() || s.Chance(1, 4)) Cu(nullptr); for (auto& u : us) Cu(&u); p->debug_info = d.b; return us;
}
const Unit* UnitOf(const std::vector<Unit>& us, U a) { for (auto& u : us) if (u.lo <= a && a < u.hi) return &u; return nullptr; }
struct World { bb::Program p; std::vector<Unit> units; PropellerOptions o; bool v1, modules; };
void Options(Src& s, World* w) {
  auto& o = w->o; auto& q = *o.mutable_code_layout_params(); if (s.Bool()) { q.set_call_chain_clustering(s.Bool()); q.set_split_functions(s.Bool()); q.set_reorder_hot_blocks(s.Bool()); q.set_inter_function_reordering(s.Bool()); q.set_chain_split_threshold(s.Draw(5)); q.set_fallthrough_weight(s.Draw(20)); }
  w->v1 = s.Bool(); if (!w->v1) o.set_cluster_out_version(ClusterEncodingVersion::VERSION_0); else if (s.Bool()) o.set_cluster_out_version(ClusterEncodingVersion::VERSION_1); if (s.Chance(2, 3)) o.set_verbose_cluster_output(s.Chance(4, 5)); if (s.Chance(1, 2)) o.set_filter_non_text_functions(s.Bool()); w->modules = s.Chance(1, 3); if (w->modules || s.Chance(1, 4)) o.set_output_module_name(w->modules);
}
int64_t Freq(const Edges& e, H h) { int64_t call = 0, ret = 0, in = 0, out = 0; for (auto& [k, x] : e) { if (k.first == h) { if (x.kinds == br::kCall) call = std::max(call, x.w); else out += x.w; } if (k.second == h) { if (x.kinds == br::kRet) ret = std::max(ret, x.w); else in += x.w; } } return std::max({call, ret, in, out}); }
// The files say what the binary and the branches say.
void CheckFiles(Case& c, const World& w, const Edges& e, const std::string& cc, const std::string& ld) {
  auto& p = w.p; auto& q = w.o.code_layout_params(); bool verbose = w.o.verbose_cluster_output(), inter = q.inter_function_reordering(); auto recs = Parse(cc, w.v1); std::set<int> fs; for (auto& [k, x] : e) { fs.insert(k.first.f); fs.insert(k.second.f); }
  std::map<std::string, std::vector<int>> by; for (int f : fs) by[bb::SectionOf(p, p.funcs[f])].push_back(f); std::vector<int> want, got; for (auto& [_, v] : by) want.insert(want.end(), v.begin(), v.end()); for (auto& r : recs) { int at = -1; for (size_t i = 0; i < p.funcs.size(); ++i) if (fs.count(i) && bb::NamesAt(p, p.funcs[i].addr) == r.names) at = i; PBT_CHECK(at >= 0, "function '" << r.names[0] << "' has no samples"); got.push_back(at); } PBT_EQ(pbt::ToText(got, 0), pbt::ToText(want, 0), "functions laid out");
  std::multiset<std::string> syms, have; for (auto& l : Split(ld, '\n')) if (l.size()) have.insert(l); int parts = 0, cold = 0, exact = 0;
  for (size_t k = 0; k < recs.size(); ++k) {
    auto& r = recs[k]; int fi = got[k]; auto& f = p.funcs[fi]; auto Where = [&] { return " of " + r.names[0]; }; if (verbose) PBT_EQ(r.section, bb::SectionOf(p, f), "section" << Where()); auto* u = w.modules ? UnitOf(w.units, f.addr) : nullptr; PBT_EQ(r.has_module ? r.module : "(none)", u ? u->name : "(none)", "module" << Where());
    std::set<H> hot; for (auto& [x, _] : e) { hot.insert(x.first); hot.insert(x.second); } bool pads = false; for (size_t i = 0; i < f.blocks.size(); ++i) pads |= f.blocks[i].Pad() && hot.count({fi, (int)i}); std::set<int> must, placed; for (size_t i = 0; i < f.blocks.size(); ++i) if (!q.split_functions() || hot.count({fi, (int)i}) || (!inter && !i) || (f.blocks[i].Pad() && pads)) must.insert(i);
    bool entry = false; if (!inter) PBT_EQ(r.parts.size(), 1u, "parts" << Where());
    for (size_t j = 0; j < r.parts.size(); ++j) { ++parts; for (size_t m = 0; m < r.parts[j].size(); ++m) { int b = -1; for (size_t i = 0; i < f.blocks.size(); ++i) if ((int)f.blocks[i].id == r.parts[j][m]) b = i; PBT_CHECK(b >= 0, "unknown block" << Where()); PBT_CHECK(placed.insert(b).second, "block " << b << Where() << " placed twice"); if (!b) { entry = true; PBT_EQ(m, 0u, "place of the entry" << Where()); } } bool starts = r.parts[j][0] == (int)f.blocks[0].id; if (!inter) PBT_CHECK(starts, "no entry first" << Where()); for (auto& n : r.names) syms.insert(starts ? n : n + ".__part." + std::to_string(j)); }
    PBT_EQ(pbt::ToText(placed, 0), pbt::ToText(must, 0), "blocks placed" << Where()); if (placed.size() < f.blocks.size()) { ++cold; for (auto& n : r.names) syms.insert(entry ? n + ".cold" : n); }
    if (!q.reorder_hot_blocks() && q.split_functions() && !inter) for (size_t m = 1; m < r.parts[0].size(); ++m) PBT_CHECK(r.parts[0][m] > r.parts[0][m - 1], "blocks reordered" << Where());
    bool mixed = false; for (auto& [x, y] : e) if (x.first.f == fi || x.second.f == fi) mixed |= (y.kinds & (y.kinds - 1)) != 0;
    if (verbose && !mixed) { ++exact; PBT_EQ(r.prof.size(), f.blocks.size(), "blocks described" << Where()); PBT_EQ(r.entry, std::to_string(Freq(e, {fi, 0})), "entries" << Where()); for (size_t i = 0; i < f.blocks.size(); ++i) { H h{fi, (int)i}; std::multiset<std::string> a, b; auto v = Split(r.prof[i], ' '); PBT_EQ(v[0], std::to_string(f.blocks[i].id) + ":" + std::to_string(Freq(e, h)), "block" << Where()); b.insert(v.begin() + 1, v.end()); for (auto& [x, y] : e) if (x.first == h && x.second.f == fi && y.kinds == br::kBranch) a.insert(std::to_string(f.blocks[x.second.b].id) + ":" + std::to_string(y.w)); PBT_EQ(pbt::ToText(b, 0), pbt::ToText(a, 0), "jumps of block " << i << Where()); } }
    else PBT_CHECK(verbose || (r.prof.empty() && r.entry.empty()), "graph written");
    c.LabelIf(u, "module named");
  }
  PBT_EQ(pbt::ToText(have, 0), pbt::ToText(syms, 0), "symbols ordered"); c.NonTrivial(parts > 1 && cold && e.size() > 3); c.LabelIf(exact > 1, "graphs compared"); c.LabelIf(by.size() > 1, "several sections"); c.LabelIf(inter, "across functions");
}
// Called when the pipeline is done, and when it is over.
int g_reports, g_starts, g_stops, g_progress; bool g_done; PropellerStats g_stats; std::string g_file; StatusProvider* g_provider;
struct Watch : StatusConsumer { void Start(StatusProvider& p) override { ++g_starts; g_provider = &p; } void Stop() override { ++g_stops; g_done = g_provider->IsDone(); g_progress = g_provider->GetProgress(); } };
void Observe() { static bool once = [] { StatusConsumerRegistry::GetInstance().Register(std::make_unique<Watch>()); RegisterPropellerTelemetryReporter([](const BinaryContent& b, const PropellerStats& st) { ++g_reports; g_stats = st; g_file = b.file_name; }); return true; }(); (void)once; g_reports = g_starts = g_stops = g_progress = 0; g_done = false; }

struct Event { uint32_t pid; std::vector<br::Pair> stack; };  // oldest first
struct Recording { pgn::Rec rec; std::vector<Event> stacks; std::vector<quipper::ArmSpeDecoder::Record> spe; std::set<int> odd; };
Recording GenRecording(Src& s, const World& w, const pgn::Bin& b, bool spe) {
  Recording r; auto& p = w.p; std::map<uint32_t, U> base; int np = s.Int(1, 2); for (int i = 0; i < np; ++i) { U at = b.pie ? 0x550000000000ull + (s.Draw(3) << 24) : 0; pgn::Add(s, b, 100 + i, at, "/bin/prog", &r.rec.maps); base[100 + i] = at; } if (s.Bool()) r.rec.maps.push_back({100, 0x7f0000000000ull, 0x1000, 0, "/lib/other.so"}); if (b.build_id.size()) r.rec.ids.push_back({"/bin/prog", b.build_id}); if (s.Bool()) r.rec.ids.push_back({"/lib/other.so", "z"}); int noisy = s.Weighted({5, 1});
  auto Last = [&](const bb::Func& f, int k) { return f.blocks[k].size ? f.EndOf(k) - 1 - s.Draw(std::min<U>(f.blocks[k].size - 1, 3)) : f.At(k); }; int n = 0;
  while (s.More(n, 0, 10, 5)) {
    ++n; uint32_t pid = 100 + s.Draw(np); Event ev; ev.pid = pid; U at = base.count(pid) ? base[pid] : 0; int k = 0, fi = s.Draw(p.funcs.size() - 1), bi = 0; std::vector<H> calls;
    while (s.More(k, 1, 12, 6)) {
      ++k; auto* f = &p.funcs[fi]; while (bi + 1 < (int)f->blocks.size() && f->blocks[bi].Falls() && !s.Chance(1, 3)) ++bi; U from = Last(*f, bi), to; int how = s.Weighted({6, 3, calls.size() ? 4 : 0, 1, 1 + 2 * noisy});
      if (f->blocks[bi].Returns()) { how = 2; if (calls.empty()) { int g = s.Draw(p.funcs.size() - 1); calls.push_back({g, (int)s.Draw(p.funcs[g].blocks.size() - 1)}); } }
      switch (how) { case 0: bi = s.Draw(f->blocks.size() - 1); to = f->At(bi); break; case 1: calls.push_back({fi, bi}); fi = s.Draw(p.funcs.size() - 1); bi = 0; to = p.funcs[fi].addr; break; case 2: { H h = calls.back(); calls.pop_back(); fi = h.f; bi = h.b; auto& g = p.funcs[fi]; to = g.blocks[bi].size && s.Bool() ? g.EndOf(bi) - 1 : g.EndOf(bi); if (to == g.EndOf(bi) && bi + 1 < (int)g.blocks.size()) ++bi; break; } case 3: to = s.OneOf<U>({0x7f0000000000ull - at, s.U64()}); break; default: to = bb::SomeAddress(s, p); }
      ev.stack.push_back({from + at, to + at}); if (s.Chance(1, 20)) ev.stack.push_back({s.U64(), p.funcs[fi].At(bi) + at});
    }
    r.stacks.push_back(ev); if (s.Chance(1, 4)) for (int m = s.Draw(3); m--;) r.stacks.push_back(ev);
  }
  if (spe) for (auto& ev : r.stacks) for (auto& [f, t] : ev.stack) { quipper::ArmSpeDecoder::Record q; q.event.retired = !s.Chance(1, 12); q.op.is_br_eret = true; q.op.br_eret.br_cond = s.Bool(); q.event.cond_not_taken = s.Chance(1, 3); q.context.el1 = true; q.context.id = ev.pid; q.ip.addr = f; q.tgt_br_ip.addr = t; r.spe.push_back(q); }
  return r;
}
std::string Bytes(const Recording& r, bool spe) {
  quipper::PerfDataProto p; pgn::Put(r.rec, &p);
  if (!spe) for (auto& x : r.stacks) { auto* e = p.add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE); auto* v = e->mutable_sample_event(); v->set_pid(x.pid); for (size_t i = x.stack.size(); i--;) { auto* q = v->add_branch_stack(); q->set_from_ip(x.stack[i].first); q->set_to_ip(x.stack[i].second); } }
  else { std::string d; for (auto& q : r.spe) d += quipper::ArmSpeDecoder::Encode(q); if (d.size()) { auto* e = p.add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_AUXTRACE); e->mutable_auxtrace_event()->set_trace_data(d); } }
  return quipper::EncodeStandInPerf(p);
}
struct Counts { br::Counts taken, falls; std::map<U, int64_t> not_taken; int64_t events = 0; };
void Count(const pgn::Bin& b, const pgn::Maps& maps, const Recording& r, bool spe, Counts* w) {
  if (!spe) for (auto& x : r.stacks) { if (!maps.count(x.pid)) continue; U prev = kNone; for (auto& [f, t] : x.stack) { br::Pair k{pgn::Translate(b, maps, x.pid, f), pgn::Translate(b, maps, x.pid, t)}; ++w->taken[k]; ++w->events; if (prev != kNone && k.first != kNone && prev <= k.first) ++w->falls[{prev, k.first}]; prev = k.second; } }
  else for (auto& q : r.spe) { if (!maps.count(q.context.id) || !q.event.retired) continue; U f = pgn::Translate(b, maps, q.context.id, q.ip.addr), t = pgn::Translate(b, maps, q.context.id, q.tgt_br_ip.addr); if (q.op.br_eret.br_cond && q.event.cond_not_taken) ++w->not_taken[f]; else { ++w->taken[{f, t}]; ++w->events; } }
}
br::Profile AsProfile(const br::Counts& b, const br::Counts& f) { br::Profile r; r.all = false; r.branches = b; r.falls = f; for (auto* m : {&b, &f}) for (auto& [k, _] : *m) { r.addrs.insert(k.first); r.addrs.insert(k.second); } return r; }
std::string Show(const pgn::Bin& b, const Recording& r, bool spe) { std::ostringstream o; o << pgn::Show(b, r.rec) << std::hex; if (!spe) for (auto& x : r.stacks) { o << "stack of " << std::dec << x.pid << std::hex; for (auto& q : x.stack) o << " " << q.first << ">" << q.second; o << "\n"; } else for (auto& q : r.spe) o << "record of " << std::dec << q.context.id << std::hex << (q.event.retired ? "" : " not retired") << (q.op.br_eret.br_cond ? " cond" : "") << (q.event.cond_not_taken ? " not-taken" : "") << " " << q.ip.addr << ">" << q.tgt_br_ip.addr << "\n"; return o.str(); }
World GenWorld(Src& s) { World w; bb::Opts o; o.max_funcs = 5; o.max_blocks = 7; o.zero_funcs = false; w.p = bb::Generate(s, o); Options(s, &w); if (w.modules ? s.Chance(7, 8) : s.Chance(1, 4)) w.units = AddUnits(s, &w.p); return w; }

// Binary and recordings to files.
void Requests(Src& s, Case& c) {
  absl::shim::g_hash_seed = s.Draw(1000); World w = GenWorld(s); bool spe = s.Chance(1, 4); std::string path = c.Tmp("bin"), cc = c.Tmp("cc"), ld = c.Tmp("ld"); unlink((path + ".dwp").c_str()); if (w.p.build_id.empty() && s.Chance(4, 5)) w.p.build_id = "abcdefgh"; pbt::WriteFile(path, bb::Write(&w.p)); unlink(cc.c_str()); unlink(ld.c_str());
  pgn::Bin b; b.pie = w.p.pie; b.build_id = w.p.build_id; for (auto& g : w.p.segs) b.segs.push_back({g.offset, g.vaddr, g.memsz}); auto& o = w.o; o.set_binary_name(path); o.set_cluster_out_name(cc); o.set_symbol_order_out_name(ld); std::string name; if (s.Chance(1, 3) || w.p.build_id.empty()) { name = s.OneOf<std::string>({"/bin/prog", "prog"}); o.set_profiled_binary_name(name); } bool watch = s.Bool(); o.set_http(watch);
  std::vector<Recording> rs; std::vector<std::string> files; Counts w0; int n = 0, used = 0; std::string d; while (s.More(n, 1, 3, 1)) { ++n; Recording r = GenRecording(s, w, b, spe); bool bad = s.Chance(1, 10); std::string bytes = Bytes(r, spe); if (bad) bytes = bytes.substr(0, s.Draw(7)); files.push_back(c.Tmp("perf" + std::to_string(n))); pbt::WriteFile(files.back(), bytes); d += (bad ? "cut short: " : "") + Show(b, r, spe); rs.push_back(r); if (bad) continue; auto maps = pgn::Select(r.rec, name.empty() ? pgn::IdNames(r.rec, pgn::HexOf(b.build_id)) : std::set<std::string>{name}); if (!maps) continue; ++used; Count(b, *maps, r, spe, &w0); }
  int fault = s.Weighted({10, 1, 1, 1, 1}); bool full = s.Bool(); if (fault == 1) o.set_cluster_out_name(full ? "/dev/full" : c.Tmp("nodir") + "/x"); if (fault == 2) o.set_symbol_order_out_name(full ? "/dev/full" : c.Tmp("nodir") + "/x"); if (fault == 3) o.set_binary_name(c.Tmp("nobinary")); if (fault == 4) files.insert(files.begin() + s.Draw(files.size()), s.Bool() ? "" : c.Tmp("norecording"));
  c.Describe([&] { std::string u; for (auto& x : w.units) u += "unit " + x.name + " " + std::to_string(x.lo) + ".." + std::to_string(x.hi) + "\n"; return bb::Show(w.p) + u + o.ShortDebugString() + "\n" + d; });
  // Reference.
  Edges e; bool explained = false, shifted = false; std::set<int> sel; std::map<int, int64_t> by_kind; bool text = o.filter_non_text_functions();
  if (used) {
    br::Profile pr = AsProfile(w0.taken, w0.falls); for (auto& [a, _] : w0.not_taken) pr.addrs.insert(a);
    if (spe) { auto content = GetBinaryContent(path); PBT_CHECK(content.ok(), content.status().ToString()); PropellerStats st; absl::flat_hash_set<uint64_t> hot(pr.addrs.begin(), pr.addrs.end()); auto m = BuildBinaryAddressMapper(o, **content, st, &hot); PBT_CHECK(m.ok(), m.status().ToString()); BranchFrequencies f; for (auto& [k, v] : w0.taken) f.taken_branch_counters[{.from = k.first, .to = k.second}] = v; for (auto& [k, v] : w0.not_taken) f.not_taken_branch_counters[{.address = k}] = v; auto a = FrequenciesBranchAggregator(f, **content, PropellerStats{}).Aggregate(**m, st); PBT_CHECK(a.ok(), a.status().ToString()); for (auto& [k, v] : a->fallthrough_counters) pr.falls[{k.from, k.to}] = v; }
    explained = br::Apply(w.p, pr, text, &e, &sel, &by_kind, &shifted);
  }
  if (full && e.empty() && (fault == 2 || (fault == 1 && !w.v1))) throw pbt::Discard();  // nothing to write
  bool mod_ok = !w.modules || w.p.debug_info.size(), good = used && explained && mod_ok && !fault; Observe(); absl::Status st; bool given = s.Chance(1, 4);
  if (given) st = GeneratePropellerProfiles(o, std::make_unique<GenericFilePerfDataProvider>(files), spe ? PERF_SPE : PERF_LBR); else { PropellerOptions in = o; for (auto& f : files) { auto* i = in.add_input_profiles(); i->set_name(f); if (spe) i->set_type(PERF_SPE); else if (s.Bool()) i->set_type(PERF_LBR); } st = GeneratePropellerProfiles(in); }
  for (auto& f : files) if (f.size()) unlink(f.c_str()); unlink(path.c_str()); PBT_CHECK(st.ok() == good, (good ? "failed: " : "succeeded though it cannot (recordings used " + std::to_string(used) + ", explained " + std::to_string(explained) + ", fault " + std::to_string(fault) + ") ") << st.ToString());
  PBT_EQ(g_starts, watch ? 1 : 0, "observers started"); PBT_EQ(g_stops, watch ? 1 : 0, "observers stopped"); if (watch) { PBT_CHECK(g_done == good, "progress at the end is " << g_progress); PBT_CHECK(!good || g_progress == 100, "progress at the end is " << g_progress); } PBT_EQ(g_reports, good ? 1 : 0, "reports");
  if (!good) { if (!used || !explained || !mod_ok || fault >= 3) PBT_CHECK(access(cc.c_str(), F_OK) && access(ld.c_str(), F_OK), "failed but written"); unlink(cc.c_str()); unlink(ld.c_str()); c.Label(fault == 3 ? "no binary" : fault == 4 ? "no such recording" : !used ? "no usable recording" : !mod_ok ? "no debug info" : !explained ? "profile refused" : "output not writable"); if (fault == 1 || fault == 2 || fault == 4) c.NonTrivial(e.size() > 3); return; }
  PBT_EQ(g_file, path, "binary reported"); PBT_EQ(g_stats.profile_stats.perf_file_parsed, used, "recordings parsed"); PBT_EQ(g_stats.profile_stats.br_counters_accumulated, (U)w0.events, "branches"); PBT_EQ(g_stats.cfg_stats.cfgs_created, sel.size(), "graphs created"); for (auto [k, kind] : std::map<int, CFGEdge::Kind>{{br::kBranch, CFGEdge::Kind::kBranchOrFallthough}, {br::kCall, CFGEdge::Kind::kCall}, {br::kRet, CFGEdge::Kind::kRet}}) { auto it = g_stats.cfg_stats.total_edge_weight_by_kind.find(kind); PBT_EQ(it == g_stats.cfg_stats.total_edge_weight_by_kind.end() ? 0 : it->second, by_kind.count(k) ? by_kind[k] : 0, "weight of edges of kind " << k); }
  CheckFiles(c, w, e, pbt::ReadFile(cc), pbt::ReadFile(ld)); unlink(cc.c_str()); unlink(ld.c_str()); c.LabelIf(spe, "trace records"); c.LabelIf(used > 1, "several recordings"); c.LabelIf(watch, "watched");
}
// Any branch data through the computer.
struct Given : BranchAggregator {
  br::Profile r; int fail; Given(br::Profile r, int fail) : r(std::move(r)), fail(fail) {}
  absl::StatusOr<absl::flat_hash_set<uint64_t>> GetBranchEndpointAddresses() override { if (fail == 1) return absl::DataLossError("x"); return absl::flat_hash_set<uint64_t>(r.addrs.begin(), r.addrs.end()); }
  absl::StatusOr<BranchAggregation> Aggregate(const BinaryAddressMapper&, PropellerStats& st) override { if (fail == 2) return absl::DataLossError("x"); st.profile_stats.br_counters_accumulated += 5; BranchAggregation a; for (auto& [k, v] : r.branches) a.branch_counters[{.from = k.first, .to = k.second}] = v; for (auto& [k, v] : r.falls) a.fallthrough_counters[{.from = k.first, .to = k.second}] = v; return a; }
};
void Computer(Src& s, Case& c) {
  absl::shim::g_hash_seed = s.Draw(1000); World w = GenWorld(s); std::string path = c.Tmp("bin2"), cc = c.Tmp("cc2"), ld = c.Tmp("ld2"); unlink((path + ".dwp").c_str()); pbt::WriteFile(path, bb::Write(&w.p)); br::Profile r = br::GenProfile(s, w.p); r.all = false; if (s.Chance(1, 4)) for (int k = 1 + s.Draw(3); k--;) r.addrs.insert(bb::SomeAddress(s, w.p)); int fail = s.Chance(1, 12) ? 1 + s.Draw(1) : 0; bool own = s.Bool(), map_status = s.Bool(), layout_status = s.Bool(); auto& o = w.o; o.set_binary_name(own && s.Bool() ? c.Tmp("nobinary") : path); o.set_cluster_out_name(cc); o.set_symbol_order_out_name(ld); if (s.Chance(1, 4)) o.add_input_profiles()->set_name("ignored"); if (s.Chance(1, 8)) o.add_input_profiles()->set_type(PERF_SPE);
  c.Describe([&] { return bb::Show(w.p) + o.ShortDebugString() + "\n" + br::Show(r); }); Edges e; std::set<int> sel; std::map<int, int64_t> by_kind; bool shifted = false, ok = br::Apply(w.p, r, o.filter_non_text_functions(), &e, &sel, &by_kind, &shifted), good = ok && !fail && (!w.modules || w.p.debug_info.size());
  std::unique_ptr<BinaryContent> content; if (own) { auto x = GetBinaryContent(path); PBT_CHECK(x.ok(), x.status().ToString()); content = std::move(*x); } auto* raw = content.get(); auto pc = PropellerProfileComputer::Create(o, std::make_unique<Given>(r, fail), std::move(content)); PBT_CHECK(pc.ok(), pc.status().ToString()); if (own) PBT_CHECK(&(*pc)->binary_content() == raw, "given binary not used"); unlink(path.c_str());
  DefaultStatusProvider a("map"), b("layout"); auto prof = (*pc)->ComputeProfile(map_status ? &a : nullptr, layout_status ? &b : nullptr); PBT_CHECK(prof.ok() == good, (good ? "failed: " : "succeeded though it cannot ") << prof.status().ToString()); PBT_CHECK(a.IsDone() == (map_status && good), "progress of mapping " << a.GetProgress()); PBT_CHECK(b.IsDone() == (layout_status && good), "progress of the layout " << b.GetProgress()); if (!good) { if (fail) PBT_CHECK(absl::IsDataLoss(prof.status()), prof.status().ToString()); c.Label(fail ? "aggregator fails" : ok ? "no debug info" : "profile refused"); return; }
  PBT_EQ((*pc)->stats().profile_stats.br_counters_accumulated, 5u, "statistics of the aggregation"); PBT_EQ((*pc)->stats().cfg_stats.cfgs_created, sel.size(), "graphs created"); PBT_EQ((*pc)->stats().cfg_stats.total_edges_created(), (int64_t)e.size(), "edges created"); PBT_CHECK(prof->program_cfg->file_content(), "no file content"); if (!w.modules && s.Bool()) pc->reset();
  auto st = PropellerProfileWriter(o).Write(*prof); PBT_CHECK(st.ok(), st.ToString()); CheckFiles(c, w, e, pbt::ReadFile(cc), pbt::ReadFile(ld)); unlink(cc.c_str()); unlink(ld.c_str()); c.LabelIf(map_status || layout_status, "progress followed"); c.LabelIf(own, "given binary");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P56"; su.rule = "at least two parts, one function with a cold part, more than three edges; or an unwritable output for such a request";
  su.assumptions = {"counts fit 31 bits", "perf's container format and the trace packet format are replaced by stand-ins", "blocks joined by edges of two kinds have an unspecified kind: their functions' frequencies are not compared", "the inference of fall-throughs from trace records is taken from the code (decided by P33)"};
  su.subs = {{"recordings to files", Requests, 40000, 800000}, {"branch data to layouts", Computer, 40000, 800000}};
  return pbt::Main(argc, argv, su);
}
