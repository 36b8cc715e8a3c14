// MODE: LLVM
// SOURCES: spe_tid_pid_provider.cc perfdata_reader.cc llvm_propeller_binary_content.cc addr2cu.cc pb:perf
// TECHNIQUE: property-based testing: generated event histories and clock parameters against a reference owner table and 128-bit clock arithmetic
// LEVEL_NOTE: Random search over event histories in any order; two different owners of one thread at the same instant are excluded.
#include <map>
#include "pbt.h"
#include "perfdata_reader.h"
#include "quipper/perf_reader.h"
#include "spe_tid_pid_provider.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; using quipper::PerfDataProto; using quipper::ArmSpeDecoder;
namespace {
struct Clock { uint64_t shift = 0, mult = 1, zero = 0, cycles = 0, mask = 0; bool is_short = false; };
Clock GenClock(Src& s) {
  Clock k; switch (s.Draw(3)) { case 0: k.shift = 0; k.mult = 1; break; case 1: k.shift = s.Draw(31); k.mult = 1 + s.Draw((1ull << 31)); break; case 2: k.shift = s.Draw(10); k.mult = 1ull << k.shift; break; default: k.shift = 1 + s.Draw(31); k.mult = 1 + s.Draw(1000); }
  k.zero = s.Bool() ? 0 : s.U64(1ull << 40); k.is_short = s.Chance(1, 3); k.cycles = s.Bool() ? s.Draw(100000) : s.U64(1ull << 36); int w = 4 + s.Draw(36); k.mask = (1ull << w) - 1; return k;
}
using U = unsigned __int128;
// The kernel's formula, in wide arithmetic.
bool ToTime(const Clock& k, uint64_t c, uint64_t* t) {
  U x = c; if (k.is_short) { U m = (U)k.mask + 1, d = ((U)c + (m << 40) - k.cycles) % m; x = (U)k.cycles + d; }
  U r = (x * k.mult) >> k.shift; U low = x & (((U)1 << k.shift) - 1); if (r + k.zero >= ((U)1 << 63) || low * k.mult >> 64 || x >> 64) return false; *t = (uint64_t)(r + k.zero); return true;
}
struct Own { int pid, tid; uint64_t t; int how; };
struct World { Clock k; std::vector<Own> ev; std::map<int, std::map<uint64_t, int>> own; std::set<int> pids; std::vector<uint64_t> times; int span; bool sorted; quipper::PerfDataProto data; };
World Gen(Src& s) {
  World w; w.k = GenClock(s); int n = 0; w.span = 1 + s.Draw(60);
  while (s.More(n, 0, 30, 8)) {
    ++n; Own o; o.tid = s.Weighted({6, 1}) == 0 ? 1 + s.Draw(3) : (int)s.Draw(2) - 1; o.pid = s.Weighted({6, 1}) == 0 ? 10 + s.Draw(3) : (int)s.Draw(2) - 1; if (s.Chance(1, 4)) o.pid = o.tid; o.t = w.k.zero + 1 + s.Draw(w.span) * (s.Chance(1, 6) ? 1000000 : 1); o.how = s.Draw(7);
    bool counted = o.pid > 0 && o.tid > 0; if (counted) { auto it = w.own[o.tid].find(o.t); if (it != w.own[o.tid].end() && it->second != o.pid) continue; w.own[o.tid][o.t] = o.pid; w.pids.insert(o.pid); w.times.push_back(o.t); } w.ev.push_back(o);
  }
  w.sorted = s.Bool(); if (w.sorted) std::stable_sort(w.ev.begin(), w.ev.end(), [](auto& a, auto& b) { return a.t < b.t; });
  size_t clock_at = s.Draw(w.ev.size()); auto Add = [&](int type) { auto* e = w.data.add_events(); e->mutable_header()->set_type(type); return e; };
  for (size_t i = 0; i <= w.ev.size(); ++i) {
    if (i == clock_at) { auto& k = w.k; auto* e = Add(quipper::PERF_RECORD_TIME_CONV)->mutable_time_conv_event(); e->set_time_shift(k.shift); e->set_time_mult(k.mult); e->set_time_zero(k.zero); e->set_time_cycles(k.cycles); e->set_time_mask(k.mask); e->set_cap_user_time_short(k.is_short); e->set_cap_user_time_zero(true); }
    if (i == w.ev.size()) break; auto& o = w.ev[i]; auto Info = [&](PerfDataProto::SampleInfo* f) { f->set_pid(o.pid); f->set_tid(o.tid); f->set_sample_time_ns(o.t); };
    switch (o.how) { case 0: case 1: { auto* f = Add(quipper::PERF_RECORD_FORK)->mutable_fork_event(); f->set_pid(o.pid); f->set_tid(o.tid); f->set_ppid(77); f->set_ptid(78); f->set_fork_time_ns(o.t); break; } case 2: case 3: { auto* f = Add(quipper::PERF_RECORD_SAMPLE)->mutable_sample_event(); f->set_pid(o.pid); f->set_tid(o.tid); f->set_sample_time_ns(o.t); f->set_ip(4); break; } case 4: Info(Add(quipper::PERF_RECORD_COMM)->mutable_comm_event()->mutable_sample_info()); break; case 5: Info(Add(quipper::PERF_RECORD_MMAP)->mutable_mmap_event()->mutable_sample_info()); break; case 6: Info(Add(quipper::PERF_RECORD_EXIT)->mutable_exit_event()->mutable_sample_info()); break; default: Info(Add(quipper::PERF_RECORD_FORK)->mutable_fork_event()->mutable_sample_info()); }
    if (s.Chance(1, 10)) { auto* z = Add(quipper::PERF_RECORD_SAMPLE)->mutable_sample_event(); z->set_pid(99); z->set_tid(1); z->set_sample_time_ns(0); }  // without a time: says nothing
  }
  return w;
}
std::string Show(const World& w) { auto& k = w.k; std::string r = "clock shift " + std::to_string(k.shift) + " mult " + std::to_string(k.mult) + " zero " + std::to_string(k.zero) + " cycles " + std::to_string(k.cycles) + " mask " + std::to_string(k.mask) + (k.is_short ? " short" : "") + "\n"; for (auto& o : w.ev) r += "at " + std::to_string(o.t - k.zero) + " thread " + std::to_string(o.tid) + " process " + std::to_string(o.pid) + " kind " + std::to_string(o.how) + "\n"; return r; }
// A record, usually near one of the events; false if its time overflows.
bool GenRecord(Src& s, const World& w, ArmSpeDecoder::Record* r, uint64_t* t) {
  auto& k = w.k; r->context.el1 = s.Bool(); r->context.el2 = s.Bool(); r->context.id = s.Weighted({6, 1}) == 0 ? 1 + s.Draw(3) : s.Draw(100000); r->ip.addr = s.Draw(1 << 20);
  uint64_t at = w.times.empty() || s.Chance(1, 6) ? k.zero + s.Draw(w.span * 2) : w.times[s.Draw(w.times.size() - 1)] + s.Draw(2) - 1; U x = ((U)(at > k.zero ? at - k.zero : 0) << k.shift) / k.mult + s.Draw(1); if (x >> 63) return false; r->timestamp = (uint64_t)x; if (k.is_short && r->timestamp >= k.cycles && s.Bool()) r->timestamp &= k.mask; return ToTime(k, r->timestamp, t);
}
// The process a record belongs to, or "none".
std::string Want(const World& w, const ArmSpeDecoder::Record& r, uint64_t t, size_t* known) {
  if (!r.context.el1 && !r.context.el2) return w.pids.size() == 1 ? std::to_string(*w.pids.begin()) : "none";
  auto it = w.own.find(r.context.id); if (it != w.own.end()) { auto j = it->second.upper_bound(t); if (j != it->second.begin()) { ++*known; return std::to_string(std::prev(j)->second); } } return std::to_string((int)r.context.id);
}
size_t Changed(const World& w) { size_t n = 0; for (auto& [t, m] : w.own) { std::set<int> q; for (auto& [a, b] : m) q.insert(b); n += q.size() > 1; } return n; }
void Owner(Src& s, Case& c) {
  World w = Gen(s); c.Describe([&] { return Show(w); }); size_t known = 0, changed = Changed(w); c.LabelIf(!w.sorted, "events out of order"); c.LabelIf(w.k.is_short, "short clock"); c.LabelIf(changed, "a thread changes process"); c.LabelIf(w.pids.size() == 1, "one process");
  dca::SpeTidPidProvider p(w.data.events());
  for (int i = 0; i < 24; ++i) { ArmSpeDecoder::Record r; uint64_t t; if (!GenRecord(s, w, &r, &t)) continue; auto got = p.GetPid(r); PBT_EQ(got.ok() ? std::to_string(*got) : std::string("none"), Want(w, r, t, &known), "process of a record of thread " << r.context.id << " at clock " << r.timestamp << " = time zero + " << t - w.k.zero); }
  c.NonTrivial(known > 0 && changed > 0);
}
// The same through the reader of recordings.
void Recording(Src& s, Case& c) {
  World w = Gen(s); size_t known = 0, changed = Changed(w); std::vector<std::string> want; std::string d; int na = 1 + s.Draw(2);
  for (int a = 0; a < na; ++a) { std::string t; int n = 0; while (s.More(n, 0, 10, 4)) { ++n; ArmSpeDecoder::Record r; uint64_t at; if (!GenRecord(s, w, &r, &at)) continue; r.event.retired = s.Bool(); r.op.is_br_eret = s.Bool(); t += ArmSpeDecoder::Encode(r); std::string x = Want(w, r, at, &known); if (x != "none") want.push_back(std::to_string(r.ip.addr) + "@" + x); d += " " + std::to_string(r.context.id) + "@" + std::to_string(at - w.k.zero); } auto* e = w.data.add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_AUXTRACE); e->mutable_auxtrace_event()->set_trace_data(t); }
  c.Describe([&] { return Show(w) + "records (thread@time):" + d; }); c.NonTrivial(known > 0 && changed > 0 && want.size() > 1); c.LabelIf(!w.sorted, "events out of order");
  dca::BinaryContent bc; std::string bytes = quipper::EncodeStandInPerf(w.data); dca::PerfDataReader rd({"generated", llvm::MemoryBuffer::getMemBufferCopy(bytes, "p")}, {}, &bc); std::vector<std::string> got;
  auto st = rd.ReadWithSpeRecordCallBack([&](const ArmSpeDecoder::Record& r, int pid) { got.push_back(std::to_string(r.ip.addr) + "@" + std::to_string(pid)); }); PBT_CHECK(st.ok(), st); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(want, 0), "records with their processes");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P18"; su.scale = 8; su.rule = "some thread changes its process and some record falls after an event of its thread";
  su.subs = {{"owner", Owner, 100000, 5000000}, {"recording", Recording, 60000, 3000000}};
  su.assumptions = {"one clock conversion event per recording", "clock conversions that do not overflow 64 bits", "no two different owners of one thread at the same instant"};
  return pbt::Main(argc, argv, su);
}
