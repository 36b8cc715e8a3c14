// MODE: GCOV
// SOURCES: simple_spe_sample_reader.cc sample_reader.cc pb:perf
// TECHNIQUE: property-based testing: generated recordings with trace records of Arm processors; branch, not-taken and per-instruction counts of the reader against a reference computed instruction by instruction
// LEVEL_NOTE: Random search. The trace decoder itself is outside the repository (stand-in). Instructions are four bytes and aligned; no code at file offset 0.
#include <unistd.h>
#include <sstream>
#include "pbt.h"
#include "quipper/arm_spe_decoder.h"
#include "quipper/perf_parser.h"
#include "quipper/perf_reader.h"
#include "simple_spe_sample_reader.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; using U = uint64_t; using quipper::ArmSpeDecoder;
namespace {
using PM = std::map<std::pair<U, U>, U>; using AM = std::map<U, U>;
struct Rec { quipper::PerfDataProto data; PM branch; AM not_taken; bool mapped = false, traced = false; std::string text; };
struct Bin { std::string path, base; };
const U kLen = 0x40000;
Rec GenRec(Src& s, const Bin& b) {
  Rec r; std::ostringstream o; auto Add = [&](int type) { auto* e = r.data.add_events(); e->mutable_header()->set_type(type); return e; }; struct M { std::string name; U start, len, off; bool ours; }; std::vector<M> maps; int n = 0;
  while (s.More(n, 0, 5, 3)) { ++n; bool ours = s.Bool(); std::string dir = s.OneOf<std::string>({"/opt/bin/", "", "/a/b/", "rel/"}); std::string name = ours ? dir + b.base : s.OneOf<std::string>({dir + b.base + "2", "/usr/lib/libc.so", "[vdso]", "/" + b.base + "/other", dir + "my" + b.base}); maps.push_back({name, 0x400000ull + 0x1000000ull * (n + s.Draw(3) * 8), s.Chance(1, 4) ? 0x1000 : kLen, 0x1000 * (1 + s.Draw(40)), ours}); }
  const M* first = nullptr; std::vector<std::pair<bool, int>> order; for (auto& m : maps) { if (m.ours && !first) first = &m; }
  r.mapped = first; int traces = s.Weighted({1, 6}) ? 1 + s.Draw(2) : 0; r.traced = traces; size_t next_map = 0; U hot = s.OneOf<U>({0x20, 0x80, 0x400, 0x3000});
  auto addr = [&](bool inside) -> U { const M* m = first ? first : maps.empty() ? nullptr : &maps[0]; if (!inside || !m) { if (s.Chance(1, 4)) return 0; if (maps.size() && s.Bool()) m = &s.Pick(maps); else return 0x7000000000 + 4 * s.Draw(100); } if (s.Chance(1, 20)) return m->start + m->len - 4; if (s.Chance(1, 30)) return m->start + m->len; if (s.Chance(1, 30)) return m->start - 4; return m->start + 4 * s.Draw(std::min(m->len, hot) / 4 - 1) + (s.Chance(1, 8) && m->len > 0x2000 ? 0x1000 : 0); };
  while (traces || next_map < maps.size()) {
    if (next_map < maps.size() && (!traces || s.Chance(3, 4))) { auto& m = maps[next_map++]; auto* e = Add(quipper::PERF_RECORD_MMAP)->mutable_mmap_event(); e->set_pid(10); e->set_filename(m.name); e->set_start(m.start); e->set_len(m.len); e->set_pgoff(m.off); o << "map " << m.name << std::hex << " " << m.start << "+" << m.len << " at " << m.off << "\n"; continue; }
    --traces; std::string t; int k = 0; while (s.More(k, 0, 60, 15)) {
      ++k; ArmSpeDecoder::Record x; x.event.retired = s.Chance(9, 10); x.op.is_br_eret = s.Chance(9, 10); x.op.br_eret.br_cond = s.Bool(); x.event.cond_not_taken = s.Chance(1, 3); x.op.br_eret.br_indirect = s.Chance(1, 6); x.ip.addr = addr(s.Chance(9, 10)); x.tgt_br_ip.addr = addr(s.Chance(9, 10)); int times = s.Chance(1, 5) ? 1 + s.Draw(40) : 1; o << std::hex << x.ip.addr << (x.op.br_eret.br_cond ? " cond" : "") << (x.event.cond_not_taken ? " not taken" : "") << " -> " << x.tgt_br_ip.addr << (x.event.retired ? "" : " squashed") << (x.op.is_br_eret ? "" : " no branch") << " x" << std::dec << times << "\n";
      auto off = [&](U a) -> U { return first && a >= first->start && a - first->start < first->len ? a - first->start + first->off : 0; };
      while (times--) { t += ArmSpeDecoder::Encode(x); if (!x.event.retired || !x.op.is_br_eret || !off(x.ip.addr)) continue; if (x.op.br_eret.br_cond && x.event.cond_not_taken) r.not_taken[off(x.ip.addr)]++; else if (off(x.tgt_br_ip.addr)) r.branch[{off(x.ip.addr), off(x.tgt_br_ip.addr)}]++; }
    }
    Add(quipper::PERF_RECORD_AUXTRACE)->mutable_auxtrace_event()->set_trace_data(t);
  }
  r.text = o.str(); return r;
}
// How often every instruction ran: control enters at the targets of taken
// branches; it stays until the next target, at most 1024 instructions, and
// passes a branch as often as that was seen not to be taken.
AM Executed(const PM& branch, const AM& not_taken) {
  AM in, w; std::set<U> ends; for (auto& [b, n] : branch) { in[b.second] += n; ends.insert(b.first); } for (auto& [a, n] : not_taken) ends.insert(a);
  for (auto i = in.begin(); i != in.end(); ++i) { auto nx = std::next(i); U stop = nx == in.end() ? i->first + 0x1000 : nx->first, now = i->second; for (U a = i->first; a < stop && now; a += 4) { w[a] += now; if (ends.count(a)) { auto k = not_taken.find(a); now = k == not_taken.end() ? 0 : k->second; } } }
  return w;
}
std::string Hex(const AM& m) { std::ostringstream o; for (auto& [a, n] : m) o << std::hex << a << ":" << std::dec << n << " "; return o.str(); }
std::string Hex(const PM& m) { std::ostringstream o; for (auto& [a, n] : m) o << std::hex << a.first << "->" << a.second << ":" << std::dec << n << " "; return o.str(); }
void Check(const dca::SampleReader& r, const PM& branch, const AM& not_taken, const AM& runs, const std::string& what) {
  PBT_EQ(Hex(PM(r.branch_count_map().begin(), r.branch_count_map().end())), Hex(branch), what << "taken branches"); PBT_EQ(Hex(AM(r.address_count_map().begin(), r.address_count_map().end())), Hex(not_taken), what << "branches not taken");
  AM got; for (auto& [g, n] : r.range_count_map()) { PBT_CHECK(g.second >= g.first && g.second - g.first < 0x100000 && g.first % 4 == 0 && g.second % 4 == 0, what << "bad range " << std::hex << g.first << "-" << g.second); PBT_CHECK(n, what << "empty range"); for (U a = g.first; a <= g.second; a += 4) got[a] += n; }
  PBT_EQ(Hex(got), Hex(runs), what << "executions of instructions");
}
Bin GenBin(Src& s) { Bin b; b.base = s.OneOf<std::string>({"app", "a.out", "c++", "x"}); b.path = s.OneOf<std::string>({"/nowhere/", "./", "", "/opt/bin/"}) + b.base; return b; }
void Read(Src& s, Case& c) {
  Bin b = GenBin(s); Rec r = GenRec(s, b); std::string f = c.Tmp("perf"); pbt::WriteFile(f, quipper::EncodeStandInPerf(r.data)); bool ok = r.mapped && r.traced && (r.branch.size() || r.not_taken.size()); auto runs = Executed(r.branch, r.not_taken); c.Describe([&] { return "binary " + b.path + "\n" + r.text; }); c.NonTrivial(r.branch.size() > 2 && r.not_taken.size() > 1); c.Label(ok ? "samples" : !r.mapped ? "not mapped" : !r.traced ? "no trace" : "no samples"); size_t pass = 0; for (auto& [a, n] : r.not_taken) pass += runs.count(a + 4); c.LabelIf(pass, "runs past a branch not taken");
  dca::SimpleSpeDataSampleReader rd(f, b.path); bool got = rd.ReadAndSetTotalCount(); PBT_EQ(got, ok, "accepted"); if (got) { Check(rd, r.branch, r.not_taken, runs, ""); U n = 0, k = 0; for (auto& [g, w] : rd.range_count_map()) { n += w * (1 + g.second - g.first); k += w; } if (!n) for (auto& [a, w] : rd.address_count_map()) { n += w; k += w; } PBT_EQ(rd.GetTotalCount(), n, "total count"); PBT_EQ(rd.GetTotalSampleCount(), k, "number of samples"); } unlink(f.c_str());
}
void Append(Src& s, Case& c) {
  Bin b = GenBin(s); PM branch; AM not_taken, runs; std::vector<std::string> fs; std::string text; dca::SimpleSpeDataSampleReader rd("", b.path); int n = 0, good = 0;
  while (s.More(n, 1, 4, 2)) { ++n; Rec r = GenRec(s, b); std::string f = c.Tmp("perf" + std::to_string(n)); fs.push_back(f); pbt::WriteFile(f, quipper::EncodeStandInPerf(r.data)); text += "file\n" + r.text; bool ok = r.mapped && r.traced && (r.branch.size() || r.not_taken.size()); if (s.Chance(1, 12)) { unlink(f.c_str()); ok = false; c.Label("missing file"); } bool got = rd.Append(f); PBT_EQ(got, ok, "accepted file " << n); if (ok) { ++good; for (auto& [k, v] : r.branch) branch[k] += v; for (auto& [k, v] : r.not_taken) not_taken[k] += v; for (auto& [k, v] : Executed(r.branch, r.not_taken)) runs[k] += v; } }
  c.Describe([&] { return "binary " + b.path + "\n" + text; }); c.NonTrivial(good > 1); Check(rd, branch, not_taken, runs, "several files: "); for (auto& f : fs) unlink(f.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P52"; su.rule = "more than two taken and more than one not-taken branch, or several good files";
  su.subs = {{"read", Read, 16000, 400000}, {"append", Append, 5000, 100000}};
  su.assumptions = {"instructions are four bytes long and aligned", "no code lies at file offset 0", "the first mapping of the binary is the one that counts"};
  return pbt::Main(argc, argv, su);
}
