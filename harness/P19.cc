// MODE: LLVM
// SOURCES: branch_frequencies_autofdo_sample.cc spe_sample_reader.cc sample_reader.cc symbol_map.cc source_info.cc util/symbolize/elf_reader.cc perfdata_reader.cc spe_tid_pid_provider.cc mini_disassembler.cc llvm_propeller_file_perf_data_provider.cc llvm_propeller_binary_content.cc addr2cu.cc pb:perf
// TECHNIQUE: property-based testing: generated code layouts and branch frequencies against a per-instruction flow model, directly and through AArch64 binaries with generated trace recordings
// LEVEL_NOTE: Random search. Targets are instruction aligned; ranges are compared by the instructions they cover, so any split of equal flow is accepted.
#include <map>
#include <unistd.h>
#include "branch_frequencies_autofdo_sample.h"
#include "elfgen.h"
#include "pbt.h"
#include "quipper/arm_spe_decoder.h"
#include "quipper/perf_reader.h"
#include "spe_sample_reader.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
namespace {
constexpr uint64_t kBad = dca::kInvalidBinaryAddress;
struct Freq { std::map<std::pair<uint64_t, uint64_t>, int64_t> taken; std::map<uint64_t, int64_t> not_taken; };
// What each instruction executes: what branches bring in plus what falls through from the instruction before it.
std::map<int64_t, int64_t> Flow(const Freq& f, int step, const std::function<bool(int64_t)>& branch) {
  std::map<int64_t, int64_t> in, w; for (auto& [b, n] : f.taken) if (b.second != kBad && n > 0) in[b.second] += n; if (in.empty()) return w;
  int64_t carry = 0, end = in.rbegin()->first + 0x1000;
  for (auto i = in.begin(); i != in.end();) { int64_t a = i->first; carry = 0; for (; a < end; a += step) { if (i != in.end() && i->first == a) { carry += i->second; ++i; } if (carry <= 0) break; w[a] = carry; if (branch(a)) { auto n = f.not_taken.find(a); carry = n == f.not_taken.end() ? 0 : n->second; } } }
  return w;
}
// The instructions the ranges cover, with their counts; every range must stop at the first branch in it.
std::map<int64_t, int64_t> Cover(const dca::RangeCountMap& ranges, int step, const std::function<int64_t(uint64_t)>& back, const std::function<bool(int64_t)>& branch) {
  std::map<int64_t, int64_t> w;
  for (auto& [r, n] : ranges) {
    int64_t b = back(r.first), e = back(r.second); PBT_CHECK(r.first <= r.second && b <= e, "range " << std::hex << r.first << "-" << r.second << " runs backwards"); PBT_CHECK((e - b) % step == 0, "range " << std::hex << b << "-" << e << " does not end at an instruction");
    for (int64_t a = b; a <= e; a += step) { w[a] += n; PBT_CHECK(a == e || !branch(a), "range " << std::hex << b << "-" << e << " crosses the branch at " << a); }
  }
  return w;
}
std::string Show(const std::map<int64_t, int64_t>& w) { std::ostringstream o; o << std::hex; int64_t last = 0; int more = 0; for (auto& [a, n] : w) { if (n && n != last) { if (++more > 60) { o << "..."; break; } o << a << ":" << std::dec << n << std::hex << " "; } last = n; } return o.str(); }
std::string Show(const Freq& f) { std::ostringstream o; for (auto& [b, n] : f.taken) o << std::hex << b.first << "->" << b.second << ":" << std::dec << n << " "; o << "not taken "; for (auto& [a, n] : f.not_taken) o << std::hex << a << ":" << std::dec << n << " "; return o.str(); }
void Compare(const Freq& f, const dca::BranchCountMap& branches, const dca::RangeCountMap& ranges, int step, const std::function<uint64_t(int64_t)>& fwd, const std::function<int64_t(uint64_t)>& back, const std::function<bool(int64_t)>& branch) {
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> want; for (auto& [b, n] : f.taken) if (b.first != kBad && b.second != kBad) want[{fwd(b.first), fwd(b.second)}] += n;
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> got(branches.begin(), branches.end()); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(want, 0), "branch counts");
  auto got_w = Cover(ranges, step, back, branch), want_w = Flow(f, step, branch); for (auto i = got_w.begin(); i != got_w.end();) i = i->second == 0 ? got_w.erase(i) : std::next(i);
  if (got_w != want_w) { PBT_EQ(Show(got_w), Show(want_w), "execution counts of the instructions"); PBT_CHECK(false, "execution counts of the instructions differ"); }
}
void Convert(Src& s, Case& c) {
  int step = s.OneOf({4, 1, 2, 8}), n = 1 + s.Draw(s.Chance(1, 8) ? 1500 : 60); uint64_t base = s.OneOf<uint64_t>({0x1000, 0, 0x400000, 1ull << 46}); if (base == 0) base = step * s.Draw(4);
  std::vector<char> kind(n); for (auto& k : kind) k = s.Weighted({5, 2, 1});  // plain, branch, cannot be decoded
  auto branch = [&](int64_t a) { int64_t i = (a - (int64_t)base) / step; return i < 0 || i >= n || kind[i] != 0; };
  Freq f; int nb = 0; auto At = [&] { return base + step * s.Draw(n - 1); }; auto Count = [&]() -> int64_t { return s.Chance(1, 30) ? 0 : 1 + (s.Chance(1, 5) ? s.U64(1ull << 40) : s.Draw(20)); };
  while (s.More(nb, 0, 25, 8)) { ++nb; uint64_t from = s.Chance(1, 8) ? kBad : At(), to = s.Chance(1, 8) ? kBad : At(); f.taken[{from, to}] += Count(); }
  for (int i = 0; i < n; ++i) if (kind[i] && s.Chance(1, 2)) f.not_taken[base + step * i] = Count(); if (s.Chance(1, 6)) f.not_taken[s.Chance(1, 3) ? kBad : At()] = Count();
  // Parts of the code are mapped to symbol offsets by different shifts that keep the order.
  std::vector<std::pair<int64_t, int64_t>> shift = {{INT64_MIN, s.OneOf<int64_t>({0, -(int64_t)base, 0x5000})}}; if (s.Bool()) { int64_t at = At(); if (at > (int64_t)base) shift.push_back({at, shift[0].second + 0x100000}); }
  auto fwd = [&](int64_t a) -> int64_t { for (size_t i = shift.size(); i-- > 0;) if (a >= shift[i].first) return a + shift[i].second; return a; };
  auto back = [&](uint64_t o) -> int64_t { for (size_t i = shift.size(); i-- > 0;) { int64_t a = (int64_t)o - shift[i].second; if (a >= shift[i].first) return a; } return (int64_t)o; };
  c.Describe([&] { std::ostringstream o; o << "step " << step << " base " << std::hex << base << " code "; for (char k : kind) o << "-BX"[(int)k]; o << " " << Show(f) << " shifts " << shift.size(); return o.str(); });
  size_t in = 0, passed = 0; for (auto& [b, x] : f.taken) in += b.second != kBad; for (auto& [a, x] : f.not_taken) passed += a != kBad && branch(a); c.NonTrivial(in > 1 && passed > 0); c.LabelIf(step != 4, "other instruction size"); c.LabelIf(shift.size() > 1, "two code parts"); c.LabelIf(in && n * step > 0x1000, "long code");
  dca::BranchFrequencies bf; for (auto& [b, x] : f.taken) bf.taken_branch_counters[{.from = b.first, .to = b.second}] = x; for (auto& [a, x] : f.not_taken) bf.not_taken_branch_counters[{.address = a}] = x;
  auto may = [&](int64_t a) -> absl::StatusOr<bool> { int64_t i = (a - (int64_t)base) / step; PBT_CHECK((a - (int64_t)base) % step == 0, "asked about " << std::hex << a << ", not an instruction"); if (i < 0 || i >= n || kind[i] == 2) return absl::FailedPreconditionError("cannot decode"); return kind[i] == 1; };
  auto r = dca::ConvertBranchFrequenciesToAutofdoRangeSample(bf, may, fwd, step); PBT_CHECK(r.ok(), r.status()); if (shift.size() > 1) { dca::RangeCountMap same; for (auto& [q, x] : r->range_counts) if ((back(q.first) >= shift[1].first) == (back(q.second) >= shift[1].first)) same[q] = x; else { int64_t b = back(q.first), e = back(q.second); same[{fwd(b), fwd(shift[1].first - step)}] += x; same[{fwd(shift[1].first), fwd(e)}] += x; } r->range_counts = same; }
  Compare(f, r->branch_counts, r->range_counts, step, fwd, back, branch);
}
// A64 words with what they are.
struct Word { uint32_t w; bool branch; };
const std::vector<Word>& Words() { static std::vector<Word> v = {{0xd503201f, false}, {0x8b020020, false}, {0xf9400020, false}, {0xaa0103e0, false}, {0x1e602820, false}, {0x14000002, true}, {0x94000004, true}, {0xd65f03c0, true}, {0x54000040, true}, {0xb4000040, true}, {0x36000040, true}, {0xd61f0020, true}, {0xd63f0020, true}, {0xffffffff, true}}; return v; }
struct Part { uint64_t offset, vaddr, start, sym; std::vector<Word> code; };
void Recording(Src& s, Case& c) {
  using quipper::ArmSpeDecoder; bool pie = s.Bool(); std::vector<Part> parts(1 + s.Draw(1)); std::string bid = s.Chance(2, 3) ? s.Bytes(20) : ""; bool disas = s.Bool(), kernel = s.Chance(1, 5); if (kernel) pie = s.Chance(1, 4); uint64_t off = 0x1000, va = pie ? 0x1000 : 0x400000, run = 0x700000000000;
  elfgen::Image im; im.machine = 183; im.etype = pie ? 3 : 2; im.secs.resize(1);
  for (auto& p : parts) {
    p.offset = off; p.vaddr = va; p.sym = kernel ? off - parts[0].offset : off; p.start = kernel ? 0xffffffff81000000ull + p.sym : pie ? run + va : va; int n = 4 + s.Draw(50); for (int i = 0; i < n; ++i) { auto& W = Words(); p.code.push_back(s.Bool() ? W[s.Draw(4)] : W[s.Draw(W.size() - 1)]); }
    elfgen::Sec t; t.name = im.secs.size() == 1 ? ".text" : ".text.b"; t.flags = 6; t.addr = va; t.align = 4; t.want_offset = off; for (auto& w : p.code) elfgen::Put(&t.data, w.w, 4, false); im.secs.push_back(t); uint64_t sz = t.data.size(); im.segs.push_back({1, 5, off, va, va, sz, sz, 0x1000}); off += 0x1000 + (s.Bool() ? 0x3000 : 0); va = (va & ~0xfffull) + (off - p.offset) + (disas && s.Bool() ? 0x2000 : 0); if (s.Bool()) run += 0x10000;
  }
  if (bid.size()) { elfgen::Sec n; n.name = ".note.gnu.build-id"; n.type = 7; n.flags = 2; n.align = 4; elfgen::Put(&n.data, 4, 4, false); elfgen::Put(&n.data, bid.size(), 4, false); elfgen::Put(&n.data, 3, 4, false); n.data += std::string("GNU\0", 4) + bid; im.secs.push_back(n); }
  elfgen::Sec sym; sym.name = ".symtab"; sym.type = 2; sym.align = 8; sym.entsize = 24; sym.info = 1; sym.link = im.secs.size() + 1; elfgen::PutSym(&sym.data, im, 0, 0, 0, 0, 0, 0, 0); elfgen::PutSym(&sym.data, im, 1, 1, 2, 0, 1, parts[0].vaddr, 8); im.secs.push_back(sym);
  elfgen::Sec str; str.name = ".strtab"; str.type = 3; str.data = std::string("\0f\0", 3); im.secs.push_back(str); elfgen::Sec sh; sh.name = ".shstrtab"; sh.type = 3; im.secs.push_back(sh); im.shstrndx = im.secs.size() - 1;
  bool other_machine = s.Chance(1, 15); if (other_machine) im.machine = 62;
  std::string exe = c.Tmp("app"); pbt::WriteFile(exe, elfgen::Write(&im));
  quipper::PerfDataProto d; auto Add = [&](int type) { auto* e = d.add_events(); e->mutable_header()->set_type(type); return e; }; auto MMap = [&](int pid, const std::string& name, uint64_t start, uint64_t len, uint64_t pgoff) { auto* m = Add(quipper::PERF_RECORD_MMAP)->mutable_mmap_event(); m->set_pid(pid); m->set_tid(pid); m->set_filename(name); m->set_start(start); m->set_len(len); m->set_pgoff(pgoff); };
  std::string name = kernel ? "[kernel.kallsyms]_text" : "/opt/bin/app_x"; if (kernel) MMap(-1, name, parts[0].start, parts.back().sym + 0x1000, s.Bool() ? parts[0].start : s.Draw(0x3000)); else for (auto& p : parts) MMap(42, name, p.start, 0x1000, p.offset); MMap(42, "/lib/libc.so", 0x7f0000000000, 0x10000, 0); MMap(43, "/opt/bin/other", parts[0].start, 0x1000, 0x1000);
  if (bid.size()) { auto* b = d.add_build_ids(); b->set_filename(kernel ? "[kernel.kallsyms]" : name); b->set_build_id_hash(bid); b = d.add_build_ids(); b->set_filename("/opt/bin/other"); b->set_build_id_hash(s.Bytes(20)); }
  Freq f; std::string trace; int nr = 0; size_t in = 0, passed = 0, foreign = 0;
  auto Addr = [&](uint64_t* bin) { if (s.Chance(1, 8)) { *bin = kBad; return 0x7f0000000100 + 4 * s.Draw(8); } auto& p = s.Pick(parts); uint64_t o = 4 * s.Draw(p.code.size() - 1); *bin = p.vaddr + o; return p.start + o; };
  while (s.More(nr, 0, 60, 20)) {
    ++nr; ArmSpeDecoder::Record r; r.event.retired = !s.Chance(1, 10); r.op.is_br_eret = !s.Chance(1, 10); r.context.el1 = true; r.context.id = s.Chance(1, 10) ? 43 : 42; uint64_t from, to; r.ip.addr = Addr(&from); r.tgt_br_ip.addr = Addr(&to); r.op.br_eret.br_cond = s.Bool(); r.event.cond_not_taken = s.Chance(1, 3); r.timestamp = nr; trace += ArmSpeDecoder::Encode(r);
    if (!r.event.retired || !r.op.is_br_eret || (r.context.id != 42 && !kernel)) { ++foreign; continue; } if (r.op.br_eret.br_cond && r.event.cond_not_taken) { f.not_taken[from]++; ++passed; } else { f.taken[{from, to}]++; in += to != kBad; }
    if (s.Chance(1, 15)) { Add(quipper::PERF_RECORD_AUXTRACE)->mutable_auxtrace_event()->set_trace_data(trace); trace.clear(); }
  }
  Add(quipper::PERF_RECORD_AUXTRACE)->mutable_auxtrace_event()->set_trace_data(trace); std::string pd = c.Tmp("perf"); pbt::WriteFile(pd, quipper::EncodeStandInPerf(d));
  c.Describe([&] { std::ostringstream o; o << (kernel ? "kernel " : "") << (disas ? "disassembly" : "sampling") << (pie ? " pie" : "") << " build id " << bid.size(); for (auto& p : parts) { o << " part at " << std::hex << p.vaddr << " offset " << p.offset << ":"; for (auto& w : p.code) o << (w.w == 0xffffffff ? 'X' : w.branch ? 'B' : '-'); } o << " " << Show(f); return o.str(); });
  dca::PerfSpeDataSampleReader rd(disas ? dca::PerfSpeDataSampleReader::BranchIdStrategy::kDisassembly : dca::PerfSpeDataSampleReader::BranchIdStrategy::kSampling, pd, "app_x$|^.kernel.kallsyms._text$", exe); bool ok = rd.ReadAndSetTotalCount(), again = s.Chance(1, 4); if (ok && again) { PBT_CHECK(rd.Append(pd), "the recording was not read again"); for (auto& [b, n] : f.taken) n *= 2; for (auto& [a, n] : f.not_taken) n *= 2; } unlink(exe.c_str()); unlink(pd.c_str());
  if (other_machine) { PBT_CHECK(!ok, "a binary for another machine accepted"); PBT_CHECK(rd.branch_count_map().empty() && rd.range_count_map().empty(), "counts from a refused binary"); c.Label("another machine"); return; }
  PBT_CHECK(ok, "the recording was not read"); c.Label(disas ? "disassembly" : "sampling"); c.LabelIf(pie, "position independent"); c.LabelIf(kernel, "kernel"); c.LabelIf(again, "read twice"); c.LabelIf(parts.size() > 1, "two code parts"); c.LabelIf(foreign, "other records"); c.NonTrivial(in > 1 && passed);
  std::set<uint64_t> sampled; for (auto& [b, n] : f.taken) sampled.insert(b.first); for (auto& [a, n] : f.not_taken) sampled.insert(a);
  auto branch = [&](int64_t a) { if (!disas) return sampled.count(a) > 0; for (auto& p : parts) if (a >= (int64_t)p.vaddr && a < (int64_t)(p.vaddr + 4 * p.code.size())) return p.code[(a - p.vaddr) / 4].branch; return true; };
  auto part = [&](uint64_t x, bool by_off) -> Part& { for (size_t i = parts.size(); i-- > 0;) if (x >= (by_off ? parts[i].sym : parts[i].vaddr)) return parts[i]; return parts[0]; };
  auto fwd = [&](int64_t a) -> uint64_t { auto& p = part(a, false); return a - p.vaddr + p.sym; }; auto back = [&](uint64_t o) -> int64_t { auto& p = part(o, true); return o - p.sym + p.vaddr; };
  Compare(f, rd.branch_count_map(), rd.range_count_map(), 4, fwd, back, branch);
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P19"; su.scale = 2; su.rule = "at least two targets in the code and at least one branch with a not-taken count";
  su.subs = {{"convert", Convert, 400000, 3000000}, {"recording", Recording, 24000, 80000}};
  su.assumptions = {"branch targets are instruction aligned", "the mapping to symbol offsets keeps the order of addresses", "after the last target the flow is followed for 0x1000 bytes"};
  return pbt::Main(argc, argv, su);
}
