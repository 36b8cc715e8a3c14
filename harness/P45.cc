// MODE: LLVM
// SOURCES: mini_disassembler.cc perfdata_reader.cc spe_tid_pid_provider.cc llvm_propeller_binary_content.cc addr2cu.cc llvm_propeller_perf_lbr_aggregator.cc llvm_propeller_file_perf_data_provider.cc llvm_propeller_statistics.cc llvm_propeller_formatting.cc llvm_propeller_cfg.cc pb:perf pb:options
// TECHNIQUE: property-based testing: instruction streams assembled by construction, each with its known class, against the classification of every sampled source
// LEVEL_NOTE: Random search over x86-64, i386 and AArch64 instruction templates (encoded here, so that class and length are known by construction), section layouts and branch counts.
#include <unistd.h>
#include "elfgen.h"
#include "pbt.h"
#include "mini_disassembler.h"
#include "llvm/Object/ObjectFile.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_perf_lbr_aggregator.h"
#include "llvm_propeller_statistics.h"
#include "quipper/perf_reader.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo;
namespace {
using U = uint64_t;
enum { kPlain, kFlow, kBad };
enum Arch { kX64, kX86, kArm };
struct Ins { std::string b; int cls; };
void Le(std::string* b, U v, int n) { for (int i = 0; i < n; ++i) *b += (char)(v >> (8 * i)); }
std::string ModRm(Src& s, int reg, bool memory, bool reg_only = false) {  // reg < 0: any
  if (reg < 0) reg = s.Draw(7); int mod = reg_only ? 3 : s.Draw(memory ? 2 : 3), rm = s.Draw(7); std::string r; r += (char)(mod << 6 | reg << 3 | rm); int disp = mod == 1 ? 1 : mod == 2 ? 4 : mod == 0 && rm == 5 ? 4 : 0;
  if (mod != 3 && rm == 4) { int sib = s.Draw(255); r += (char)sib; if (mod == 0 && (sib & 7) == 5) disp = 4; } Le(&r, s.U64(), disp); return r;
}
Ins X86(Src& s, bool x64) {
  std::string r; auto Rex = [&](int mask) { if (x64 && s.Chance(1, 2)) r += (char)(0x40 | (s.Draw(15) & mask)); }; auto Op = [&](std::initializer_list<int> l) { std::vector<int> v(l); r += (char)s.Pick(v); }; auto Imm = [&](int n) { Le(&r, s.U64(), n); };
  switch (s.Draw(23)) {
    // Plain instructions.
    case 0: r = "\x90"; return {r, kPlain};
    case 1: r = std::string("\x0f\x1f", 2) + ModRm(s, 0, true); return {r, kPlain};
    case 2: Rex(15); Op({0x89, 0x8b, 0x01, 0x03, 0x29, 0x2b, 0x31, 0x33, 0x39, 0x3b, 0x21, 0x23, 0x09, 0x0b, 0x85, 0x88, 0x8a, 0x84, 0x63}); r += ModRm(s, -1, (unsigned char)r.back() == 0x63); return {r, kPlain};
    case 3: Rex(15); r += '\x8d'; r += ModRm(s, -1, true); return {r, kPlain};
    case 4: { Rex(15); r += '\x0f'; int k = s.Draw(6); if (k < 4) r += (char)(std::vector<int>{0xb6, 0xb7, 0xbe, 0xaf}[k]); else if (k == 4) r += (char)(0x40 + s.Draw(15)); else if (k == 5) r += (char)(0x90 + s.Draw(15)); else r += '\x10'; r += ModRm(s, -1, false); return {r, kPlain}; }
    case 5: Rex(5); r += (char)(0xb8 + s.Draw(7)); if (r.size() > 1 && (r[0] & 8)) Imm(8); else Imm(4); return {r, kPlain};
    case 6: r += (char)(0x50 + s.Draw(15)); return {r, kPlain};
    case 7: Rex(15); r += '\x83'; r += ModRm(s, -1, false); Imm(1); return {r, kPlain};
    case 8: Rex(15); r += '\x81'; r += ModRm(s, -1, false); Imm(4); return {r, kPlain};
    case 9: Rex(15); r += '\xff'; r += ModRm(s, s.OneOf<int>({0, 1}), false); return {r, kPlain};
    case 10: r += '\xff'; r += ModRm(s, 6, true); return {r, kPlain};
    case 11: Rex(15); r += '\xc7'; r += ModRm(s, 0, false); Imm(4); return {r, kPlain};
    case 12: Op({0xc9, 0x98, 0x99, 0x9c, 0xf8, 0xfc, 0xa8, 0x6a}); if ((unsigned char)r[0] == 0xa8 || r[0] == 0x6a) Imm(1); return {r, kPlain};
    case 13: r += s.OneOf<char>({'\xf3', '\xf2'}); Rex(15); r += '\x0f'; Op({0x10, 0x11, 0x58, 0x59, 0x5c, 0x5e}); r += ModRm(s, -1, false); return {r, kPlain};
    // Instructions that may change the flow of control.
    case 14: r += (char)(0x70 + s.Draw(15)); Imm(1); return {r, kFlow};
    case 15: r += '\x0f'; r += (char)(0x80 + s.Draw(15)); Imm(4); return {r, kFlow};
    case 16: Op({0xe9, 0xe8}); Imm(4); return {r, kFlow};
    case 17: r += '\xeb'; Imm(1); return {r, kFlow};
    case 18: if (s.Chance(1, 4)) r += '\xf3'; r += '\xc3'; return {r, kFlow};
    case 19: r += '\xc2'; Imm(2); return {r, kFlow};
    case 20: case 21: if (s.Chance(1, 6)) r += '\x3e'; Rex(7); r += '\xff'; r += ModRm(s, s.OneOf<int>({2, 4}), false); return {r, kFlow};
    case 22: Op({0xe0, 0xe1, 0xe2, 0xe3}); Imm(1); return {r, kFlow};
    default: if (x64 && s.Bool()) Op({0x06, 0x07, 0x0e, 0x16, 0x17, 0x1e, 0x1f, 0x27, 0x2f, 0x37, 0x3f, 0x60, 0x61, 0x82, 0xce}); else { r += '\x0f'; Op({0x04, 0x0a, 0x0c}); } return {r, kBad};
  }
}
Ins Arm(Src& s) {
  uint32_t v = 0; int cls = kPlain; uint32_t any = s.U64(0xffffffff), rn = s.Draw(31) << 5, rd = s.Draw(31), rm = s.Draw(31) << 16;
  switch (s.Draw(15)) {
    case 0: v = 0xd503201f; break; case 1: v = s.OneOf<uint32_t>({0x91000000, 0xd1000000, 0x11000000, 0x51000000, 0xf1000000}) | (any & 0x3ffc00) | rn | rd; break; case 2: v = 0xd2800000 | (any & 0x1fffe0) | rd; break; case 3: v = s.OneOf<uint32_t>({0x90000000, 0x10000000}) | (any & 0x60ffffe0) | rd; break;
    case 4: v = s.OneOf<uint32_t>({0xf9400000, 0xf9000000, 0xb9400000, 0x39400000, 0x39000000}) | (any & 0x3ffc00) | rn | rd; break; case 5: v = s.OneOf<uint32_t>({0xaa000000, 0x8a000000, 0xca000000, 0x8b000000, 0xcb000000}) | rm | rn | rd; break; case 6: v = 0x9b000000 | rm | (any & 0x7c00) | rn | rd; break; case 7: v = s.OneOf<uint32_t>({0x1e602800, 0x1e600800, 0x1e604000}) | rn | rd; if ((v & 0xfffffc00) != 0x1e604000) v |= rm; break;
    case 8: v = s.OneOf<uint32_t>({0x14000000, 0x94000000}) | (any & 0x3ffffff); cls = kFlow; break; case 9: v = 0x54000000 | (any & 0xffffe0) | s.Draw(15); cls = kFlow; break; case 10: v = s.OneOf<uint32_t>({0x34000000, 0x35000000, 0xb4000000, 0xb5000000}) | (any & 0xffffe0) | rd; cls = kFlow; break; case 11: v = s.OneOf<uint32_t>({0x36000000, 0x37000000, 0xb6000000, 0xb7000000}) | (any & 0xffffe0) | rd; cls = kFlow; break;
    case 12: case 13: v = s.OneOf<uint32_t>({0xd61f0000, 0xd63f0000, 0xd65f0000}) | rn; cls = kFlow; break; case 14: v = 0x02000000 | (any & 0xe1ffffff & 0x60ffffff); cls = kBad; break; default: v = 0x06000000 | (any & 0x60ffffff); cls = kBad; break;
  }
  std::string b; Le(&b, v, 4); return {b, cls};
}
struct Code { Arch arch; elfgen::Image im; std::map<U, int> known; std::vector<U> outside; U lo = 0, hi = 0; std::string show; };
Code Gen(Src& s, bool user = false) {
  Code c; c.arch = s.OneOf<Arch>({kX64, kX64, kArm, kX86}); auto& im = c.im; im.machine = c.arch == kX64 ? 62 : c.arch == kX86 ? 3 : 183; im.is64 = c.arch != kX86; im.secs.resize(1); U a = user || c.arch == kX86 || s.Chance(3, 4) ? 0x401000 : 0xffffffff81000000ull; c.lo = a; std::ostringstream o; o << (c.arch == kX64 ? "x86-64" : c.arch == kX86 ? "i386" : "aarch64") << std::hex; int n = 0; std::vector<elfgen::Seg> segs;
  while (s.More(n, 1, 4, 1)) {
    ++n; elfgen::Sec x; x.name = s.OneOf<std::string>({".text", ".text.hot", ".init", ".plt", "other"}); int kind = n == 1 ? 0 : s.Weighted({4, 1, 1}); x.flags = kind == 1 ? 3 : 6; x.addr = a; int k = 0; o << "\nsection " << a << (kind == 1 ? " data" : kind == 2 ? " without contents" : "") << ":"; std::vector<std::pair<U, Ins>> is;
    while (s.More(k, 1, 30, 8)) { ++k; Ins i = c.arch == kArm ? Arm(s) : X86(s, c.arch == kX64); is.push_back({a, i}); a += i.b.size(); x.data += i.b; }
    if (s.Chance(1, 3)) { Ins i; do i = c.arch == kArm ? Arm(s) : X86(s, c.arch == kX64); while (i.cls == kBad); if (i.b.size() > 1 && ((unsigned char)i.b[0] | 1) != 0xf3) { i.b.resize(i.b.size() - 1); if (c.arch == kArm || (i.b.size() > 1 && ((unsigned char)i.b[0] == 0xe8 || (unsigned char)i.b[0] == 0xe9 || (unsigned char)i.b[0] == 0xc2)) || (i.b.size() == 1 && ((unsigned char)i.b[0] & 0xf0) == 0x70)) { i.cls = kBad; is.push_back({a, i}); a += i.b.size(); x.data += i.b; } } }
    for (auto& [at, i] : is) { c.known[at] = kind == 0 ? i.cls : kBad; o << "\n " << at << ":" << pbt::Hex(i.b) << (kind ? "" : i.cls == kFlow ? " flow" : i.cls == kBad ? " bad" : ""); } if (kind == 2) { x.type = 8; x.size = x.data.size(); x.data.clear(); }
    im.secs.push_back(x); c.outside.push_back(a); U gap = s.Chance(1, 3) ? 0 : 1 + s.Draw(40); if (gap > 1) c.outside.push_back(a + gap - 1); a += gap; if (c.arch == kArm) { a = (a + 3) & ~3ull; }
  }
  for (U x : c.outside) if (!c.known.count(x)) { bool in = false; for (auto& y : im.secs) in |= x >= y.addr && x < y.addr + std::max<U>(y.data.size(), y.size); if (!in) c.known[x] = kBad; } c.known[c.lo - 1] = kBad; c.hi = a;
  elfgen::Seg g; g.vaddr = g.paddr = c.lo; g.offset = 0x1000; g.filesz = g.memsz = a - c.lo; im.segs.push_back(g); for (auto& x : im.secs) if (x.addr && x.type == 1) x.want_offset = 0x1000 + (x.addr - c.lo); if (im.is64 ? c.lo >> 63 : false) im.etype = 2;
  elfgen::Sec sh; sh.name = ".shstrtab"; sh.type = 3; im.secs.push_back(sh); im.shstrndx = im.secs.size() - 1; c.show = o.str() + "\n"; return c;
}
int Classify(MiniDisassembler& d, U a) { auto r = d.MayAffectControlFlow(a); auto i = d.DisassembleOne(a); PBT_EQ(r.ok(), i.ok(), "decodable"); if (!i.ok()) return kBad; PBT_EQ(d.MayAffectControlFlow(*i), *r, "classes of one instruction"); return *r ? kFlow : kPlain; }
void Instructions(Src& s, Case& c) {
  Code code = Gen(s); std::string bytes = elfgen::Write(&code.im); c.Describe([&] { return code.show; }); auto mb = llvm::MemoryBuffer::getMemBuffer(bytes, "x", false); auto of = llvm::object::ObjectFile::createELFObjectFile(*mb); PBT_CHECK(bool(of), "object file"); auto d = MiniDisassembler::Create(of->get()); PBT_CHECK(d.ok(), d.status().ToString()); std::vector<U> as; for (auto& [a, _] : code.known) as.push_back(a); s.Shuffle(as); int n[3] = {0, 0, 0};
  for (U a : as) { int want = code.known[a]; ++n[want]; static const char* names[] = {"no branch", "a branch", "undecodable"}; int got = Classify(**d, a); PBT_CHECK(got == want, "instruction at " << std::hex << a << " is taken for " << names[got] << ", is " << names[want]); }
  c.NonTrivial(n[0] && n[1] && n[2] > 1); c.LabelIf(code.arch == kArm, "aarch64"); c.LabelIf(code.arch == kX86, "i386"); c.LabelIf(code.im.secs.size() > 3, "several sections");
}
void Weights(Src& s, Case& c) {
  Code code = Gen(s, true); while (code.arch == kX86) code = Gen(s, true); std::string path = c.Tmp("bin"); pbt::WriteFile(path, elfgen::Write(&code.im)); quipper::PerfDataProto p; auto* ev = p.add_events(); ev->mutable_header()->set_type(quipper::PERF_RECORD_MMAP); auto* m = ev->mutable_mmap_event(); m->set_pid(10); m->set_tid(10); m->set_start(0x400000); m->set_len(0x100000); m->set_pgoff(0); m->set_filename(path);
  std::vector<U> as; for (auto& [a, _] : code.known) as.push_back(a); int n = 0; std::ostringstream o; o << std::hex; std::vector<U> few; int k = 0; while (s.More(k, 1, 6, 3)) { ++k; few.push_back(s.Pick(as)); }
  while (s.More(n, 1, 8, 3)) { ++n; auto* e = p.add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE); auto* v = e->mutable_sample_event(); v->set_pid(10); v->set_tid(10); int b = 0; o << "\nstack:"; while (s.More(b, 1, 16, 6)) { ++b; auto* q = v->add_branch_stack(); U f = s.Chance(1, 8) ? s.Pick(as) : s.Pick(few), t = s.Chance(1, 8) ? 0x10 : s.Pick(as); if (s.Chance(1, 12)) f = s.OneOf<U>({0x10, ~0ull, 0xffffffff81000000ull}); q->set_from_ip(f); q->set_to_ip(t); o << " " << f << ">" << t; } }
  c.Describe([&] { return code.show + o.str() + "\n"; }); std::string perf = c.Tmp("perf"); pbt::WriteFile(perf, quipper::EncodeStandInPerf(p)); PropellerOptions opt; opt.set_binary_name(path); opt.set_ignore_build_id(true); auto content = GetBinaryContent(path); PBT_CHECK(content.ok(), content.status().ToString()); PropellerStats st; PerfLbrAggregator agg(std::make_unique<GenericFilePerfDataProvider>(std::vector<std::string>{perf})); auto r = agg.AggregateLbrData(opt, **content, st); unlink(path.c_str()); unlink(perf.c_str()); PBT_CHECK(r.ok(), r.status().ToString());
  std::map<U, int64_t> sum; for (auto& [br, w] : r->branch_counters) if (br.from != ~0ull) sum[br.from] += w; int64_t abs[3] = {0, 0, 0}, wt[3] = {0, 0, 0}; for (auto& [a, w] : sum) { auto it = code.known.find(a); int cls = it == code.known.end() ? kBad : it->second; ++abs[cls]; wt[cls] += w; }
  auto& g = st.disassembly_stats; PBT_EQ(g.may_affect_control_flow.absolute, abs[kFlow], "branch sources"); PBT_EQ(g.may_affect_control_flow.weighted, wt[kFlow], "weight of branch sources"); PBT_EQ(g.cant_affect_control_flow.absolute, abs[kPlain], "sources that cannot branch"); PBT_EQ(g.cant_affect_control_flow.weighted, wt[kPlain], "weight of sources that cannot branch"); PBT_EQ(g.could_not_disassemble.absolute, abs[kBad], "undecodable sources"); PBT_EQ(g.could_not_disassemble.weighted, wt[kBad], "weight of undecodable sources");
  c.NonTrivial(abs[kFlow] && abs[kPlain] && wt[kFlow] > abs[kFlow]); c.LabelIf(abs[kBad], "undecodable sources"); c.LabelIf(code.arch == kArm, "aarch64");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P45"; su.rule = "instructions of all three classes (instructions); sources of both decodable classes, one sampled repeatedly (weights)";
  su.assumptions = {"traps, system calls, halts and far transfers are not generated: whether they change control flow is a matter of definition", "perf's container format is replaced by a stand-in"};
  su.subs = {{"instructions", Instructions, 300000, 4000000}, {"weights", Weights, 150000, 2000000}};
  return pbt::Main(argc, argv, su);
}
