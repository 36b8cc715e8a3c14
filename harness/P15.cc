// MODE: LLVM
// SOURCES: profile.cc instruction_map.cc sample_reader.cc symbol_map.cc source_info.cc mini_disassembler.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated binaries, inline stacks and sample sets against a reference line profile
// LEVEL_NOTE: Random search over function layouts, inline stacks and overlapping ranges; the symbolizer is scripted, so any stack can occur; the binary's symbols and segments are read by the real reader.
#include <unistd.h>
#include "addr2line.h"
#include "elfgen.h"
#include "instruction_map.h"
#include "linemodel.h"
#include "profile.h"
#include "sample_reader.h"
#include "symtree.h"
#include "third_party/abseil/absl/flags/flag.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
ABSL_DECLARE_FLAG(bool, use_lbr); ABSL_DECLARE_FLAG(bool, llc_misses); ABSL_DECLARE_FLAG(double, sample_threshold_frac); ABSL_DECLARE_FLAG(bool, use_discriminator_multiply_factor); ABSL_DECLARE_FLAG(bool, use_discriminator_encoding);

namespace {
using namespace lm;
struct Scripted : dca::Addr2line {
  Scripted() : Addr2line("scripted") {}
  bool Prepare() override { return true; }
  void GetInlineStack(U a, dca::SourceStack* st) const override { auto it = stacks->find(a); if (it == stacks->end()) return; for (auto& f : it->second) st->push_back(dca::SourceInfo(pg::Intern(f.name), f.dir, f.file, f.start, f.line, f.disc)); }
  std::map<U, Stack>* stacks = nullptr;
};
struct Reader : dca::TextSampleReaderWriter {
  void Total(U n) { total_count_ = n; }
  void Time(U a, U t) { address_timestamp_map_[a] = t; }
};
Stack GenStack(Src& s, const std::string& top, uint32_t start, bool* inl) {
  static const char* names[] = {"inl0", "inl1", "inl2"}; static const char* files[] = {"a.cc", "b.h"}; Stack st; if (s.Chance(1, 9)) return st;
  int d = s.Weighted({5, 3, 2, 1}); *inl |= d > 0; bool cut = s.Chance(1, 25);
  for (int k = 0; k <= d; ++k) {
    Frame f; bool tp = k == d; f.name = tp ? top : names[s.Draw(2)]; f.start = tp ? start : 1 + s.Draw(3) * 10; f.line = f.start + s.Draw(4); f.file = files[s.Draw(1)];
    f.disc = s.Weighted({5, 2, 1}) == 0 ? 0 : s.Bool() ? s.Draw(6) : s.Bool() ? (uint32_t)s.U64(0xffffffffu) : (uint32_t)s.Draw(5) << 1 | (uint32_t)s.Draw(7) << 8;
    // Positions without a known line: the outermost ones of a stack, or all of them.
    if (s.Chance(1, 15) && k == 0) { if (s.Bool()) f.line = 0; else f.start = 0; } if (cut) f.line = 0;
    st.push_back(f);
  }
  return st;
}
void Build(Src& s, Case& c, World* w) {
  w->policy = s.OneOf<std::string>({"all", "selected", "none"});
  w->enc.enc = s.Bool(); w->enc.fs = s.Chance(1, 4); w->enc.fs_base = s.Bool(); w->enc.mul = s.Bool();
  elfgen::Image im; im.machine = 62; im.secs.resize(1); elfgen::Sec text; text.name = ".text"; text.flags = 6; text.addr = 0x1000; text.data = "\x90\x90"; im.secs.push_back(text);
  U off = s.Draw(2) * 0x1000, va = s.Bool() ? 0x400000 : s.Draw(1 << 20) & ~0xfffull; std::set<std::string> used; int nseg = s.Int(1, 3), id = 0;
  for (int g = 0; g < nseg; ++g) {
    elfgen::Seg sg; sg.flags = 5; sg.offset = off; sg.vaddr = va; U p = va; int n = 0;
    while (s.More(n, 1, 5, 3)) {
      ++n; p += s.Weighted({2, 1}) ? s.Draw(20) : 0; U len = s.Chance(1, 12) ? s.Range(40, 200) : s.Range(1, 30); Fn f; f.lo = p; f.hi = p + len; p += len; if (p - va > 0x900) break;
      std::string base = "fn" + std::to_string(w->fns.size() && s.Chance(1, 3) ? s.Draw(w->fns.size() - 1) : w->fns.size());
      f.name = base + s.OneOf<std::string>({"", "", ".cold", ".__part.1", ".llvm.77", ".isra.0", ".cold.1", ".llvm.5.__part.2"}); if (!used.insert(f.name).second) { f.name = "g" + std::to_string(id++); used.insert(f.name); }
      if (f.name.find('.') == f.name.npos && s.Chance(1, 8)) f.alias = "alias" + std::to_string(id++);
      uint32_t start = 1 + s.Draw(30); Stack st; int keep = 0; for (U q = f.lo; q < f.hi; ++q) { if (keep-- <= 0) { keep = s.Draw(5); st = GenStack(s, base, start, &w->inl); } if (!st.empty()) w->stacks[q] = st; }
      w->fns.push_back(f);
    }
    sg.filesz = sg.memsz = 0x1000; im.segs.push_back(sg); w->segs.push_back(sg); off += 0x1000 + s.Draw(3) * 0x1000; va += 0x1000 + s.Draw(4) * 0x800;
    if (s.Chance(1, 3)) { elfgen::Seg d = sg; d.flags = 6; d.offset = off; d.vaddr = va; d.filesz = 0x100; im.segs.push_back(d); off += 0x1000; va += 0x1000; }
  }
  elfgen::Sec st, str, sh; st.name = ".symtab"; st.type = 2; st.entsize = 24; st.info = 1; st.link = 3; elfgen::PutSym(&st.data, im, 0, 0, 0, 0, 0, 0, 0); str.name = ".strtab"; str.type = 3; str.data.assign(1, 0);
  auto Put = [&](const std::string& n, U lo, U size, int type) { elfgen::PutSym(&st.data, im, str.data.size(), 1, type, 0, 1, lo, size); str.data += n; str.data += '\0'; };
  for (auto& f : w->fns) { Put(f.name, f.lo, f.hi - f.lo, 2); if (f.alias.size()) Put(f.alias, f.lo, f.hi - f.lo, 2); }
  if (w->enc.fs) Put("__llvm_fs_discriminator__", 0xffffff000ull, 1, 1);
  sh.name = ".shstrtab"; sh.type = 3; im.secs.push_back(st); im.secs.push_back(str); im.secs.push_back(sh); im.shstrndx = 4;
  w->path = c.Tmp("bin"); pbt::WriteFile(w->path, elfgen::Write(&im));
}
void Feed(Src& s, const Samples& sm, Reader* rd) {
  // The same samples in any order, split over recordings.
  struct Inc { int kind; U a, b, n; }; std::vector<Inc> v; auto Put = [&](int k, U a, U b, U n) { if (n > 1 && s.Chance(1, 4)) { U x = 1 + s.Draw(std::min<U>(n - 2, 1000000)); v.push_back({k, a, b, x}); n -= x; } v.push_back({k, a, b, n}); };
  for (auto& [x, n] : sm.addr) Put(0, x, 0, n); for (auto& [x, n] : sm.range) Put(1, x.first, x.second, n); for (auto& [x, n] : sm.branch) Put(2, x.first, x.second, n);
  if (s.Bool()) s.Shuffle(v); Reader part[3]; int np = s.Int(0, 3);
  for (auto& i : v) { int k = np ? s.Draw(np) : 0; Reader& r = k ? part[k - 1] : *rd; if (i.kind == 0) r.IncAddress(i.a, i.n); else if (i.kind == 1) r.IncRange(i.a, i.b, i.n); else r.IncBranch(i.a, i.b, i.n); }
  for (auto& p : part) rd->Merge(p); for (auto& [x, t] : sm.time) rd->Time(x, t);
}
void Flags(const World& w, bool lbr, bool llc) { absl::SetFlag(&FLAGS_use_lbr, lbr); absl::SetFlag(&FLAGS_llc_misses, llc); absl::SetFlag(&FLAGS_use_discriminator_multiply_factor, w.enc.mul); absl::SetFlag(&FLAGS_use_discriminator_encoding, w.enc.enc); }
void Compare(const World& w, dca::SymbolMap& m, const st::Map& raw) {
  st::Map want = Folded(w, raw), got = st::From(m);
  for (auto& f : w.fns) if (f.alias.size() && raw.count(f.name)) { PBT_CHECK(got.count(f.alias), "the second name " << f.alias << " of " << f.name << " is missing"); PBT_CHECK(m.map().at(f.alias) == m.map().at(f.name), f.alias << " and " << f.name << " are not one function"); got.erase(f.alias); }
  st::DiffOpt o; o.files = false; std::string d = st::Diff(got, want, o); PBT_CHECK(d.empty(), d);
}

void LinesCase(Src& s, Case& c) {
  World w; Build(s, c, &w); Scripted a; a.stacks = &w.stacks; bool lbr = s.Chance(2, 3); Samples sm = GenSamples(s, w, lbr);
  for (auto& [x, k] : sm.addr) if (s.Chance(1, 3)) sm.time[x] = s.Draw(3) ? 1000 + s.Draw(1000) : 0;
  U total = s.Bool() ? 0 : Count(s); double frac = s.OneOf<double>({0.0, 0.0, 0.5, 0.25, 1.0}); absl::SetFlag(&FLAGS_sample_threshold_frac, frac);
  Flags(w, lbr, false); U threshold = std::max<U>(10, (U)(total * frac));
  dca::SymbolMap m(w.path); m.set_suffix_elision_policy(w.policy); m.ReadLoadableExecSegmentInfo(false); PBT_EQ(dca::SourceInfo::use_fs_discriminator, w.enc.fs, "flow-sensitive discriminators"); dca::SourceInfo::use_base_only_in_fs_discriminator = w.enc.fs_base;
  Reader rd; Feed(s, sm, &rd); rd.Total(total);
  Result r = Lines(w, sm, lbr, threshold); if (r.odd) throw pbt::Discard(); st::Map& raw = r.raw;
  c.NonTrivial(raw.size() && w.inl && (lbr ? r.multi > 0 : sm.addr.size() > 2)); c.LabelIf(lbr, "ranges"); c.LabelIf(!lbr, "addresses"); c.LabelIf(r.heads, "entered functions"); c.LabelIf(r.targets, "call targets"); c.LabelIf(raw.size() < w.fns.size() && raw.size(), "some functions too cold"); c.LabelIf(r.unsampled, "emitted without ranges"); c.LabelIf(w.segs.size() > 1, "several segments");
  size_t fold = 0; for (auto& [x, y] : raw) fold += w.Base(x) != x; c.LabelIf(fold, "folded names");
  c.Describe([&] { return (lbr ? "ranges, threshold " : "addresses, threshold ") + std::to_string(threshold) + " " + Text(w, sm); });
  { dca::Profile p(&rd, w.path, &a, &m); p.ComputeProfile(); }
  PBT_EQ(m.count_threshold(), (int64_t)threshold, "threshold"); Compare(w, m, raw);
  for (auto& f : w.fns) if (raw.count(f.name) && w.Base(f.name) == f.name) { int same = 0; for (auto& g : w.fns) same += raw.count(g.name) && w.Base(g.name) == f.name; if (same > 1) continue; U t = m.map().at(f.name)->timestamp; auto& ts = r.times[f.name]; PBT_CHECK(ts.empty() ? t == 0 : ts.count(t), f.name << " has time " << t << ", recorded " << pbt::ToText(ts, 0)); }
  unlink(w.path.c_str());
}

// Cache-miss profiles: every located address becomes a count at its position.
void Misses(Src& s, Case& c) {
  World w; Build(s, c, &w); Scripted a; a.stacks = &w.stacks; Samples sm; int n = 0; while (s.More(n, 0, 25, 10)) { ++n; U v = Spot(s, w); sm.addr[w.Offset(v)] += Count(s); }
  absl::SetFlag(&FLAGS_sample_threshold_frac, 0.0); Flags(w, true, true);
  dca::SymbolMap m(w.path); m.set_suffix_elision_policy(w.policy); m.ReadLoadableExecSegmentInfo(false); dca::SourceInfo::use_base_only_in_fs_discriminator = w.enc.fs_base; auto own = std::make_unique<Scripted>(); own->stacks = a.stacks; m.set_addr2line(std::move(own));
  Reader rd; Feed(s, sm, &rd);
  st::Map raw; std::set<std::string> located; size_t hit = 0, skipped = 0;
  for (auto& [o, k] : sm.addr) { U v = w.Vaddr(o); if (Mark(w, &raw, v, "__llc_misses__", k)) ++hit; else ++skipped; }
  c.NonTrivial(hit > 2 && w.inl); c.LabelIf(skipped, "addresses without position"); c.LabelIf(raw.size() > 1, "several functions"); c.Describe([&] { return Text(w, sm); });
  { dca::Profile p(&rd, w.path, &a, &m); p.ComputeProfile(); }
  st::Map want = Folded(w, raw), got = st::From(m);
  for (auto& f : w.fns) { if (f.alias.size()) got.erase(f.alias); }
  // Functions without any located address may appear without counts.
  for (auto it = got.begin(); it != got.end();) if (!want.count(it->first) && it->second.pos.empty() && it->second.calls.empty() && !it->second.total) it = got.erase(it); else ++it;
  st::DiffOpt o; o.files = false; o.totals = false; std::string d = st::Diff(got, want, o); PBT_CHECK(d.empty(), d);
  for (auto& [x, y] : want) PBT_CHECK(m.ShouldEmit(got[x].total), x << " has located misses but a total of " << got[x].total << ", so that it is not written");
  unlink(w.path.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P15";
  su.rule = "lines: a function is emitted, inlining occurs, and some byte is covered by more than one range (or, without ranges, more than two sampled addresses); misses: more than two located addresses and inlining";
  su.assumptions = {"functions at different addresses have different names (the profile is keyed by name)", "sampled file offsets are not below the first code segment", "a stack's unknown frames are its innermost one or all of them"};
  su.subs = {{"lines", LinesCase, 80000, 1500000}, {"misses", Misses, 60000, 1000000}};
  return pbt::Main(argc, argv, su);
}
