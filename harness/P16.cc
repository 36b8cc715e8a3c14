// MODE: LLVM
// SOURCES: instruction_map.cc symbol_map.cc source_info.cc
// TECHNIQUE: property-based testing: generated programs behind a scripted symbolizer, against a reference attribution model
// LEVEL_NOTE: Random search over function layouts and inline stacks; the symbolizer is scripted, so any stack can occur. Stacks with an unknown frame between known ones are used for the map only.
#include "addr2line.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "instruction_map.h"
#include "profgen.h"
#include "source_info.h"
#include "third_party/abseil/absl/flags/flag.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;

namespace {
struct Frame { std::string func, dir, file; uint32_t start, line, disc; bool operator==(const Frame& o) const { return func == o.func && dir == o.dir && file == o.file && start == o.start && line == o.line && disc == o.disc; } bool Invalid() const { return start == 0 || line == 0; } };
using Stack = std::vector<Frame>;
std::string Show(const Stack& s) { std::string r = "["; for (auto& f : s) r += f.func + "(" + f.dir + "/" + f.file + " start " + std::to_string(f.start) + " line " + std::to_string(f.line) + "." + std::to_string(f.disc) + ") "; return r + "]"; }
Stack FromSource(const dca::SourceStack& s) { Stack r; for (auto& i : s) r.push_back({i.func_name ? i.func_name : "<null>", i.dir_name, i.file_name, i.start_line, i.line, i.discriminator}); return r; }

struct Scripted : dca::Addr2line {
  Scripted() : Addr2line("scripted") {}
  bool Prepare() override { return true; }
  void GetInlineStack(uint64_t a, dca::SourceStack* st) const override { auto it = stacks.find(a); if (it == stacks.end()) return; for (auto& f : it->second) st->push_back(dca::SourceInfo(pg::Intern(f.func), f.dir, f.file, f.start, f.line, f.disc)); }
  std::map<uint64_t, Stack> stacks;
};

// LLVM's discriminator encoding, from its documentation.
uint32_t Component(uint32_t d) { if (d & 1) return 0; d >>= 1; return d & 0x20 ? ((d >> 1) & 0xfe0) | (d & 0x1f) : d & 0x1f; }
uint32_t Rest(uint32_t d) { return d & 1 ? d >> 1 : d >> (d & 0x40 ? 14 : 7); }
bool g_enc, g_fs, g_fs_base;
uint32_t Base(uint32_t d) { bool base = g_fs ? g_fs_base : g_enc; return !base ? d : (d & 7) == 7 ? llvm::DILocation::getBaseDiscriminatorFromDiscriminator(d) /* pseudo-probe id: LLVM's own decoding */ : Component(d); }
uint64_t Key(const Frame& f) { return (uint64_t)(uint32_t)(f.line - f.start) << 32 | Base(f.disc); }
void Mode(Src& s, Case& c) {
  g_enc = s.Bool(); g_fs = s.Chance(1, 3); g_fs_base = s.Bool(); absl::SetFlag(&FLAGS_use_discriminator_encoding, g_enc);
  absl::SetFlag(&FLAGS_use_fs_discriminator, g_fs); absl::SetFlag(&FLAGS_use_base_only_in_fs_discriminator, g_fs_base);
  dca::SourceInfo::use_fs_discriminator = g_fs; dca::SourceInfo::use_base_only_in_fs_discriminator = g_fs_base;
  c.Label(std::string(g_fs ? "fs discriminators" : g_enc ? "encoded discriminators" : "plain discriminators"));
}
uint32_t Disc(Src& s) { switch (s.Weighted({4, 3, 2})) { case 0: return 0; case 1: return s.Draw(20); default: return (uint32_t)s.U64(0xffffffffu); } }

struct Node { uint64_t insts = 0; };
struct Ref { std::map<uint64_t, uint64_t> insts; std::map<std::pair<uint64_t, std::string>, Ref> calls; };
std::string Compare(const dca::Symbol& got, const Ref& want, const std::string& path) {
  std::ostringstream o;
  if (got.total_count || got.head_count) { o << path << ": counts without samples"; return o.str(); }
  for (auto& [k, n] : want.insts) { auto it = got.pos_counts.find(k); if (it == got.pos_counts.end() || it->second.num_inst != n || it->second.count) { o << path << ": position " << (k >> 32) << "." << (uint32_t)k << " has " << (it == got.pos_counts.end() ? -1 : (int64_t)it->second.num_inst) << " instructions, want " << n; return o.str(); } }
  for (auto& [k, p] : got.pos_counts) if (!want.insts.count(k)) { o << path << ": unexpected position " << (k >> 32) << "." << (uint32_t)k; return o.str(); }
  for (auto& [k, r] : want.calls) { bool found = false; for (auto& [cs, sy] : got.callsites) if (cs.location == k.first && k.second == cs.callee_name) { found = true; std::string d = Compare(*sy, r, path + "/" + k.second); if (!d.empty()) return d; } if (!found) { o << path << ": inlined " << k.second << " at " << (k.first >> 32) << "." << (uint32_t)k.first << " is missing"; return o.str(); } }
  if (got.callsites.size() != want.calls.size()) { o << path << ": " << got.callsites.size() << " inlined calls, want " << want.calls.size(); return o.str(); }
  return "";
}

void Map(Src& s, Case& c) {
  Mode(s, c);
  int nf = s.Int(1, 5); uint64_t base = s.Chance(1, 4) ? s.U64(~0ull - (1 << 20)) : s.Draw(1 << 24), cur = base;
  Scripted a; struct Fn { std::string name; uint64_t lo, hi; }; std::vector<Fn> fns; bool odd = false, inl = false, gaps = false; size_t bytes = 0;
  static const char* names[] = {"f", "g", "h", "inl1", "inl2", "_ZN1A3fooEv"}; static const char* files[] = {"a.cc", "", "b.h", "c.cc"}; static const char* dirs[] = {"", "d", "/x/y"};
  for (int i = 0; i < nf; ++i) {
    cur += s.Chance(1, 3) ? s.Draw(40) : 0; uint64_t len = s.Chance(1, 8) ? s.Draw(400) : s.Range(1, 40); std::string name = "fn" + std::to_string(s.Chance(1, 6) && i ? i - 1 : i);
    uint64_t top_start = 1 + s.Draw(50); std::string top_file = files[s.Draw(3)], top_dir = top_file.empty() ? "" : dirs[s.Draw(2)];
    Stack st; int keep = 0;
    for (uint64_t p = cur; p < cur + len; ++p) {
      if (keep-- <= 0) {
        keep = s.Draw(6); st.clear();
        if (!s.Chance(1, 8)) {
          int d = s.Weighted({5, 3, 2, 1});
          for (int k = 0; k <= d; ++k) { Frame f; bool top = k == d; f.func = top ? name : names[s.Draw(5)]; f.start = top ? top_start : s.Chance(1, 12) ? 0 : 1 + s.Draw(100); f.line = s.Chance(1, 20) ? 0 : s.Chance(1, 10) ? s.Range(1, 70000) : f.start + s.Draw(20); f.disc = Disc(s); f.file = top ? top_file : files[s.Draw(3)]; f.dir = f.file.empty() ? "" : top ? top_dir : dirs[s.Draw(2)]; st.push_back(f); }
          inl |= d > 0; for (int k = 1; k <= d; ++k) if (st[k].Invalid() && !st[0].Invalid()) { odd = true; }
        } else gaps = true;
      }
      if (!st.empty()) a.stacks[p] = st;
    }
    fns.push_back({name, cur, cur + len}); bytes += len; cur += len;
  }
  c.NonTrivial(inl && bytes > 10); c.LabelIf(odd, "unknown frame inside"); c.LabelIf(gaps, "unattributed instructions"); c.LabelIf(nf > 1, "several functions");
  c.Describe([&] { std::string r; for (auto& f : fns) { char b[100]; snprintf(b, sizeof b, "%s [0x%llx,0x%llx) ", f.name.c_str(), (unsigned long long)f.lo, (unsigned long long)f.hi); r += b; } r += "\n"; for (auto& [p, st] : a.stacks) { char b[30]; snprintf(b, sizeof b, "%llx ", (unsigned long long)p); r += b + Show(st) + "\n"; if (r.size() > 1000) break; } return r; });
  dca::SymbolMap m; dca::SourceInfo::use_fs_discriminator = g_fs; dca::SourceInfo::use_base_only_in_fs_discriminator = g_fs_base; for (auto& f : fns) m.AddSymbol(f.name);
  std::vector<std::unique_ptr<dca::InstructionMap>> maps; std::map<std::string, Ref> want; std::map<std::string, std::pair<std::string, std::string>> file;
  for (auto& f : fns) want[f.name];
  for (size_t i = 0; i < fns.size(); ++i) {
    auto& f = fns[i]; maps.push_back(std::make_unique<dca::InstructionMap>(&a, &m));
    if (s.Chance(1, 5)) { uint64_t lo = f.lo + s.Draw(3); maps[i]->BuildPerFunctionInstructionMap(f.name, lo, s.Bool() ? lo : f.lo); PBT_CHECK(maps[i]->lookup(f.lo) == nullptr, "an empty range covers no address"); }
    maps[i]->BuildPerFunctionInstructionMap(f.name, f.lo, f.hi);
    for (uint64_t p = f.lo; p < f.hi; ++p) {
      auto it = a.stacks.find(p); if (it == a.stacks.end()) continue; auto& st = it->second; if (file[f.name].first.empty() && !st.back().file.empty()) file[f.name] = {st.back().file, st.back().dir};
      Ref* r = &want[f.name]; bool cut = false; for (size_t k = st.size() - 1; k > 0; --k) { if (st[k].Invalid()) { cut = true; break; } r = &r->calls[{Key(st[k]), st[k - 1].func}]; }
      if (!st[0].Invalid() && !cut) r->insts[Key(st[0])]++;
    }
  }
  for (size_t i = 0; i < fns.size(); ++i) {
    auto& f = fns[i];
    for (uint64_t p = f.lo; p < f.hi; ++p) { auto* info = maps[i]->lookup(p); PBT_CHECK(info != nullptr, f.name << ": no entry for its address +" << p - f.lo); auto it = a.stacks.find(p); Stack w = it == a.stacks.end() ? Stack() : it->second; Stack g = FromSource(info->source_stack); PBT_CHECK(g == w, f.name << "+" << p - f.lo << ": stack is " << Show(g) << ", the symbolizer says " << Show(w)); PBT_CHECK(info == maps[i]->lookup(p), "lookups agree"); }
    for (uint64_t q : std::initializer_list<uint64_t>{f.lo - 1, f.hi, f.hi + 1, f.lo - 1000, f.hi + (1ull << 32), f.lo + (1ull << 32), f.lo + (1ull << 63), (uint64_t)0, ~0ull}) if (q < f.lo || q >= f.hi) PBT_CHECK(maps[i]->lookup(q) == nullptr, f.name << " has an entry for " << q << " outside [" << f.lo << "," << f.hi << ")");
    if (f.hi - f.lo > 1) PBT_CHECK(maps[i]->lookup(f.lo) != maps[i]->lookup(f.hi - 1), "addresses have entries of their own");
  }
  if (odd) return;
  PBT_EQ(m.map().size(), want.size(), "symbols");
  for (auto& [n, r] : want) { const dca::Symbol* sy = m.GetSymbolByName(n); std::string d = Compare(*sy, r, n); PBT_CHECK(d.empty(), d); PBT_EQ(sy->info.file_name, file[n].first, n << " file"); PBT_EQ(sy->info.dir_name, file[n].second, n << " directory"); }
}

void Offsets(Src& s, Case& c) {
  Mode(s, c);
  uint32_t start = s.U64(0xffffffff), line = s.Weighted({3, 1, 1}) == 0 ? start + s.Draw(70000) : (uint32_t)s.U64(0xffffffff), disc = Disc(s);
  c.NonTrivial(line != start && disc != 0); c.Describe([&] { return "start " + std::to_string(start) + " line " + std::to_string(line) + " discriminator " + std::to_string(disc); });
  dca::SourceInfo i("f", "", "", start, line, disc);
  PBT_EQ(i.Offset(g_enc), (uint64_t)(uint32_t)(line - start) << 32 | Base(disc), "offset");
  uint32_t dup = Component(Rest(disc)); PBT_EQ(i.DuplicationFactor(), g_fs || dup == 0 ? 1u : dup, "duplication factor");
  PBT_EQ(i.HasInvalidInfo(), start == 0 || line == 0, "known position");
  uint32_t l = s.U64(0xffffffff), d = s.U64(0xffffffff); uint64_t off = dca::SourceInfo::GenerateOffset(l, d);
  PBT_EQ(off, (uint64_t)l << 32 | d, "packed offset"); PBT_EQ(dca::SourceInfo::GetLineNumberFromOffset(off), l & 0xffff, "line of an offset"); PBT_EQ(dca::SourceInfo::GetDiscriminatorFromOffset(off), d, "discriminator of an offset");
  if (l <= 0xffff && d <= 0xffff) { c.Label("fits 16 bits"); PBT_EQ(dca::SourceInfo::GenerateCompressedOffset(off), l << 16 | d, "compressed offset"); }
  uint32_t l2 = l & 0xffff, d2 = d & 0xffff; PBT_EQ(dca::SourceInfo::GenerateCompressedOffset(dca::SourceInfo::GenerateOffset(l2, d2)), l2 << 16 | d2, "compressed offset");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P16";
  su.rule = "map: up to five functions whose bytes get generated inline stacks from a scripted symbolizer; every address and several outside ones are looked up after all maps are built, and the instruction counts in the symbol map are compared with a reference. Non-trivial: inlining occurs and more than ten bytes. offsets: source positions against the documented packing; non-trivial: line and discriminator both differ from zero.";
  su.assumptions = {"where a frame between two known frames is unknown, the position counts are not compared", "discriminator encoding as in LLVM's DILocation"};
  su.subs = {{"map", Map, 80000, 1500000}, {"offsets", Offsets, 3000000, 20000000}};
  return pbt::Main(argc, argv, su);
}
