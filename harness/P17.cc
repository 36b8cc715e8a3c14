// MODE: LLVM
// SOURCES: symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated ELF symbol tables and program headers against a reference lookup by linear scan
// LEVEL_NOTE: Random search; functions of one binary do not overlap except as aliases at the same address.
#include <unistd.h>
#include "elfgen.h"
#include "pbt.h"
#include "symbol_map.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
namespace {
struct Sym { std::string name; uint64_t addr, size; int type, bind, shndx = 1; bool dyn = false; };
// Builds string tables, optionally sharing tails the way linkers do.
struct Str { std::string t = std::string(1, 0); bool share; uint32_t Add(const std::string& n) { if (share) { size_t f = t.find(n + '\0'); if (f != t.npos && !n.empty()) return f; } if (n.empty()) return 0; uint32_t o = t.size(); t += n; t += '\0'; return o; } };
bool AllDigits(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789") == s.npos; }
bool Ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.substr(s.size() - e.size()) == e; }
bool IsFunction(const Sym& y) {
  if (y.name == "__llvm_fs_discriminator__") return true;
  if (!y.size || Ends(y.name, "@plt")) return false;
  size_t k = y.name.rfind(".__part."); bool part = k != y.name.npos && AllDigits(y.name.substr(k + 8));
  return y.type == 2 || Ends(y.name, ".cold") || part;
}
std::string GenName(Src& s, int i) {
  switch (s.Weighted({6, 2, 1, 1, 1, 1, 1})) {
    case 0: return s.OneOf<std::string>({"main", "foo", "_ZN1A1fEv", "some_function", "x"}) + std::to_string(i);
    case 1: return s.OneOf<std::string>({"t", "lt", "plt", "@plt", "a", "bc", "abc", "cold", ".cold"});
    case 2: return "foo" + std::to_string(i) + ".cold";
    case 3: return "foo" + std::to_string(s.Draw(3)) + ".__part." + s.OneOf<std::string>({"1", "12", "x", "", "3.cold", "1y"});
    case 4: return s.OneOf<std::string>({"memcpy", "puts", "x"}) + "@plt";
    case 5: return "foo" + std::to_string(i) + s.OneOf<std::string>({"@plt1", ".coldx", ".part.1", "@GLIBC_2.2"});
    default: return std::string(1 + s.Draw(300), 'z') + std::to_string(i);
  }
}
void Write(const std::string& path, elfgen::Image* im, const std::vector<Sym>& v, bool share) {
  Str a{std::string(1, 0), share}, b{std::string(1, 0), share}; elfgen::Sec st, dt; st.name = ".symtab"; st.type = 2; dt.name = ".dynsym"; dt.type = 11; for (auto* x : {&st, &dt}) { x->entsize = im->is64 ? 24 : 16; x->info = 1; elfgen::PutSym(&x->data, *im, 0, 0, 0, 0, 0, 0, 0); }
  for (auto& y : v) { auto& str = y.dyn ? b : a; elfgen::PutSym(&(y.dyn ? dt : st).data, *im, str.Add(y.name), y.bind, y.type, 0, y.shndx, y.addr, y.size); }
  size_t base = im->secs.size(); elfgen::Sec s1, s2, sh; s1.name = ".strtab"; s1.type = 3; s1.data = a.t; s2.name = ".dynstr"; s2.type = 3; s2.data = b.t; sh.name = ".shstrtab"; sh.type = 3; st.link = base + 1; dt.link = base + 3;
  im->secs.push_back(st); im->secs.push_back(s1); im->secs.push_back(dt); im->secs.push_back(s2); im->secs.push_back(sh); im->shstrndx = base + 4; pbt::WriteFile(path, elfgen::Write(im));
}
elfgen::Image Base(Src& s) { elfgen::Image im; im.is64 = s.Chance(4, 5); im.machine = im.is64 ? (s.Chance(1, 4) ? 183 : 62) : 3; im.secs.resize(1); elfgen::Sec text; text.name = ".text"; text.flags = 6; text.addr = 0x1000; text.data = "\x90\x90"; im.secs.push_back(text); return im; }

void Symbols(Src& s, Case& c) {
  elfgen::Image im = Base(s); std::vector<Sym> v; uint64_t a = s.Bool() ? 0x1000 : im.is64 ? s.U64(1ull << 46) : s.U64(1u << 30); int n = 0; std::set<std::string> used;
  while (s.More(n, 0, 40, 10)) {
    ++n; Sym y; y.name = GenName(s, n); bool dup_ok = s.Chance(1, 10); if (!used.insert(y.name).second && !dup_ok) continue;
    y.type = s.Weighted({8, 1, 1, 1}) == 0 ? 2 : (int)s.Draw(4); y.bind = s.Draw(2);
    if (!v.empty() && s.Chance(1, 4)) { auto& o = v[s.Draw(v.size() - 1)]; y.addr = o.addr; y.size = s.Chance(1, 8) ? 0 : s.Chance(1, 4) && o.size ? 1 + s.Draw(o.size - 1) : o.size; y.dyn = s.Chance(1, 3); if (s.Chance(1, 4)) { y.name = o.name; y.dyn = true; } }
    else { a += s.Weighted({2, 1}) ? s.Draw(64) : 0; y.addr = a; y.size = s.Chance(1, 10) ? 0 : s.Chance(1, 10) ? s.Draw(1 << 20) : 1 + s.Draw(100); a += y.size ? y.size : 1; y.dyn = s.Chance(1, 6); }
    v.push_back(y);
  }
  bool fs = s.Chance(1, 8); if (fs) { Sym y; y.name = "__llvm_fs_discriminator__"; y.addr = a + 0x1000; y.size = 1; y.type = 1; y.bind = 2; v.push_back(y); }
  if (s.Bool()) s.Shuffle(v); bool share = s.Bool(); std::string path = c.Tmp("bin"); Write(path, &im, v, share);
  c.Describe([&] { std::string r = share ? "shared name tails\n" : ""; for (auto& y : v) r += y.name + " " + pbt::ToText(y.addr, 0) + "+" + pbt::ToText(y.size, 0) + " type " + std::to_string(y.type) + (y.dyn ? " dynamic" : "") + "\n"; return r; });
  // Reference: first function symbol seen at an address (static table first) names the entry.
  std::map<uint64_t, std::pair<std::string, uint64_t>> ref; std::map<std::string, std::set<std::string>> alias; std::map<std::string, std::set<uint64_t>> where;
  for (int pass = 0; pass < 2; ++pass) for (auto& y : v) if (y.dyn == (pass == 1) && IsFunction(y)) { auto it = ref.insert({y.addr, {y.name, y.size}}); if (!it.second) alias[it.first->second.first].insert(y.name); }
  for (auto& [ad, e] : ref) where[e.first].insert(ad);
  size_t fn = ref.size(), al = alias.size(); c.NonTrivial(fn >= 2 && fn < v.size()); c.LabelIf(al, "aliases"); c.LabelIf(share, "shared name tails");
  dca::SymbolMap m(path); PBT_EQ(dca::SourceInfo::use_fs_discriminator, fs, "flow-sensitive discriminators");
  auto Probe = [&](uint64_t x) {
    const std::pair<const uint64_t, std::pair<std::string, uint64_t>>* w = nullptr; for (auto& e : ref) if (x >= e.first && x - e.first < e.second.second) w = &e;
    const std::string* nm = nullptr; uint64_t lo = 1, hi = 2; bool got = m.GetSymbolInfoByAddr(x, &nm, &lo, &hi);
    PBT_CHECK(got == (w != nullptr), "address " << std::hex << x << (got ? " is said to be in " + *nm : std::string(" is in no function, want ") + (w ? w->second.first : "")));
    if (w) { PBT_EQ(*nm, w->second.first, "name for address " << std::hex << x); PBT_EQ(lo, w->first, "start for address " << std::hex << x); PBT_EQ(hi, w->first + w->second.second, "end for address " << std::hex << x); PBT_CHECK(m.GetSymbolInfoByAddr(x, nullptr, nullptr, nullptr), "lookup without outputs"); }
    const std::string* st = m.GetSymbolNameByStartAddr(x); auto it = ref.find(x); PBT_EQ(st ? *st : std::string("<none>"), it == ref.end() ? std::string("<none>") : it->second.first, "function starting at " << std::hex << x);
  };
  for (auto& y : v) for (uint64_t x : {y.addr - 1, y.addr, y.addr + 1, y.addr + y.size / 2, y.addr + y.size - 1, y.addr + y.size}) Probe(x);
  Probe(0); Probe(~0ull); for (int i = 0; i < 5; ++i) Probe(s.U64());
  auto& na = m.GetNameAddrMap(); PBT_EQ(na.size(), where.size(), "number of named functions"); for (auto& [nm, x] : na) PBT_CHECK(where.count(nm) && where[nm].count(x), nm << " at " << x);
  // Adding a sampled function makes its aliases the same entry.
  for (auto& [ad, e] : ref) if (s.Chance(1, 3)) { bool fresh = m.GetSymbolByName(e.first) == nullptr; m.AddSymbol(e.first); if (!fresh || where[e.first].size() > 1) continue; auto* p = m.GetSymbolByName(e.first); PBT_CHECK(p, e.first << " is not added"); if (alias.count(e.first)) for (auto& al2 : alias[e.first]) PBT_CHECK(m.GetSymbolByName(al2) == p, al2 << " is not an alias of " << e.first); for (auto& [nm, x] : m.map()) if (x == p && nm != e.first) PBT_CHECK(alias[e.first].count(nm), nm << " became an alias of " << e.first); }
  unlink(path.c_str());
}
// Addresses and file offsets of mapped code.
void Offsets(Src& s, Case& c) {
  elfgen::Image im = Base(s); bool kernel = s.Chance(1, 4), module = s.Chance(1, 6); std::vector<elfgen::Seg> ex; uint64_t off = 0, va = im.is64 ? (s.Bool() ? 0x400000 : kernel ? 0xffffffff80000000ull : s.U64(1ull << 40) & ~0xfffull) : 0x8048000; int n = 0;
  if (!module) while (s.More(n, 1, 8, 4)) {
    ++n; elfgen::Seg g; g.type = s.Weighted({6, 1}) == 0 ? 1 : s.OneOf<uint32_t>({2, 4, 6, 0x6474e551}); g.flags = s.Weighted({3, 1, 1, 1}) == 0 ? 5 : s.OneOf<uint32_t>({4, 6, 7, 1});
    off += s.Draw(5) * (s.Bool() ? 0x1000 : 0x10) + 1 * s.Draw(3); va += s.Draw(5) * 0x1000 + s.Draw(64); g.offset = off; g.vaddr = va; g.filesz = 1 + (s.Bool() ? s.Draw(0x3000) : s.Draw(60)); g.memsz = g.filesz + (s.Chance(1, 4) ? s.Draw(100) : 0); off += g.filesz; va += g.memsz;
    im.segs.push_back(g); if (g.type == 1 && (g.flags & 1)) ex.push_back(g);
  }
  if (module) { im.etype = 1; }
  std::string path = c.Tmp(module ? "m.ko" : "bin"); std::vector<Sym> v; uint64_t a = 0; std::vector<Sym> fns;
  for (auto& g : ex) { uint64_t p = g.vaddr; int k = 0; while (s.More(k, 0, 5, 2) && p < g.vaddr + g.filesz) { ++k; Sym y; y.name = "f" + std::to_string(++a); y.addr = p + s.Draw(3); if (y.addr >= g.vaddr + g.filesz) break; y.size = 1 + s.Draw(std::min<uint64_t>(40, g.vaddr + g.filesz - y.addr - 1)); y.type = 2; y.bind = 1; p = y.addr + y.size; v.push_back(y); fns.push_back(y); } }
  Write(path, &im, v, false); dca::SymbolMap m(path); m.ReadLoadableExecSegmentInfo(kernel);
  if (module) { elfgen::Seg g; g.offset = im.secs[1].offset; g.vaddr = im.secs[1].addr; g.filesz = 2; ex = {g}; kernel = false; }
  c.NonTrivial(ex.size() >= 2 || module); c.LabelIf(kernel, "kernel"); c.LabelIf(module, "kernel module without program headers"); c.LabelIf(!fns.empty(), "with functions");
  c.Describe([&] { std::string r = kernel ? "kernel\n" : ""; for (auto& g : im.segs) r += "segment type " + std::to_string(g.type) + " flags " + std::to_string(g.flags) + " offset " + std::to_string(g.offset) + " vaddr " + std::to_string(g.vaddr) + " size " + std::to_string(g.filesz) + "\n"; for (auto& y : fns) r += y.name + " " + std::to_string(y.addr) + "+" + std::to_string(y.size) + "\n"; return r; });
  if (ex.empty()) return; uint64_t rel = kernel ? ex[0].offset : 0;
  for (auto& g : ex) for (uint64_t d : {uint64_t{0}, g.filesz / 2, g.filesz - 1, s.Draw(g.filesz - 1)}) { uint64_t o = g.offset - rel + d; PBT_EQ(m.get_static_vaddr(o), g.vaddr + d, "address of file offset " << o); PBT_EQ(m.GetFileOffsetFromStaticVaddr(g.vaddr + d), o, "file offset of address " << g.vaddr + d); }
  if (!fns.empty()) {
    std::set<uint64_t> offs; std::map<uint64_t, uint64_t> want; int k = 0; while (s.More(k, 0, 30, 6)) { ++k; auto& y = fns[s.Draw(fns.size() - 1)]; uint64_t x = y.addr + s.Draw(y.size - 1); for (auto& g : ex) if (x >= g.vaddr && x < g.vaddr + g.filesz) offs.insert(x - g.vaddr + g.offset - rel); want[y.addr] = y.size; }
    for (auto& y : fns) if (s.Chance(1, 8)) { m.AddSymbol(y.name); if (s.Bool()) { m.AddSymbolEntryCount(y.name, 1, 1 + s.Draw(5)); want[y.addr] = y.size; } }
    PBT_EQ(pbt::ToText(m.GetSampledSymbolStartAddressSizeMap(offs), 0), pbt::ToText(want, 0), "sampled functions");
  }
  unlink(path.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P17"; su.scale = 2; su.rule = "symbols: at least two function entries and at least one symbol that is not one; offsets: at least two executable segments, or a module without program headers";
  su.subs = {{"symbols", Symbols, 200000, 3000000}, {"offsets", Offsets, 200000, 3000000}};
  su.assumptions = {"functions at different addresses do not overlap", "loadable segments ascend in file offset and address, as ELF requires", "little-endian files"};
  return pbt::Main(argc, argv, su);
}
