// MODE: GCOV
// SOURCES: util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated ELF images written by an independent encoder, every query compared with the description
// LEVEL_NOTE: Random search over headers, section and program header tables, symbol tables and notes; trusts the encoder in the harness.
#include <memory>

#include "symbolize/elf_reader.h"
#include "elfgen.h"
#include "pbt.h"
using pbt::Case; using pbt::Src;
namespace dw = devtools_crosstool_autofdo;
using elfgen::Image; using elfgen::Sec; using elfgen::Seg;

namespace {
struct Sym { std::string name; uint64_t value, size; int bind, type, shndx; bool operator==(const Sym& o) const { return name == o.name && value == o.value && size == o.size && bind == o.bind && type == o.type && shndx == o.shndx; } };
std::string Show(const std::vector<Sym>& v) { std::string r; for (auto& x : v) { char t[200]; snprintf(t, sizeof t, "{%s %llx+%llx b%d t%d s%d}", x.name.c_str(), (unsigned long long)x.value, (unsigned long long)x.size, x.bind, x.type, x.shndx); r += t; } return r; }
struct Sink : dw::ElfReader::SymbolSink { std::vector<Sym> got; void AddSymbol(const char* n, uint64_t a, uint64_t s, int b, int t, int sec) override { got.push_back({n, a, s, b, t, sec}); } };
const std::vector<std::string> kNames = {".text", ".data", ".debug_info", ".debug_line", ".zdebug_info", ".zdebug_line", ".debug_str", ".text.hot", ".bss", ".rodata", ".debug_info.dwo", ".comment", "x", ".note.gnu.build-id", ".debug_", ".debug_abbrev"};

struct World { Image im; std::vector<Sym> symtab, dynsym; bool has_symtab = false, has_dynsym = false; std::vector<std::string> build_ids; std::string path; };

std::string Note(Src& s, const std::string& name, const std::string& desc, uint32_t type) {
  std::string b; auto P = [&](uint64_t v) { elfgen::Put(&b, v, 4, false); }; P(name.size()); P(desc.size()); P(type);
  b += name; while (b.size() % 4) b += '\0'; b += desc; while (b.size() % 4) b += '\0'; return b;
}
void SymTable(Src& s, World& w, bool dyn) {
  Image& im = w.im; Sec t, str; t.name = dyn ? ".dynsym" : ".symtab"; str.name = dyn ? ".dynstr" : ".strtab"; t.type = dyn ? 11 : 2; str.type = 3; t.entsize = im.is64 ? 24 : 16; t.align = 8; str.data.assign(1, 0);
  auto& out = dyn ? w.dynsym : w.symtab; elfgen::PutSym(&t.data, im, 0, 0, 0, 0, 0, 0, 0); int n = 0; uint64_t max = im.is64 ? ~0ull : 0xffffffffull;
  while (s.More(n, 0, 40, 5)) {
    ++n; Sym y; y.bind = s.OneOf({1, 0, 2, 10}); y.type = s.OneOf({2, 1, 0, 3, 4, 10}); y.shndx = s.OneOf({1, 0, 0xfff1, 2}); y.value = s.U64(max); y.size = s.Chance(1, 4) ? 0 : s.U64(s.Chance(1, 4) ? max : 5000);
    y.name = s.Chance(1, 8) ? "" : s.Text("abcXYZ_.$@019", 1, 10, 5); uint32_t off = 0;
    if (!y.name.empty()) { size_t f = s.Chance(1, 3) ? str.data.find(y.name + '\0') : std::string::npos; if (f == std::string::npos) { off = str.data.size(); str.data += y.name; str.data += '\0'; } else off = f; }
    elfgen::PutSym(&t.data, im, off, y.bind, y.type, 0, y.shndx, y.value, y.size);
    if (off) out.push_back(y);
  }
  bool before = s.Bool(); size_t at = im.secs.size(); if (before) { im.secs.push_back(str); t.link = at; im.secs.push_back(t); } else { t.link = at + 1; im.secs.push_back(t); im.secs.push_back(str); }
  (dyn ? w.has_dynsym : w.has_symtab) = true;
}
World Gen(Src& s, Case& c) {
  World w; Image& im = w.im; im.is64 = s.Chance(2, 3); im.etype = s.OneOf({2, 3, 1}); im.machine = im.is64 ? s.OneOf({62, 183, 40}) : s.OneOf({3, 40, 62}); uint64_t max = im.is64 ? ~0ull : 0xffffffffull;
  im.sections_first = s.Bool(); im.gap = (int)s.Draw(3); im.suffix_names = s.Bool(); im.entry = s.U64(max); im.secs.resize(1); im.secs[0].type = 0; im.secs[0].align = 0;
  int n = 0; while (s.More(n, 0, 12, 4)) {
    ++n; Sec x; x.name = s.Chance(1, 10) ? s.Text("abc.", 0, 5, 2) : s.Pick(kNames); x.type = s.OneOf<uint32_t>({1, 1, 8, 14, 0x70000001, 7}); x.flags = s.U64(s.Bool() ? 7 : max); x.addr = s.U64(max); x.align = s.OneOf<uint64_t>({1, 4, 16, 4096}); x.link = s.U64(0xffffffff); x.info = s.U64(0xffffffff); x.entsize = s.Draw(100);
    if (x.type == 8) x.size = s.Draw(10000);
    else if (x.type == 7) {
      x.align = 4; x.link = 0; int k = 0; while (s.More(k, 0, 4, 1)) {
        ++k; int kind = (int)s.Weighted({3, 2, 2});
        if (kind == 0) { std::string id = s.Bytes(s.Chance(1, 2) ? 20 : 1 + s.Draw(19)); x.data += Note(s, std::string("GNU\0", 4), id, 3); std::string hex; for (unsigned char ch : id) { char t[3]; snprintf(t, 3, "%02x", ch); hex += t; } w.build_ids.push_back(hex); }
        else if (kind == 1) x.data += Note(s, std::string("GNU\0", 4), s.Bytes(s.Draw(24)), s.OneOf<uint32_t>({1, 2, 4, 5}));
        else { std::string nm = s.Text("stapGo", 0, 9, 4); if (!nm.empty()) nm += '\0'; x.data += Note(s, nm, s.Bytes(s.Draw(30)), s.OneOf<uint32_t>({3, 1, 7})); }
      }
    } else x.data = s.Bytes(s.Draw(s.Chance(1, 12) ? 9000 : 40));
    im.secs.push_back(x);
  }
  if (s.Chance(3, 4)) SymTable(s, w, false); if (s.Bool()) SymTable(s, w, true);
  Sec str; str.name = ".shstrtab"; str.type = 3; im.shstrndx = im.secs.size(); im.secs.push_back(str);
  if (s.Bool()) { Sec x; x.name = s.Pick(kNames); x.data = s.Bytes(s.Draw(30)); im.secs.push_back(x); }
  if (im.etype != 1 || s.Chance(1, 10)) { n = 0; while (s.More(n, 0, 6, 3)) { ++n; Seg g; g.type = s.OneOf<uint32_t>({1, 1, 6, 4, 0x6474e551, 2}); g.flags = s.Draw(7); g.offset = s.U64(max); g.vaddr = s.U64(max); g.paddr = s.U64(max); g.filesz = s.U64(max); g.memsz = s.U64(max); g.align = s.U64(max); im.segs.push_back(g); } }
  im.no_section_table = s.Chance(1, 20) && im.segs.size();
  bool dwp = s.Chance(1, 4); w.path = c.Tmp(dwp ? "a.dwp" : "a.bin"); pbt::WriteFile(w.path, elfgen::Write(&im));
  if (im.no_section_table) { im.secs.clear(); w.symtab.clear(); w.dynsym.clear(); w.build_ids.clear(); w.has_symtab = w.has_dynsym = false; im.shstrndx = 0; }
  c.Label(im.is64 ? "64-bit" : "32-bit"); c.Label("type " + std::to_string(im.etype)); c.LabelIf(dwp, "dwp"); c.LabelIf(im.no_section_table, "no section table"); c.LabelIf(w.build_ids.size() == 1, "one build id"); c.LabelIf(w.build_ids.size() > 1, "several build ids");
  c.NonTrivial(im.secs.size() + im.segs.size() >= 4);
  c.Describe([&] { std::string r = im.is64 ? "64-bit" : "32-bit"; for (auto& x : w.im.secs) r += " [" + x.name + " t" + std::to_string(x.type) + " @" + std::to_string(x.offset) + "+" + std::to_string(x.size) + "]"; r += " symtab " + Show(w.symtab) + " dynsym " + Show(w.dynsym) + " build ids " + pbt::ToText(w.build_ids, 0); for (auto& g : w.im.segs) r += " seg" + std::to_string(g.type) + "@" + std::to_string(g.vaddr); return r; });
  return w;
}
bool Match(const std::string& want, const std::string& have) { return want == have || (want.rfind(".debug_", 0) == 0 && have.rfind(".zdebug_", 0) == 0 && want.substr(7) == have.substr(8)); }

void Images(Src& s, Case& c) {
  World w = Gen(s, c); Image& im = w.im; dw::ElfReader r(w.path);
  PBT_EQ(r.IsElf64File(), im.is64, "IsElf64File"); PBT_EQ(r.IsElf32File(), !im.is64, "IsElf32File"); PBT_EQ(r.IsNativeElfFile(), im.is64, "IsNativeElfFile"); PBT_EQ(r.IsDynamicSharedObject(), im.etype == 3, "IsDynamicSharedObject");
  uint64_t first = 0; if (im.etype != 1) for (auto& g : im.segs) if (g.type == 1) { first = g.vaddr; break; }
  PBT_EQ((uint64_t)r.VaddrOfFirstLoadSegment(), first, "first load address");
  auto sg = r.GetSegmentInfo(); PBT_EQ(sg.size(), im.segs.size(), "number of segments");
  for (size_t i = 0; i < sg.size(); ++i) { auto& a = sg[i]; auto& b = im.segs[i]; PBT_CHECK(a.type == b.type && a.flags == b.flags && a.offset == b.offset && a.vaddr == b.vaddr && a.paddr == b.paddr && a.filesz == b.filesz && a.memsz == b.memsz && a.align == b.align, "segment " << i); }
  // Sections by name; the first match counts, in a .dwp file the last.
  bool dwp = w.path.size() > 4 && w.path.substr(w.path.size() - 4) == ".dwp"; std::vector<std::string> names = kNames; names.push_back(".symtab"); names.push_back("nothing"); names.push_back(".shstrtab");
  for (auto& nm : names) {
    int idx = -1; for (size_t i = 0; i < im.secs.size(); ++i) { std::string have = i == 0 ? "" : im.secs[i].name; if (Match(nm, have)) { idx = i; if (!dwp) break; } }
    size_t size = 12345; const char* p = r.GetSectionByName(nm, &size);
    PBT_EQ(p != nullptr, idx >= 0, "presence of " << nm); dw::ElfReader::SectionInfo info; memset(&info, 0x5a, sizeof info); const char* q = r.GetSectionInfoByName(nm, &info); PBT_EQ(q != nullptr, idx >= 0, "info of " << nm); if (idx < 0) continue;
    auto& x = im.secs[idx]; PBT_EQ((uint64_t)size, x.size, "size of " << nm); if (x.type != 8) PBT_CHECK(std::string(p, size) == x.data, "contents of " << nm);
    PBT_CHECK(info.type == x.type && info.flags == x.flags && info.addr == x.addr && info.offset == x.offset && info.size == x.size && info.link == x.link && info.info == x.info && info.addralign == x.align && info.entsize == x.entsize, "header of section " << nm);
  }
  for (uint32_t t : {1u, 2u, 7u, 8u, 11u, 14u, 99u}) for (int start = 0; start <= (int)im.secs.size(); start += 1 + s.Draw(2)) { int want = -1; for (size_t i = start; i < im.secs.size(); ++i) if (im.secs[i].type == t) { want = i; break; } PBT_EQ(r.GetSectionIndexByType(t, start), want, "section index of type " << t << " from " << start); }
  for (size_t i = 1; i < im.secs.size(); ++i) { const char* nm = r.GetSectionName(i); PBT_CHECK(nm && im.secs[i].name == nm, "name of section " << i); size_t size = 0; const char* p = r.GetSectionByIndex(i, &size); PBT_CHECK(p && size == im.secs[i].size && (im.secs[i].type == 8 || std::string(p, size) == im.secs[i].data), "section " << i << " by index"); }
  PBT_EQ(r.GetBuildId(), w.build_ids.size() == 1 ? w.build_ids[0] : std::string(), "build id");
  // Symbols.
  for (int round = 0; round < 3; ++round) {
    int bind = round == 1 ? s.OneOf({-1, 0, 1, 2}) : -1, type = round == 1 ? s.OneOf({2, 1, -1, 0}) : -1; bool raw = round == 2; uint64_t lim = round == 1 ? s.U64(im.is64 ? ~0ull : 0xffffffffull) : ~0ull; bool filter = round == 1 && s.Bool();
    std::vector<Sym> want; for (auto* v : {&w.symtab, &w.dynsym}) for (Sym y : *v) { if (filter && !(y.value <= lim && y.type != 3)) continue; if ((bind >= 0 && y.bind != bind) || (type >= 0 && y.type != type)) continue; if (!raw && im.machine == 40 && y.type == 2) y.value &= ~1ull; want.push_back(y); }
    Sink k; if (filter) k.filter = [&](const char* n, uint64 a, uint64 z, int b, int t, int sec) { return a <= lim && t != 3; };
    if (round == 0) r.VisitSymbols(&k); else if (raw) r.VisitSymbols(&k, -1, -1, true); else r.VisitSymbols(&k, bind, type);
    PBT_CHECK(k.got == want, "symbols (round " << round << "): got " << Show(k.got) << " want " << Show(want));
  }
  bool dbg = false; for (size_t i = 1; i < im.secs.size(); ++i) dbg |= im.secs[i].name.rfind(".debug", 0) == 0;
  PBT_EQ(dw::ElfReader::IsNonStrippedELFBinary(w.path), w.has_symtab, "IsNonStrippedELFBinary"); PBT_EQ(dw::ElfReader::IsNonDebugStrippedELFBinary(w.path), dbg, "IsNonDebugStrippedELFBinary");
}

// More sections than fit the header's 16 bits.
void Many(Src& s, Case& c) {
  Image im; im.is64 = s.Bool(); im.etype = 1; int n = 0xff00 + (int)s.Draw(3000); im.secs.resize(1); im.secs[0].type = 0;
  for (int i = 1; i < n; ++i) { Sec x; x.name = ".text.f" + std::to_string(i % 977); x.data = i % 100 ? "" : "ab"; x.addr = i; im.secs.push_back(x); }
  int at = s.Bool() ? n - 1 : 1 + (int)s.Draw(n - 2); im.shstrndx = at; im.secs[at].name = ".shstrtab"; im.secs[at].type = 3; int probe = 1 + (int)s.Draw(n - 2); if (probe == at) probe = probe == 1 ? 2 : probe - 1; im.secs[probe].name = ".probe"; im.secs[probe].data = "probe data";
  std::string path = c.Tmp("m.o"); pbt::WriteFile(path, elfgen::Write(&im)); c.NonTrivial(); c.LabelIf(at >= 0xff00, "name table beyond the reserved indices");
  c.Describe([&] { return std::to_string(n) + " sections, names in " + std::to_string(at) + ", probe " + std::to_string(probe); });
  dw::ElfReader r(path); size_t size = 0; const char* p = r.GetSectionByName(".probe", &size); PBT_CHECK(p && std::string(p, size) == "probe data", "probe section");
  PBT_EQ(r.GetSectionIndexByType(3, 0), at, "string table"); PBT_CHECK(std::string(r.GetSectionName(n - 1)) == im.secs[n - 1].name, "last section name"); PBT_EQ((uint64_t)r.VaddrOfFirstLoadSegment(), 0ull, "load address");
}

// Anything else is refused quietly.
void NotElf(Src& s, Case& c) {
  std::string b; int k = (int)s.Weighted({2, 2, 2, 1, 1});
  if (k == 0) b = s.Bytes(s.Draw(80)); else if (k == 1) { b = std::string("\x7f""ELF", 4) + s.Bytes(s.Draw(11)); } else { Image im; im.is64 = s.Bool(); im.secs.resize(2); im.secs[0].type = 0; im.secs[1].name = ".shstrtab"; im.secs[1].type = 3; im.shstrndx = 1; im.big = k == 4; b = elfgen::Write(&im); if (k == 2) b[s.Draw(3)] ^= 1 + s.Draw(254); if (k == 3) b[4] = s.OneOf({0, 3, 77}); }
  std::string path = c.Tmp("n"); int miss = s.Chance(1, 6) ? s.Int(1, 4) : 0; std::string open = miss == 1 ? path + ".absent" : miss == 2 ? "[vdso]" : miss == 3 ? path + " (deleted)" : miss == 4 ? "[vsyscall]" : path; pbt::WriteFile(path, b);
  if (miss == 0 && b.size() >= 16 && b.compare(0, 4, "\x7f""ELF") == 0 && (b[4] == 1 || b[4] == 2) && b[5] == 1) throw pbt::Discard();
  c.NonTrivial(b.size() >= 4 || miss); c.LabelIf(k == 4, "other byte order"); c.LabelIf(miss, "nothing to open"); c.Describe([&] { return open + " " + pbt::Hex(b); });
  dw::ElfReader r(open); size_t size; Sink k2; dw::ElfReader::SectionInfo info;
  PBT_CHECK(!r.IsElf32File() && !r.IsElf64File() && !r.IsNativeElfFile() && !r.IsDynamicSharedObject(), "taken for an ELF file");
  PBT_CHECK(r.GetSectionByName(".text", &size) == nullptr && r.GetSectionInfoByName(".text", &info) == nullptr && r.GetSectionByIndex(1, &size) == nullptr && r.GetSectionName(1) == nullptr, "sections in a file that is not ELF");
  PBT_EQ(r.GetSectionIndexByType(3, 0), -1, "section index"); PBT_EQ((uint64_t)r.VaddrOfFirstLoadSegment(), 0ull, "load address"); PBT_CHECK(r.GetSegmentInfo().empty() && r.GetBuildId().empty(), "segments or a build id");
  r.VisitSymbols(&k2); PBT_CHECK(k2.got.empty(), "symbols"); PBT_CHECK(!dw::ElfReader::IsNonStrippedELFBinary(open) && !dw::ElfReader::IsNonDebugStrippedELFBinary(open), "stripped queries");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "P26"; su.scale = 3;
  su.rule = "A case is an ELF image (sections, segments, two symbol tables, notes) or a file that is not one. Non-trivial: four sections or segments, or at least four bytes.";
  su.assumptions = {"images are of the host's byte order; others count as not ELF", "build ids of at most 20 bytes"};
  su.subs = {{"images", Images, 100000, 1200000}, {"not ELF", NotElf, 60000, 400000}, {"many sections", Many, 16, 300}};
  return pbt::Main(argc, argv, su);
}
