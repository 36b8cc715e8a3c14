// MODE: LLVM
// SOURCES: llvm_propeller_binary_content.cc addr2cu.cc
// TECHNIQUE: property-based testing: generated ELF images against the facts they were written from; generated module information against a reference parser; mutated files against an independent header reader
// LEVEL_NOTE: Random search over both classes and byte orders.
#include <unistd.h>
#include "elfgen.h"
#include "llvm_propeller_binary_content.h"
#include "pbt.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
namespace {
using U = uint64_t; using Info = std::map<std::string, std::string>;
std::string Show(const std::vector<dca::BinaryContent::Segment>& v) { std::ostringstream o; o << std::hex; for (auto& g : v) o << "[offset " << g.offset << " vaddr " << g.vaddr << " size " << g.memsz << "]"; return o.str(); }
// Key=value records (a value may be empty, as in "depends="), each ended by at least one NUL.
bool Parse(const std::string& d, Info* out) {
  if (d.empty()) return false; size_t p = 0;
  while (p < d.size()) {
    size_t e = d.find('\0', p); if (e == d.npos || e == p) return false; std::string rec = d.substr(p, e - p); size_t eq = rec.find('='); if (eq == rec.npos || eq == 0) return false;
    out->insert({rec.substr(0, eq), rec.substr(eq + 1)}); p = e; while (p < d.size() && d[p] == 0) ++p;
  }
  return true;
}
std::string GenInfo(Src& s, bool valid) {
  std::string r; int n = 0; static const char* keys[] = {"name", "description", "license", "a", "depends", "vermagic"};
  while (s.More(n, valid ? 1 : 0, 8, 3)) {
    ++n; std::string k = s.Chance(1, 4) ? s.Text("abn.\x01\xff", 1, 6, 3) : keys[s.Draw(5)], v = s.Chance(1, 3) ? s.Text("ab= \n\xc3", 1, 12, 4) : "v" + std::to_string(n); std::string rec = k + "=" + v;
    if (!valid && s.Chance(1, 8)) rec = s.OneOf<std::string>({"=", "noequals", "=value", "key=", "", "=="});
    r += rec; int nul = s.Chance(1, 4) ? s.Int(1, 9) : 1; if (!valid && s.Chance(1, 12)) nul = 0; r.append(nul, 0);
  }
  if (!valid && s.Chance(1, 8)) r.insert(0, 1, 0); return r;
}
void ModInfo(Src& s, Case& c) {
  std::string d = s.Chance(1, 10) ? s.Text(std::string("a=\0", 3), 0, 12, 5) : GenInfo(s, s.Chance(1, 2)); Info want; bool ok = Parse(d, &want); c.Describe([&] { return pbt::Hex(d); }); c.NonTrivial(d.size() > 6); c.Label(ok ? "well-formed" : "malformed");
  std::unique_ptr<char[]> exact(new char[d.size()]); memcpy(exact.get(), d.data(), d.size());
  auto r = dca::ELFFileUtilBase::ParseModInfoSectionContent(absl::string_view(exact.get(), d.size())); PBT_EQ(r.ok(), ok, "accepted");
  if (!ok) { PBT_CHECK(r.status().code() == absl::StatusCode::kFailedPrecondition, "error kind of " << r.status().ToString()); return; }
  Info got; for (auto& [k, v] : *r) got[std::string(k)] = std::string(v); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(want, 0), "records");
}

struct Note { std::string name; uint32_t type; std::string desc; };
std::string Notes(const elfgen::Image& im, const std::vector<Note>& v, U align) {
  std::string r; align = std::max<U>(align, 4); auto Pad = [&] { while (r.size() % align) r += '\0'; };
  for (auto& n : v) { elfgen::Put(&r, n.name.size() + 1, 4, im.big); elfgen::Put(&r, n.desc.size(), 4, im.big); elfgen::Put(&r, n.type, 4, im.big); r += n.name; r += '\0'; Pad(); r += n.desc; Pad(); }
  return r;
}
elfgen::Sec Section(const std::string& n, uint32_t type, U flags, const std::string& d) { elfgen::Sec x; x.name = n; x.type = type; x.flags = flags; x.data = d; return x; }
struct Gen { elfgen::Image im; std::string build_id; bool ok = true; std::vector<dca::BinaryContent::Segment> segs; int text = 0; std::string info; bool module = false; bool ko = false; };
Gen Image(Src& s) {
  Gen g; auto& im = g.im; im.is64 = s.Chance(2, 3); im.big = s.Chance(1, 3); im.etype = s.Weighted({3, 3, 2, 1}); im.etype = im.etype == 0 ? 2 : im.etype == 1 ? 3 : im.etype == 2 ? 1 : 4; im.machine = s.OneOf<int>({62, 183, 3, 40, 20, 21});
  im.suffix_names = s.Bool(); im.sections_first = s.Bool(); im.gap = s.Draw(9); im.secs.resize(1); U lim = im.is64 ? ~0ull >> 1 : 0xffffffffu >> 1; std::vector<elfgen::Sec> v; int n = 0; bool id = false;
  while (s.More(n, 0, 4, 2)) {
    ++n; std::vector<Note> notes; int k = 0; std::string name = s.OneOf<std::string>({".note.gnu.build-id", ".note.gnu.build-id", ".notes", ".note.ABI-tag", ".note", ".note.gnu.build-id2"}); U al = s.OneOf<U>({4, 4, 4, 8, 1, 0}); uint32_t type = s.Chance(1, 6) ? 1 : 7;
    while (s.More(k, 0, 4, 1)) { ++k; notes.push_back({s.OneOf<std::string>({"GNU", "GNU", "GNU", "Xen", "Linux", "", "GNUX", "GN", "stapsdt"}), (uint32_t)s.Weighted({4, 1, 1}) == 0 ? 3 : (uint32_t)s.Range(1, 5), s.Bytes(s.Chance(1, 3) ? s.Int(0, 40) : 20)}); }
    std::string d = Notes(im, notes, al); if (s.Chance(1, 6)) d += s.Bytes(s.Int(1, 11)); auto x = Section(name, type, 2, d); x.align = al; v.push_back(x);
    if (type == 7 && (name == ".note.gnu.build-id" || name == ".notes")) for (auto& nt : notes) if (nt.name == "GNU" && nt.type == 3 && !id) { id = true; g.build_id = nt.desc; }
  }
  std::string hex; for (unsigned char ch : g.build_id) { char b[3]; snprintf(b, 3, "%02x", ch); hex += b; } g.build_id = hex;
  // Notes come in file order, other sections anywhere between.
  auto Insert = [&](elfgen::Sec x) { v.insert(v.begin() + s.Draw(v.size()), x); };
  bool rel = im.etype == 1; g.ko = rel ? s.Chance(4, 5) : s.Chance(1, 6); bool link = rel ? s.Chance(6, 7) : s.Chance(1, 8), info = rel ? s.Chance(6, 7) : s.Chance(1, 8), text = !s.Chance(1, 8);
  if (link) Insert(Section(".gnu.linkonce.this_module", 1, 3, "x")); if (info) { g.info = GenInfo(s, s.Chance(3, 4)); Insert(Section(".modinfo", 1, 2, g.info)); }
  if (s.Chance(1, 4)) Insert(Section(".init.text", 1, 6, "zz")); if (s.Chance(1, 4)) Insert(Section(".text.hot", 1, 6, "hot")); if (s.Chance(1, 5)) Insert(Section(".text", 1, s.OneOf<U>({0, 2, 4}), "no")); if (s.Chance(1, 4)) Insert(Section(".data", 8, 3, ""));
  if (text) { auto t = Section(".text", 1, 6 | (s.Chance(1, 4) ? 0x10 : 0), s.Bytes(s.Int(0, 30))); t.addr = s.Chance(1, 3) ? s.U64(lim) : 0; if (s.Chance(1, 6)) { t.type = 8; t.data.clear(); t.size = s.U64(lim); } Insert(t); if (s.Chance(1, 6)) v.push_back(t); }
  for (auto& x : v) im.secs.push_back(x); im.secs.push_back(Section(".shstrtab", 3, 0, "")); im.shstrndx = im.secs.size() - 1;
  n = 0; if (!rel || s.Chance(1, 5)) while (s.More(n, 0, 8, 4)) { ++n; elfgen::Seg q; q.type = s.Weighted({5, 1, 1, 1}); q.type = q.type == 0 ? 1 : q.type == 1 ? 2 : q.type == 2 ? 4 : 0x6474e551; q.flags = s.Draw(7); if (s.Bool()) q.flags |= 1; q.offset = s.Bool() ? n * 0x1000 : s.U64(lim); q.vaddr = s.U64(lim); q.paddr = s.U64(lim); q.filesz = s.U64(lim); q.memsz = s.U64(lim); im.segs.push_back(q); }
  std::string file = "";
  if (rel) {
    Info i; g.ok = g.ko && link && info && Parse(g.info, &i); g.module = true;
  }
  return g;
}
void Images(Src& s, Case& c) {
  Gen g = Image(s); std::string path = c.Tmp(g.ko ? "m.ko" : "bin"); pbt::WriteFile(path, elfgen::Write(&g.im)); auto& im = g.im;
  bool rel = im.etype == 1; std::vector<dca::BinaryContent::Segment> want; int text = -1;
  if (rel) { for (size_t i = 1; i < im.secs.size() && text < 0; ++i) if (im.secs[i].name == ".text" && (im.secs[i].flags & 6) == 6) { text = i; want.push_back({im.secs[i].offset, im.secs[i].addr, im.secs[i].size}); } }
  else for (auto& q : im.segs) if (q.type == 1 && (q.flags & 1)) want.push_back({q.offset, q.vaddr, q.memsz});
  bool ok = g.ok && !want.empty(); c.Label(ok ? "accepted" : "refused"); c.Label(im.is64 ? "64-bit" : "32-bit"); c.Label(im.big ? "big-endian" : "little-endian"); c.LabelIf(rel, "relocatable"); c.LabelIf(g.build_id.size(), "build id"); c.NonTrivial(ok ? want.size() > 1 || rel : im.secs.size() > 3);
  c.Describe([&] { std::ostringstream o; o << (im.is64 ? 64 : 32) << (im.big ? " big" : "") << " type " << im.etype << (g.ko ? " .ko" : "") << "\n"; for (auto& x : im.secs) o << "section " << x.name << " type " << x.type << " flags " << x.flags << " align " << x.align << " " << pbt::Hex(x.data.substr(0, 100)) << "\n"; for (auto& q : im.segs) o << "segment type " << q.type << " flags " << q.flags << "\n"; return o.str(); });
  auto r = dca::GetBinaryContent(path); unlink(path.c_str()); PBT_CHECK(r.ok() == ok, (ok ? "refused: " + r.status().ToString() : std::string("accepted although unsupported")));
  if (!ok) return; auto& b = **r;
  PBT_EQ(b.build_id, g.build_id, "build id"); PBT_EQ(b.is_pie, im.etype == 3, "position independent"); PBT_EQ(b.is_relocatable, rel, "relocatable"); PBT_EQ(Show(b.segments), Show(want), "code segments"); PBT_EQ(b.file_name, path, "file name"); PBT_EQ(b.kernel_module.has_value(), rel, "kernel module"); PBT_EQ(b.dwp_file_name, std::string(), "dwp file");
  if (rel) { PBT_EQ(b.kernel_module->text_section_index, text, "text section"); Info i, got; Parse(g.info, &i); for (auto& [k, v] : b.kernel_module->modinfo) got[std::string(k)] = std::string(v); PBT_EQ(pbt::ToText(got, 0), pbt::ToText(i, 0), "module information"); }
}
// Damaged and arbitrary files.
void Files(Src& s, Case& c) {
  std::string d; bool ko = s.Bool(); int kind = s.Weighted({8, 1, 1, 1});
  if (kind == 0) {
    Gen g = Image(s); ko = g.ko; d = elfgen::Write(&g.im); int n = s.Int(1, 6); bool is64 = g.im.is64; size_t eh = is64 ? 64 : 52, ph = is64 ? 56 : 32, phs = eh + (8 - eh % 8) % 8;
    // The section table is left alone: LLVM's own debug-information reader does not survive every damage to it.
    std::vector<size_t> ok; for (size_t i = 0; i < eh; ++i) { bool sec = is64 ? (i >= 40 && i < 48) || i >= 58 : (i >= 32 && i < 36) || i >= 46; if (!sec && i != 4 && i != 5) ok.push_back(i); } for (size_t i = 0; i < ph * g.im.segs.size() && !g.im.segs.empty(); ++i) ok.push_back(phs + i); for (auto& x : g.im.secs) if (x.name.size() && x.name != ".shstrtab") for (size_t i = 0; i < x.data.size(); ++i) ok.push_back(x.offset + i);
    for (int i = 0; i < n && d.size(); ++i) switch (s.Weighted({8, 1, 1, 1})) { case 0: { size_t q = s.Bool() ? ok[s.Draw(std::min<size_t>(50, ok.size() - 1))] : s.Pick(ok); if (q < d.size()) d[q] = s.Bool() ? d[q] ^ (1 << s.Draw(7)) : s.Draw(255); break; } case 1: d.resize(s.Draw(d.size())); break; case 2: d += s.Bytes(s.Int(1, 8)); break; default: if (d.size() > 5) d[4 + s.Draw(1)] = s.OneOf<int>({0, 3, 4, 255}); }
  }
  else if (kind == 1) d = s.Bytes(s.Int(0, 200)); else if (kind == 2) d = "\x7f" "ELF" + s.Bytes(s.Int(0, 100)); else d = s.OneOf<std::string>({"", "!<arch>\n", "\x7f" "ELF", "#!/bin/sh\n", "\xcf\xfa\xed\xfe____________________________"});
  std::string path = c.Tmp(ko ? "m.ko" : "bin"), missing = c.Tmp("missing"); pbt::WriteFile(path, d); c.Describe([&] { return pbt::Hex(d.substr(0, 400)); });
  auto r = dca::GetBinaryContent(path); c.NonTrivial(d.size() > 64 && kind == 0); c.Label(r.ok() ? "accepted" : "refused");
  bool elf = d.size() >= 52 && d.compare(0, 4, "\x7f" "ELF") == 0; if (!elf) { PBT_CHECK(!r.ok(), "accepted a file that is not an ELF file"); }
  if (r.ok()) {
    bool is64 = d[4] == 2, big = d[5] == 2; auto Get = [&](size_t o, int n) { U v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)(o + n <= d.size() ? d[big ? o + i : o + n - 1 - i] : 0); return v; };
    U type = Get(16, 2), phoff = is64 ? Get(32, 8) : Get(28, 4), phnum = is64 ? Get(56, 2) : Get(44, 2), W = is64 ? 56 : 32; auto& b = **r;
    PBT_EQ(b.is_pie, type == 3, "position independent"); PBT_EQ(b.is_relocatable, type == 1, "relocatable");
    if (type != 1 && phnum != 0xffff) { std::vector<dca::BinaryContent::Segment> want; for (U i = 0; i < phnum; ++i) { U o = phoff + i * W; if (Get(o, 4) != 1 || !(Get(o + (is64 ? 4 : 24), 4) & 1)) continue; if (is64) want.push_back({Get(o + 8, 8), Get(o + 16, 8), Get(o + 40, 8)}); else want.push_back({Get(o + 4, 4), Get(o + 8, 4), Get(o + 20, 4)}); } PBT_EQ(Show(b.segments), Show(want), "code segments"); c.Label("accepted, segments compared"); }
  } else PBT_CHECK(!r.status().message().empty(), "an error without explanation");
  unlink(path.c_str()); unlink(missing.c_str()); auto q = dca::GetBinaryContent(missing); PBT_CHECK(!q.ok() && q.status().code() == absl::StatusCode::kFailedPrecondition, "a missing file");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P28"; su.scale = 1.5; su.rule = "modinfo: more than six bytes; images: accepted with at least two code segments or as a module, or refused with at least three sections; files: a mutated image longer than its header";
  su.assumptions = {"note names are NUL-terminated, as ELF requires", "the first build-id note counts where there are several", "section tables are well-formed: LLVM's own reader (not autofdo's code) crashes on some damaged ones"};
  su.subs = {{"modinfo", ModInfo, 1500000, 20000000}, {"images", Images, 250000, 4000000}, {"files", Files, 250000, 4000000}};
  return pbt::Main(argc, argv, su);
}
