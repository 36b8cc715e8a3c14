// MODE: GCOV
// SOURCES: util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc util/symbolize/bytereader.cc util/symbolize/index_helper.cc util/symbolize/elf_reader.cc util/symbolize/functioninfo.cc
// TECHNIQUE: property-based testing: generated line-number programs (DWARF 2-5) against an interpreter that runs while the program is written
// LEVEL_NOTE: Random search over headers and opcode sequences; trusts the encoder and interpreter in the harness, written from the DWARF texts. VLIW operation indices, MD5-only oddities of vendors and two-level tables are not generated.
#include <memory>

#include "symbolize/bytereader-inl.h"
#include "symbolize/dwarf2reader.h"
#include "symbolize/functioninfo.h"
#include "symbolize/line_state_machine.h"
#include "dwenc.h"
#include "pbt.h"
using pbt::Case; using pbt::Src;
namespace dw = devtools_crosstool_autofdo;
using dwenc::Enc; using dwenc::Exact;

namespace {
struct Row { uint64_t addr; uint32_t file, line, col, disc; bool end; bool operator==(const Row& o) const { return addr == o.addr && file == o.file && line == o.line && col == o.col && disc == o.disc && end == o.end; } };
std::string Show(const Row& r) { char t[160]; snprintf(t, sizeof t, "{%llx file %u line %u col %u disc %u%s}", (unsigned long long)r.addr, r.file, r.line, r.col, r.disc, r.end ? " end" : ""); return t; }
std::string Show(const std::vector<Row>& v) { std::string s; for (auto& r : v) s += Show(r); return s; }
struct FileRow { std::string name; int num; uint64_t dir, mtime, len; bool operator==(const FileRow& o) const { return name == o.name && num == o.num && dir == o.dir && mtime == o.mtime && len == o.len; } };
std::string Show(const std::vector<FileRow>& v) { std::string s; for (auto& f : v) s += "{" + std::to_string(f.num) + " '" + f.name + "' dir " + std::to_string(f.dir) + " " + std::to_string(f.mtime) + " " + std::to_string(f.len) + "}"; return s; }
struct Table { std::vector<std::pair<uint32_t, std::string>> dirs; std::vector<FileRow> files; std::vector<Row> rows; };
struct Unit { Table want; uint64_t off = 0, size = 0; int version = 0; bool empty_v5 = false; };

struct Recorder : dw::LineInfoHandler {
  Table t; int cus = 0;
  void StartCU() override { ++cus; }
  void DefineDir(const char* n, uint32 d) override { t.dirs.push_back({d, n}); }
  void DefineFile(const char* n, int32 f, uint32 d, uint64 m, uint64 l) override { t.files.push_back({n, f, d, m, l}); }
  void AddLine(uint64 a, uint32 f, uint32 l, uint32 c, uint32 d, bool e) override { t.rows.push_back({(uint64_t)a, f, l, c, d, e}); }
};

std::string Name(Src& s) { return s.Text("abcXYZ019_./-+ \xc3\xa9", 1, 12, 4); }
int Pad(Src& s) { return s.Chance(1, 8) ? s.Int(1, 3) : 0; }

// Writes one unit at the end of `e`, returning what a reader must deliver.
struct Ctx { Enc e; std::string line_str, str; Enc offs; uint64_t offs_base = 0; std::set<std::string> seen; std::vector<std::string> indexed; };
Unit WriteUnit(Src& s, Ctx& x, bool md5_columns) {
  Enc& e = x.e; Unit u; u.off = e.b.size(); u.version = s.Int(2, 5);
  e.osz = s.Chance(1, 6) ? 8 : 4; if (e.osz == 8) x.seen.insert("64-bit DWARF");
  size_t ul = e.Len(); e.U(u.version, 2);
  if (u.version == 5) { e.U(e.asz, 1); e.U(0, 1); }
  size_t hl = e.b.size(); e.O(0); size_t hstart = e.b.size();
  int min_insn = s.Weighted({6, 2, 1}) == 0 ? 1 : s.OneOf({2, 4, 8, 3}); bool is_stmt = s.Bool();
  int line_base = s.Chance(1, 2) ? -5 : s.Int(-20, 3), line_range = s.Chance(1, 2) ? 14 : s.Int(1, s.Chance(1, 4) ? 255 : 30);
  int opcode_base = s.Weighted({5, 3, 2, 1}); opcode_base = opcode_base == 0 ? 13 : opcode_base == 1 ? 10 : opcode_base == 2 ? s.Int(1, 24) : s.Int(25, 255);
  e.U(min_insn, 1); if (u.version >= 4) e.U(1, 1); e.U(is_stmt, 1); e.U((uint8_t)line_base, 1); e.U(line_range, 1); e.U(opcode_base, 1);
  static const int kLen[] = {0, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1, 2, 0}; std::vector<int> lens(256, 0);
  for (int i = 1; i < opcode_base; ++i) { lens[i] = i < 16 ? kLen[i] : (int)s.Draw(3); e.U(lens[i], 1); }
  if (opcode_base < 10) x.seen.insert("opcode base below 10"); if (opcode_base > 13) x.seen.insert("opcode base above 13");
  int ndirs = (int)s.Draw(3), nfiles = (int)s.Draw(s.Chance(1, 20) ? 140 : 4);
  if (u.version < 5) {
    for (int i = 1; i <= ndirs; ++i) { std::string n = Name(s); e.Str(n); u.want.dirs.push_back({i, n}); } e.U(0, 1);
    for (int i = 1; i <= nfiles; ++i) { FileRow f{Name(s), i, s.Draw(ndirs), s.Chance(1, 3) ? s.U64(1 << 30) : 0, s.Chance(1, 3) ? s.U64(1 << 30) : 0}; e.Str(f.name); e.Uleb(f.dir, Pad(s)); e.Uleb(f.mtime, Pad(s)); e.Uleb(f.len); u.want.files.push_back(f); }
    e.U(0, 1);
  } else {
    static const std::vector<int> kStr = {8, 0x1f, 0x0e, 0x1a, 0x25, 0x26, 0x27, 0x28};
    auto PutStr = [&](int form, const std::string& n) {
      switch (form) {
        case 8: e.Str(n); return;
        case 0x1f: e.O(dwenc::AddString(&x.line_str, n)); return;
        case 0x0e: e.O(dwenc::AddString(&x.str, n)); return;
        default: {
          // The offsets table is shared by all units; its entry size follows the unit's offset size, so build it per unit size.
          uint64_t at = dwenc::AddString(&x.str, n); uint64_t idx = (x.offs.b.size() - x.offs_base) / e.osz; x.offs.osz = e.osz;
          while ((x.offs.b.size() - x.offs_base) % e.osz) x.offs.U(0xee, 1);
          idx = (x.offs.b.size() - x.offs_base) / e.osz; x.offs.O(at);
          if (form == 0x1a) e.Uleb(idx, Pad(s)); else e.U(idx, form == 0x25 ? 1 : form == 0x26 ? 2 : form == 0x27 ? 3 : 4);
          if (form == 0x25 && idx > 255) throw pbt::Discard();
        }
      }
    };
    auto FormName = [&](int f) { return "string form " + std::to_string(f); };
    int df = s.Pick(kStr); x.seen.insert(FormName(df)); e.U(1, 1); e.Uleb(1, Pad(s)); e.Uleb(df, Pad(s)); if (ndirs == 0) ndirs = 1; e.Uleb(ndirs, Pad(s));
    for (int i = 0; i < ndirs; ++i) { std::string n = Name(s); PutStr(df, n); u.want.dirs.push_back({i, n}); }
    // Columns: path and directory index always, the others sometimes, in any order.
    std::vector<std::pair<int, int>> cols = {{1, s.Pick(kStr)}}; x.seen.insert(FormName(cols[0].second));
    if (s.Chance(7, 8)) cols.push_back({2, s.OneOf({0x0b, 0x05, 0x0f})});
    if (md5_columns) { if (s.Chance(1, 3)) { cols.push_back({5, 0x1e}); x.seen.insert("MD5 column"); } if (s.Chance(1, 6)) { cols.push_back({3, s.OneOf({0x0f, 0x06, 0x07})}); x.seen.insert("time column"); } if (s.Chance(1, 6)) { cols.push_back({4, s.OneOf({0x0f, 0x0b, 0x05, 0x06, 0x07})}); x.seen.insert("size column"); } }
    s.Shuffle(cols);
    e.U(cols.size(), 1); for (auto& c : cols) { e.Uleb(c.first, Pad(s)); e.Uleb(c.second, Pad(s)); } e.Uleb(nfiles, Pad(s));
    for (int i = 0; i < nfiles; ++i) {
      FileRow f{Name(s), i, 0, 0, 0};
      auto Num = [&](int form, uint64_t max) -> uint64_t { uint64_t v; if (form == 0x0b) { v = s.Draw(std::min<uint64_t>(max, 255)); e.U(v, 1); } else if (form == 0x05) { v = s.Draw(std::min<uint64_t>(max, 65535)); e.U(v, 2); } else if (form == 0x06) { v = s.Draw(std::min<uint64_t>(max, 0xffffffff)); e.U(v, 4); } else if (form == 0x07) { v = s.U64(max); e.U(v, 8); } else { v = s.U64(max); e.Uleb(v, Pad(s)); } return v; };
      for (auto& c : cols) switch (c.first) { case 1: PutStr(c.second, f.name); break; case 2: f.dir = Num(c.second, ndirs - 1); break; case 3: f.mtime = Num(c.second, 1ull << 40); break; case 4: f.len = Num(c.second, 1ull << 40); break; case 5: for (int k = 0; k < 16; ++k) e.U(s.Draw(255), 1); break; }
      u.want.files.push_back(f);
    }
  }
  e.Set(hl, e.b.size() - hstart, e.osz);
  // The program, interpreted as it is written.
  uint64_t amask = e.asz == 4 ? 0xffffffffull : ~0ull, amax = e.asz == 4 ? 0x7fffffffull : 0x7fffffffffffffffull;
  int nseq = 0; int min_seq = 0;
  while (s.More(nseq, min_seq, 3, 1)) {
    ++nseq; Row r{0, 1, 1, 0, 0, false}; uint64_t addr = 0; int64_t line = 1; int nops = 0;
    auto Emit = [&](bool end) { r.addr = addr; r.line = (uint32_t)line; r.end = end; u.want.rows.push_back(r); r.disc = 0; };
    auto Adv = [&](uint64_t d) { addr = (addr + d) & amask; };
    while (s.More(nops, 0, 60, 12)) {
      ++nops; int k = (int)s.Weighted({12, 4, 3, 3, 2, 2, 1, 1, 1, 1, 2, 2, 3, 1, 1});
      auto Can = [&](int op) { return op < opcode_base; };
      switch (k) {
        case 0: {  // special
          int lo = opcode_base, op = s.Int(lo, 255); int adj = op - opcode_base; int64_t nl = line + line_base + adj % line_range; if (nl < 0 || nl > 0x7fffffff) break;
          e.U(op, 1); Adv((uint64_t)(adj / line_range) * min_insn); line = nl; Emit(false); x.seen.insert("special opcode"); break; }
        case 1: if (Can(1)) { e.U(1, 1); Emit(false); } break;
        case 2: if (Can(2)) { uint64_t d = s.Chance(1, 10) ? s.U64(0xffffff) : s.Draw(300); e.U(2, 1); e.Uleb(d, Pad(s)); Adv(d * min_insn); } break;
        case 3: if (Can(3)) { int64_t d = s.Chance(1, 10) ? (int64_t)s.U64(1 << 30) - (1 << 29) : s.Int(-100, 200); if (line + d < 0 || line + d > 0x7fffffff) break; e.U(3, 1); e.Sleb(d, Pad(s)); line += d; } break;
        case 4: if (Can(4)) { r.file = (uint32_t)s.Draw(nfiles + 1); e.U(4, 1); e.Uleb(r.file, Pad(s)); } break;
        case 5: if (Can(5)) { r.col = (uint32_t)s.U64(1 << 20); e.U(5, 1); e.Uleb(r.col, Pad(s)); } break;
        case 6: if (Can(6)) e.U(6, 1); break;
        case 7: if (Can(7)) e.U(7, 1); break;
        case 8: if (Can(8)) { e.U(8, 1); Adv((uint64_t)((255 - opcode_base) / line_range) * min_insn); x.seen.insert("const_add_pc"); } break;
        case 9: if (Can(9)) { int d = (int)s.Draw(65535); e.U(9, 1); e.U(d, 2); Adv(d); x.seen.insert("fixed_advance_pc"); } break;
        case 10: { int op = s.Int(10, s.Chance(1, 3) ? 255 : 24); if (op >= 13 && op <= 15) op = 16; if (!Can(op)) break; e.U(op, 1); for (int i = 0; i < lens[op]; ++i) e.Uleb(s.U64(1 << 20), Pad(s)); x.seen.insert(op < 13 ? "DWARF 3 opcode" : "unknown standard opcode"); break; }
        case 11: { addr = s.U64(amax); e.U(0, 1); e.Uleb(1 + e.asz, Pad(s)); e.U(2, 1); e.A(addr); x.seen.insert("set_address"); break; }
        case 12: { r.disc = (uint32_t)s.U64(0x7fffffff); Enc p; p.Uleb(r.disc, Pad(s)); e.U(0, 1); e.Uleb(1 + p.b.size(), Pad(s)); e.U(4, 1); e.b += p.b; x.seen.insert("discriminator"); break; }
        case 13: { if (u.version >= 5) break; FileRow f{Name(s), -1, s.Draw(ndirs), s.Draw(1000), s.Draw(1000)}; Enc p; p.Str(f.name); p.Uleb(f.dir, Pad(s)); p.Uleb(f.mtime); p.Uleb(f.len); e.U(0, 1); e.Uleb(1 + p.b.size()); e.U(3, 1); e.b += p.b; u.want.files.push_back(f); x.seen.insert("define_file"); break; }
        case 14: { std::string p = s.Bytes(s.Draw(s.Chance(1, 6) ? 200 : 6)); e.U(0, 1); e.Uleb(1 + p.size(), Pad(s)); e.U(s.Bool() ? s.Int(0x80, 0xff) : s.Int(0x11, 0x20), 1); e.b += p; x.seen.insert("unknown extended opcode"); break; }
      }
    }
    e.U(0, 1); e.Uleb(1, Pad(s)); e.U(1, 1); Emit(true);
  }
  e.Close(ul); u.size = e.b.size() - u.off; u.empty_v5 = u.version == 5 && nseq == 0;
  return u;
}

void Programs(Src& s, Case& c) {
  Ctx x; x.e.big = x.offs.big = s.Bool(); x.e.asz = s.OneOf({8, 4}); x.offs_base = s.OneOf<uint64_t>({8, 16}); x.offs.b.assign(x.offs_base, '\x77');
  x.str = "?"; x.str += '\0'; x.line_str = x.str;
  // The index table is only addressed by version 5 units, whose base is passed to the reader.
  std::vector<Unit> us; while (s.More(us.size(), 1, 4, 1)) us.push_back(WriteUnit(s, x, true));
  size_t rows = 0; for (auto& u : us) { rows += u.want.rows.size(); c.Label("version " + std::to_string(u.version)); }
  c.NonTrivial(rows >= 3); for (auto& l : x.seen) c.Label(l); c.LabelIf(x.e.big, "big-endian"); c.LabelIf(x.e.asz == 4, "32-bit addresses"); c.LabelIf(us.size() > 1, "several units");
  c.Describe([&] { std::string r; for (auto& u : us) r += "v" + std::to_string(u.version) + " files " + Show(u.want.files) + " rows " + Show(u.want.rows) + "; "; return r + " bytes " + pbt::Hex(x.e.b.substr(0, 400)); });
  dw::ByteReader rd(x.e.big ? dw::ENDIANNESS_BIG : dw::ENDIANNESS_LITTLE); rd.SetAddressSize(x.e.asz); rd.SetOffsetSize(4);
  Exact buf(x.e.b), ls(x.line_str), st(x.str), of(x.offs.b);
  uint64_t pos = 0;
  for (size_t i = 0; i < us.size(); ++i) {
    Unit& u = us[i]; Recorder h; bool five = u.version == 5 || s.Bool();
    std::unique_ptr<dw::LineInfo> li(five ? new dw::LineInfo(buf.data() + pos, buf.n - pos, ls.data(), ls.n, st.data(), st.n, of.data(), of.n, x.offs_base, &rd, &h) : new dw::LineInfo(buf.data() + pos, buf.n - pos, &rd, &h));
    uint64_t used = li->Start();
    if (u.empty_v5 && i + 1 == us.size() && li->malformed()) { c.Known("empty-v5-program-at-section-end", "a version 5 unit whose program is empty and which ends its section is reported as malformed"); return; }
    PBT_CHECK(!li->malformed(), "unit " << i << " reported as malformed");
    PBT_CHECK(!li->have_two_level_line_tables(), "unit " << i << " taken for a two-level table");
    PBT_EQ(used, u.size, "bytes consumed by unit " << i); PBT_EQ(h.cus, 1, "StartCU calls");
    PBT_CHECK(h.t.dirs == u.want.dirs, "directories of unit " << i << ": " << pbt::ToText(h.t.dirs, 0) << " want " << pbt::ToText(u.want.dirs, 0));
    PBT_CHECK(h.t.files == u.want.files, "files of unit " << i << ": " << Show(h.t.files) << " want " << Show(u.want.files));
    if (!(h.t.rows == u.want.rows)) { size_t k = 0; while (k < h.t.rows.size() && k < u.want.rows.size() && h.t.rows[k] == u.want.rows[k]) ++k; c.Fail("unit " + std::to_string(i) + " row " + std::to_string(k) + ": got " + (k < h.t.rows.size() ? Show(h.t.rows[k]) : "nothing") + " want " + (k < u.want.rows.size() ? Show(u.want.rows[k]) : "nothing")); }
    pos += used;
  }
  PBT_EQ(pos, (uint64_t)x.e.b.size(), "section not consumed exactly");
}

// The consumer that turns rows into an address map: the last row at an address wins, an end of sequence leaves a gap, file numbers resolve to the names of the table.
void AddressMap(Src& s, Case& c) {
  Ctx x; x.e.big = x.offs.big = s.Bool(); x.e.asz = s.OneOf({8, 4}); x.offs_base = 8; x.offs.b.assign(8, '\x77'); x.str = "?"; x.str += '\0'; x.line_str = x.str;
  std::vector<Unit> us; while (s.More(us.size(), 1, 3, 1)) us.push_back(WriteUnit(s, x, true));
  if (us.back().empty_v5) throw pbt::Discard();
  struct Want { bool gap; std::string dir, name; uint32_t line, disc; int seq; }; std::map<uint64_t, std::vector<Want>> want; bool resolved = false; int seq = 0;
  // A sequence that ends where another one starts leaves that start alone; its own rows there cover nothing.
  uint64_t low = s.Chance(1, 3) ? s.U64(1ull << (x.e.asz == 4 ? 30 : 60)) : 0; bool filter = s.Chance(1, 3); std::map<uint64_t, uint64_t> sampled; 
  if (filter) for (auto& u : us) for (auto& r : u.want.rows) if (s.Chance(1, 4)) sampled[r.addr] = 1 + s.Draw(s.Chance(1, 2) ? 40 : 4000);
  auto Keep = [&](uint64_t a) { if (a < low) return false; if (!filter) return true; auto it = sampled.upper_bound(a); if (it == sampled.begin()) return false; --it; return a < it->first + it->second; };
  for (auto& u : us) {
    std::map<uint32_t, std::string> dirs; std::map<uint32_t, std::pair<uint32_t, std::string>> files; dirs[0] = ""; files[0] = {0, ""};
    for (auto& d : u.want.dirs) dirs[d.first] = d.second; for (auto& f : u.want.files) if (f.num >= 0) files[f.num] = {(uint32_t)f.dir, f.name};
    bool dyn = false; for (auto& f : u.want.files) dyn |= f.num < 0; if (dyn) throw pbt::Discard();  // rows may come before the file is defined
    for (auto& r : u.want.rows) { bool keep = Keep(r.addr); if (r.end) { if (keep) { auto& v = want[r.addr]; while (!v.empty() && v.back().seq == seq) v.pop_back(); if (v.empty()) v.push_back({true, "", "", 0, 0, -1}); } ++seq; } else if (keep && files.count(r.file)) { want[r.addr].push_back({false, dirs[files[r.file].first], files[r.file].second, r.line, r.disc, seq}); resolved = true; } }
    ++seq;
  }
  c.NonTrivial(resolved && want.size() > 2); c.LabelIf(filter, "restricted to sampled functions"); c.LabelIf(low != 0, "load segment limit");
  c.Describe([&] { std::string r; for (auto& u : us) r += "v" + std::to_string(u.version) + " files " + Show(u.want.files) + " rows " + Show(u.want.rows) + "; "; return r; });
  dw::ByteReader rd(x.e.big ? dw::ENDIANNESS_BIG : dw::ENDIANNESS_LITTLE); rd.SetAddressSize(x.e.asz); rd.SetOffsetSize(4);
  Exact buf(x.e.b), ls(x.line_str), st(x.str), of(x.offs.b); dw::AddressToLineMap map; uint64_t pos = 0; std::vector<std::unique_ptr<dw::DirectoryVector>> dv; std::vector<std::unique_ptr<dw::FileVector>> fv;
  for (auto& u : us) {
    dv.emplace_back(new dw::DirectoryVector); fv.emplace_back(new dw::FileVector); dw::CULineInfoHandler h(fv.back().get(), dv.back().get(), &map, filter ? &sampled : nullptr); h.SetVaddrOfFirstLoadSegment(low);
    dw::LineInfo li(buf.data() + pos, buf.n - pos, ls.data(), ls.n, st.data(), st.n, of.data(), of.n, x.offs_base, &rd, &h); pos += li.Start(); PBT_CHECK(!li.malformed(), "malformed");
    (void)u;
  }
  auto it = map.begin(); auto w = want.begin();
  for (; it != map.end() && w != want.end(); ++it, ++w) {
    PBT_EQ((uint64_t)it->first, w->first, "next mapped address");
    PBT_EQ(it->second == 0, w->second.back().gap, "gap at " << w->first); if (it->second == 0) continue;
    auto& l = map.GetLogical(it->second); PBT_EQ(l.line, w->second.back().line, "line at " << w->first); PBT_EQ(l.discriminator, w->second.back().disc, "discriminator at " << w->first);
    PBT_EQ(std::string(l.file.second), w->second.back().name, "file name at " << w->first); PBT_EQ(std::string(l.file.first), w->second.back().dir, "directory at " << w->first);
  }
  PBT_CHECK(it == map.end() && w == want.end(), "the address map has " << (it == map.end() ? "too few" : "too many") << " entries, wanted " << want.size());
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "P23"; su.scale = 3;
  su.rule = "A case is a .debug_line section of one to four units of mixed versions with random headers, tables and programs. Non-trivial: at least three rows (programs), or at least one row resolved to a file and three mapped addresses (address map).";
  su.assumptions = {"one operation per instruction (max_ops 1)", "vendor opcodes 13 to 15 have the operand counts of the two-level extension", "line numbers stay within 31 bits and addresses within the address size"};
  su.subs = {{"programs", Programs, 400000, 8000000}, {"address map", AddressMap, 250000, 5000000}};
  return pbt::Main(argc, argv, su);
}
