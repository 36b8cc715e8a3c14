// MODE: GCOV
// SOURCES: util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc util/symbolize/bytereader.cc util/symbolize/index_helper.cc util/symbolize/elf_reader.cc util/symbolize/functioninfo.cc util/symbolize/addr2line_inlinestack.cc
// TECHNIQUE: property-based testing: generated .debug_info trees (DWARF 2-5, all forms) written by an independent encoder, the events delivered compared with the tree
// LEVEL_NOTE: Random search over units, abbreviation tables, forms and skipping decisions; trusts the encoder in the harness. Supplementary-file forms, 128-bit constants and type units are outside the statement.
#include <memory>

#include "symbolize/bytereader-inl.h"
#include "symbolize/dwarf2reader.h"
#include "symbolize/functioninfo.h"
#include "symbolize/line_state_machine.h"
#include "dwenc.h"
#include "pbt.h"
using pbt::Case; using pbt::Src;
namespace dw = devtools_crosstool_autofdo;
using dwenc::Enc; using dwenc::Exact;

namespace {
using Events = std::vector<std::string>;
std::string H(uint64_t v) { char t[24]; snprintf(t, sizeof t, "%llx", (unsigned long long)v); return t; }

struct Recorder : dw::Dwarf2Handler {
  Events ev; std::vector<bool> accept; size_t next = 0; bool take = true;
  Recorder() { ranges_base_ = addr_base_ = str_offset_base_ = 0; }
  bool StartCompilationUnit(uint64 off, uint8 a, uint8 o, uint64 len, uint8 v) override { ev.push_back("unit " + H(off) + " addr " + H(a) + " off " + H(o) + " len " + H(len) + " v" + H(v)); return take; }
  bool StartDIE(uint64 off, enum dw::DwarfTag tag, const dw::AttributeList& at) override {
    std::string s = "start " + H(off) + " tag " + H(tag); for (auto& a : at) s += " " + H(a.name) + ":" + H(a.form); ev.push_back(s);
    return next < accept.size() ? accept[next++] : (next++, true);
  }
  void EndDIE(uint64 off) override { ev.push_back("end " + H(off)); }
  void ProcessAttributeUnsigned(uint64 off, enum dw::DwarfAttribute a, enum dw::DwarfForm f, uint64 d) override {
    ev.push_back("u " + H(off) + " " + H(a) + ":" + H(f) + " = " + H(d));
    if (a == dw::DW_AT_str_offsets_base) set_str_offset_base(d); if (a == dw::DW_AT_addr_base) set_addr_base(d);  // what the symbolizer's handler does
  }
  void ProcessAttributeSigned(uint64 off, enum dw::DwarfAttribute a, enum dw::DwarfForm f, int64 d) override { ev.push_back("s " + H(off) + " " + H(a) + ":" + H(f) + " = " + std::to_string((long long)d)); }
  void ProcessAttributeBuffer(uint64 off, enum dw::DwarfAttribute a, enum dw::DwarfForm f, const char* d, uint64 n) override { ev.push_back("b " + H(off) + " " + H(a) + ":" + H(f) + " = " + pbt::Hex(std::string(d, n))); }
  void ProcessAttributeString(uint64 off, enum dw::DwarfAttribute a, enum dw::DwarfForm f, const char* d) override { ev.push_back("t " + H(off) + " " + H(a) + ":" + H(f) + " = " + (d ? "'" + std::string(d) + "'" : "null")); }
};

struct Abb { int tag; bool kids; std::vector<std::pair<int, int>> at; std::vector<int64_t> implicit; };
struct World {
  Enc info, abbrev, offs, addr; std::string str, line_str; bool five_tables = false, old_tables = false; std::set<std::string> seen; size_t dies = 0, attrs = 0, skipped = 0;
  Events want; std::vector<bool> accept; std::vector<bool> take; std::vector<uint64_t> size; std::vector<std::vector<Abb>*> tabs;
};
int Pad(Src& s) { return s.Chance(1, 8) ? s.Int(1, 3) : 0; }
const std::vector<int> kTags = {0x2e, 0x1d, 0x34, 0x05, 0x0b, 0x11, 0x24, 0x0f, 0x13, 0x0d, 0x39, 0x48, 0x4109, 0x4106, 0x18, 0x1e};
const std::vector<int> kNames = {0x03, 0x11, 0x12, 0x55, 0x3a, 0x3b, 0x39, 0x6e, 0x2007, 0x31, 0x47, 0x58, 0x59, 0x57, 0x2136, 0x1b, 0x25, 0x13, 0x10, 0x02, 0x40, 0x49, 0x3f, 0x34, 0x1c, 0x01, 0x2117, 0x1fff};
std::string Word(Src& s) { return s.Text("abcdXYZ_01 $<>", 0, 14, 5); }

struct UnitWriter {
  Src& s; World& w; int ver; bool indexed; std::vector<Abb> abbs; uint64_t unit_off = 0; int depth = 0;
  uint64_t str_base = 0, addr_base = 0; std::vector<std::string> strs; std::vector<uint64_t> pool; bool want_bases = false; size_t budget = 30;

  std::vector<int> Forms() {
    std::vector<int> f = {0x01, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16};
    if (ver >= 4) for (int x : {0x17, 0x18, 0x19, 0x20}) f.push_back(x);
    if (ver >= 5) for (int x : {0x1f, 0x21, 0x22, 0x23}) f.push_back(x);
    if (ver >= 5 && indexed) for (int x : {0x1a, 0x1b, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c}) f.push_back(x);
    if (ver < 5 && indexed) for (int x : {0x1f01, 0x1f02}) f.push_back(x);
    return f;
  }
  int MakeAbbrev(bool root) {
    if (!root && abbs.size() > 1 && s.Chance(1, 2)) return 1 + (int)s.Draw(abbs.size() - 2);
    Abb a; a.tag = root ? (s.Chance(1, 8) && ver == 5 ? 0x4a : 0x11) : s.Pick(kTags); a.kids = root ? s.Chance(7, 8) : s.Bool(); auto forms = Forms();
    while (s.More(a.at.size(), 0, 10, 4)) { int f = s.Pick(forms); a.at.push_back({s.Pick(kNames), f}); a.implicit.push_back(f == 0x21 ? (int64_t)(s.Chance(1, 3) ? s.U64(~0ull) : s.U64(600) - 300) : 0); }
    if (root && want_bases) {
      for (int n : {0x72, 0x73}) { size_t at = s.Draw(a.at.size()); a.at.insert(a.at.begin() + at, {n, 0x17}); a.implicit.insert(a.implicit.begin() + at, 0); }
    }
    abbs.push_back(a); return (int)abbs.size() - 1;
  }
  void Value(uint64_t die, int name, int form, int64_t implicit, bool deliver, bool allow_indirect = true) {
    Enc& e = w.info; ++w.attrs;
    auto U = [&](uint64_t v) { if (deliver) w.want.push_back("u " + H(die) + " " + H(name) + ":" + H(form) + " = " + H(v)); };
    auto S = [&](int64_t v) { if (deliver) w.want.push_back("s " + H(die) + " " + H(name) + ":" + H(form) + " = " + std::to_string((long long)v)); };
    auto T = [&](const std::string& v) { if (deliver) w.want.push_back("t " + H(die) + " " + H(name) + ":" + H(form) + " = '" + v + "'"); };
    auto B = [&](const std::string& v) { if (deliver) w.want.push_back("b " + H(die) + " " + H(name) + ":" + H(form) + " = " + pbt::Hex(v)); };
    auto Fixed = [&](int n) { uint64_t v = n == 8 ? s.U64(~0ull) : s.U64((1ull << (8 * n)) - 1); e.U(v, n); U(v); };
    auto InTable = [&](std::string* t) { std::string v = Word(s); uint64_t at = dwenc::AddString(t, v); size_t cut = s.Chance(1, 3) ? s.Draw(v.size()) : 0; e.O(at + cut); T(v.substr(cut)); };
    auto Index = [&](int form_size, size_t n) { size_t i = s.Draw(std::min<size_t>(n - 1, form_size == 1 ? 255 : 65535)); if (form_size) e.U(i, form_size); else e.Uleb(i, Pad(s)); return i; };
    w.seen.insert("form " + H(form));
    switch (form) {
      case 0x01: { uint64_t v = s.U64(e.asz == 4 ? 0xffffffffull : ~0ull); e.A(v); U(v); return; }
      case 0x0b: case 0x0c: case 0x11: return Fixed(1);
      case 0x05: case 0x12: return Fixed(2);
      case 0x06: case 0x13: return Fixed(4);
      case 0x07: case 0x14: case 0x20: return Fixed(8);
      case 0x0a: { std::string v = s.Bytes(s.Draw(s.Chance(1, 9) ? 255 : 5)); e.U(v.size(), 1); e.b += v; B(v); return; }
      case 0x03: { std::string v = s.Bytes(s.Draw(s.Chance(1, 9) ? 700 : 5)); e.U(v.size(), 2); e.b += v; B(v); return; }
      case 0x04: { std::string v = s.Bytes(s.Draw(s.Chance(1, 9) ? 300 : 5)); e.U(v.size(), 4); e.b += v; B(v); return; }
      case 0x09: case 0x18: { std::string v = s.Bytes(s.Draw(s.Chance(1, 9) ? 300 : 5)); e.Uleb(v.size(), Pad(s)); e.b += v; B(v); return; }
      case 0x08: { std::string v = Word(s); e.Str(v); T(v); return; }
      case 0x0d: { int64_t v = s.Chance(1, 2) ? s.Int(-200, 200) : (int64_t)s.U64(~0ull); e.Sleb(v, Pad(s)); S(v); return; }
      case 0x0f: case 0x15: case 0x22: case 0x23: { uint64_t v = s.U64(~0ull >> s.Draw(60)); e.Uleb(v, Pad(s)); U(v); return; }
      case 0x0e: return InTable(&w.str);
      case 0x1f: return InTable(&w.line_str);
      case 0x10: { bool a = ver == 2; uint64_t v = s.U64((a ? e.asz : e.osz) == 4 ? 0xffffffffull : ~0ull); if (a) e.A(v); else e.O(v); U(v); return; }
      case 0x17: { uint64_t v = name == 0x72 ? str_base : name == 0x73 ? addr_base : s.U64(e.osz == 4 ? 0xffffffffull : ~0ull); e.O(v); U(v); return; }
      case 0x19: U(1); return;
      case 0x21: S(implicit); return;
      case 0x16: { auto forms = Forms(); int f; do f = s.Pick(forms); while (f == 0x21 || (f == 0x16 && !allow_indirect)); e.Uleb(f, Pad(s)); --w.attrs; return Value(die, name, f, 0, deliver, f != 0x16); }
      case 0x1a: case 0x1f02: case 0x25: case 0x26: case 0x27: case 0x28: { int n = form == 0x25 ? 1 : form == 0x26 ? 2 : form == 0x27 ? 3 : form == 0x28 ? 4 : 0; T(strs[Index(n, strs.size())]); return; }
      case 0x1b: case 0x1f01: case 0x29: case 0x2a: case 0x2b: case 0x2c: { int n = form == 0x29 ? 1 : form == 0x2a ? 2 : form == 0x2b ? 3 : form == 0x2c ? 4 : 0; U(pool[Index(n, pool.size())]); return; }
    }
    abort();
  }
  void Die(bool root, bool deliver_unit) {
    Enc& e = w.info; uint64_t off = e.b.size(); int k = MakeAbbrev(root); const Abb a = abbs[k]; ++w.dies;
    e.Uleb(k, Pad(s)); bool acc = root || s.Chance(2, 3); if (deliver_unit) w.accept.push_back(acc); if (!acc) ++w.skipped;
    if (deliver_unit) { std::string t = "start " + H(off) + " tag " + H(a.tag); for (auto& x : a.at) t += " " + H(x.first) + ":" + H(x.second); w.want.push_back(t); }
    for (size_t i = 0; i < a.at.size(); ++i) Value(off, a.at[i].first, a.at[i].second, a.implicit[i], acc && deliver_unit);
    if (a.kids) { int n = 0; ++depth; while (depth < 7 && budget > 0 && s.More(n, 0, 6, root ? 4 : 1)) { ++n; --budget; Die(false, deliver_unit); } --depth; e.U(0, 1); }
    if (deliver_unit) w.want.push_back("end " + H(off));
  }
};

void WriteUnit(Src& s, World& w) {
  Enc& e = w.info; int ver = s.Int(2, w.old_tables ? 4 : 5);
  UnitWriter u{s, w, ver, ver == 5 ? w.five_tables : w.old_tables}; u.abbs.resize(1); u.unit_off = e.b.size();
  if (u.indexed) {
    int n = 1 + (int)s.Draw(s.Chance(1, 6) ? 200 : 5);
    for (int i = 0; i < n; ++i) { u.strs.push_back(Word(s)); u.pool.push_back(s.U64(e.asz == 4 ? 0xffffffffull : ~0ull)); }
    if (ver == 5) {
      u.want_bases = !w.offs.b.empty() || s.Bool();  // the first contribution is also found without the attributes
      size_t l = w.offs.Len(); w.offs.U(5, 2); w.offs.U(0, 2); u.str_base = w.offs.b.size(); for (auto& x : u.strs) w.offs.O(dwenc::AddString(&w.str, x)); w.offs.Close(l);
      l = w.addr.Len(); w.addr.U(5, 2); w.addr.U(e.asz, 1); w.addr.U(0, 1); u.addr_base = w.addr.b.size(); for (auto x : u.pool) w.addr.A(x); w.addr.Close(l);
    } else if (w.offs.b.empty()) {
      for (auto& x : u.strs) w.offs.O(dwenc::AddString(&w.str, x)); for (auto x : u.pool) w.addr.A(x);
    } else { u.indexed = false; }
  }
  bool take = s.Chance(7, 8); w.take.push_back(take);
  size_t l = e.Len(); size_t body = e.b.size() + e.osz; e.U(ver, 2); int type = 1; uint64_t dwo = 0; uint64_t abbrev_off = w.abbrev.b.size();
  if (ver == 5) { type = s.Weighted({8, 1, 1}) ? s.OneOf({4, 5}) : 1; e.U(type, 1); e.U(e.asz, 1); e.O(abbrev_off); if (type != 1) { dwo = s.U64(~0ull); e.U(dwo, 8); w.seen.insert("skeleton or split unit"); } }
  else { e.O(abbrev_off); e.U(e.asz, 1); }
  (void)body; size_t mark = w.want.size(); w.want.push_back("");
  u.Die(true, take); if (s.Chance(1, 6)) { int n = s.Int(1, 4); for (int i = 0; i < n; ++i) e.U(0, 1); w.seen.insert("padding"); }
  e.Close(l); uint64_t len = e.b.size() - l - e.osz;
  w.want[mark] = "unit " + H(u.unit_off) + " addr " + H(e.asz) + " off " + H(e.osz) + " len " + H(len) + " v" + H(ver); w.size.push_back(e.b.size() - u.unit_off);
  for (size_t i = 1; i < u.abbs.size(); ++i) { auto& a = u.abbs[i]; Enc& b = w.abbrev; b.Uleb(i, Pad(s)); b.Uleb(a.tag); b.U(a.kids, 1); for (size_t j = 0; j < a.at.size(); ++j) { b.Uleb(a.at[j].first, Pad(s)); b.Uleb(a.at[j].second); if (a.at[j].second == 0x21) b.Sleb(a.implicit[j], Pad(s)); } b.U(0, 1); b.U(0, 1); }
  w.abbrev.U(0, 1); w.seen.insert("version " + std::to_string(ver)); if (!take) w.seen.insert("skipped unit"); if (u.want_bases) w.seen.insert("explicit table bases");
}

void Trees(Src& s, Case& c) {
  World w; bool big = s.Bool(); int asz = s.OneOf({8, 4}), osz = s.Chance(1, 6) ? 8 : 4;
  for (Enc* e : {&w.info, &w.abbrev, &w.offs, &w.addr}) { e->big = big; e->asz = asz; e->osz = osz; }
  w.str = Word(s); w.str += '\0'; w.line_str = w.str; int t = (int)s.Weighted({3, 3, 1}); w.five_tables = t == 1; w.old_tables = t == 2;
  size_t n = 0; while (s.More(n, 1, 4, 1)) { ++n; WriteUnit(s, w); }
  c.NonTrivial(w.dies >= 3 && w.attrs >= 4); for (auto& x : w.seen) c.Label(x); c.LabelIf(big, "big-endian"); c.LabelIf(asz == 4, "32-bit addresses"); c.LabelIf(osz == 8, "64-bit DWARF"); c.LabelIf(w.skipped, "skipped entries"); c.LabelIf(n > 1, "several units");
  c.Describe([&] { std::string r; for (auto& x : w.want) r += x + "\n"; return r.substr(0, 4000) + "info " + pbt::Hex(w.info.b.substr(0, 300)); });
  Exact info(w.info.b), ab(w.abbrev.b), st(w.str), ls(w.line_str), of(w.offs.b), ad(w.addr.b);
  dw::SectionMap m; auto Put = [&](const char* n, Exact& x) { m[n] = {x.data(), x.n}; };
  Put(".debug_info", info); Put(".debug_abbrev", ab); Put(".debug_str", st); Put(".debug_line_str", ls); if (w.offs.b.size()) { Put(".debug_str_offsets", of); Put(".debug_addr", ad); }
  dw::ByteReader rd(big ? dw::ENDIANNESS_BIG : dw::ENDIANNESS_LITTLE); rd.SetAddressSize(asz); rd.SetOffsetSize(4);
  Recorder h; h.accept = w.accept; uint64_t pos = 0; std::unique_ptr<dw::CompilationUnit> reuse; bool again = s.Chance(1, 4);
  for (size_t i = 0; i < n; ++i) {
    h.take = w.take[i]; uint64_t used;
    if (again && reuse) used = reuse->Start(pos);
    else { reuse.reset(new dw::CompilationUnit("none", m, pos, &rd, &h)); used = reuse->Start(); }
    PBT_CHECK(!reuse->malformed(), "unit " << i << " reported as malformed"); PBT_EQ(used, w.size[i], "size of unit " << i); pos += used;
  }
  PBT_EQ(pos, (uint64_t)w.info.b.size(), "section not consumed exactly");
  for (size_t i = 0; i < w.want.size() || i < h.ev.size(); ++i) { std::string g = i < h.ev.size() ? h.ev[i] : "nothing", x = i < w.want.size() ? w.want[i] : "nothing"; PBT_CHECK(g == x, "event " << i << ": got <" << g << "> want <" << x << ">"); }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "P24";
  su.rule = "A case is a .debug_info section of one to four units with their abbreviation, string, index and address tables, and a decision per entry whether the consumer wants it. Non-trivial: at least three entries and four attributes.";
  su.assumptions = {"abbreviation codes are numbered from 1", "one address size and one offset size per section", "no supplementary-file forms, 128-bit constants or type units"};
  su.subs = {{"trees", Trees, 150000, 4000000}};
  return pbt::Main(argc, argv, su);
}
