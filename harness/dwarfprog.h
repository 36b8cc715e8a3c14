// Debug information written directly: compilation units with functions, inline
// trees and line tables, together with the inline stack of every address.
#ifndef DWARFPROG_H_
#define DWARFPROG_H_
#include "dwenc.h"
#include "elfgen.h"
#include "stackgen.h"
namespace dwarfprog {
using pbt::Case; using pbt::Src; using dwenc::Enc; using stackgen::Frame; using stackgen::Stack;
using Range = std::pair<uint64_t, uint64_t>; using Ranges = std::vector<Range>;
struct Fn { std::string name, lname; uint32_t decl = 0; int style = 0, unit = 0; uint64_t origin = 0; bool nested_decl = false; const std::string& shown() const { return lname.empty() ? name : lname; } };
struct Inst { int fn = 0; Ranges r; uint32_t file = 0, line = 0, disc = 0; bool block = false; std::vector<Inst> kids; };
struct Row { uint64_t addr; uint32_t file, line, disc; bool end; };
struct Unit { int ver = 5; bool low_pc = true; bool has_lines = true; uint64_t base = 0; std::vector<Inst> insts; std::vector<std::vector<Row>> seqs; std::vector<std::string> dirs; std::vector<std::pair<std::string, int>> files; uint64_t start = 0; bool rnglistx = false, strx = false; int one = 0; };
struct Sym { std::string name; uint64_t lo, hi; };
struct Prog { std::vector<Sym> syms; uint64_t seg_offset = 0; std::vector<Unit> units; std::vector<Fn> fns; std::string elf; std::map<uint64_t, Stack> stacks; std::vector<uint64_t> addrs; std::string text; size_t max_depth = 0; uint64_t lo = 0, hi = 0; };

inline std::string RangeText(const Ranges& r) { std::string o; char t[60]; for (auto& x : r) { snprintf(t, sizeof t, "[%llx,%llx)", (unsigned long long)x.first, (unsigned long long)x.second); o += t; } return o; }

struct Gen {
  Src& s; bool llvm; Prog p; Enc info, abbrev, line, ranges, rnglists, stroffs; std::string str, line_str; bool lines_only = false;  // no .debug_info
  int nabb = 0; std::vector<std::pair<Enc*, size_t>> dummy;
  std::vector<std::pair<size_t, int>> cross;  // ref_addr fixups: position, function
  std::map<std::string, int> abbs; std::vector<Ranges> lists; size_t cu_abbrev = 0; size_t strx_base = 0, n_strx = 0;
  bool syms = false;  // with a symbol table, and lines and discriminators that fit profiles
  Gen(Src& src, bool l, bool sy = false) : s(src), llvm(l), syms(sy) {}

  uint32_t Line() { if (syms) return 20 + (uint32_t)(s.Chance(1, 8) ? s.Draw(60000) : s.Draw(30)); return 1 + (uint32_t)(s.Chance(1, 8) ? s.U64(60000) : s.Draw(200)); }
  uint32_t Disc() { return s.Chance(2, 3) ? 0 : (uint32_t)(s.Chance(1, 4) ? s.U64(syms && !llvm ? 0xffffu : 0xffffffffu) : s.Draw(12)); }
  Ranges Carve(const Ranges& in, Ranges* rest) {  // some part of `in`
    Ranges out; rest->clear();
    for (auto& r : in) {
      uint64_t n = r.second - r.first; if (n < 2 || s.Chance(1, 3)) { rest->push_back(r); continue; }
      uint64_t a = s.Draw(n - 1), b = a + 1 + s.Draw(n - a - 1); if (a) rest->push_back({r.first, r.first + a}); out.push_back({r.first + a, r.first + b}); if (b < n) rest->push_back({r.first + b, r.second});
    }
    return out;
  }
  void Inline(Inst* in, int depth, int unit) {
    Ranges left = in->r; int n = 0;
    while (s.More(n, 0, 4, depth == 0 ? 2 : 1) && depth < 7) {
      ++n; Ranges rest, mine = Carve(left, &rest); if (mine.empty()) continue; left = rest;
      Inst k; std::vector<int> can; for (size_t i = 0; i < p.fns.size(); ++i) if ((p.fns[i].style == 1 || p.fns[i].style == 3) && (p.fns[i].unit == unit || s.Chance(1, 6))) can.push_back(i);
      if (can.empty()) return; k.fn = s.Pick(can); k.r = mine; k.line = Line(); k.disc = Disc(); k.block = s.Chance(1, 4); auto& u = p.units[unit]; k.file = u.ver >= 5 ? s.Draw(u.files.size() - 1) : 1 + s.Draw(u.files.size() - 2);
      Inline(&k, depth + 1, unit); in->kids.push_back(k);
    }
    if (s.Chance(1, 4) && in->kids.size() > 1) s.Shuffle(in->kids);
  }
  // ---- encoding
  int Abb(int tag, bool kids, const std::vector<std::pair<int, int>>& at, const std::vector<int64_t>& implicit) {
    Enc e; e.Uleb(tag); e.U(kids, 1); size_t k = 0; for (auto& a : at) { e.Uleb(a.first); e.Uleb(a.second); if (a.second == 0x21) e.Sleb(implicit[k++]); } e.Uleb(0); e.Uleb(0);
    auto it = abbs.find(e.b); if (it != abbs.end()) return it->second; int n = abbs.size() + 1; abbs[e.b] = n; abbrev.Uleb(n); abbrev.b += e.b; return n;
  }
  struct Die { int tag; bool kids = false; std::vector<std::pair<int, int>> at; std::vector<int64_t> imp; Enc body; };
  void Const(Die& d, int attr, uint64_t v, int ver) {
    int f = v < 256 ? 0x0b : v < 65536 ? 0x05 : 0x06; if (f == 0x0b && s.Chance(1, 8)) f = 0x05; if (f == 0x05 && s.Chance(1, 8)) f = 0x06; if (ver >= 5 && s.Chance(1, 6)) f = 0x21;
    d.at.push_back({attr, f}); if (f == 0x21) d.imp.push_back(v); else d.body.U(v, f == 0x0b ? 1 : f == 0x05 ? 2 : 4);
  }
  void Name(Die& d, int attr, const std::string& v, Unit& u) {
    int f = s.Weighted({2, 2, u.strx ? 4 : 0, u.ver >= 5 ? 1 : 0}); 
    if (f == 0) { d.at.push_back({attr, 0x08}); d.body.Str(v); }
    else if (f == 1) { d.at.push_back({attr, 0x0e}); d.body.U(dwenc::AddString(&str, v), 4); }
    else if (f == 2) { d.at.push_back({attr, 0x25}); d.body.U(n_strx++, 1); stroffs.U(dwenc::AddString(&str, v), 4); }
    else { d.at.push_back({attr, 0x1f}); d.body.U(dwenc::AddString(&line_str, v), 4); }
    if (n_strx > 200) u.strx = false;
  }
  uint64_t Emit(Die& d) { uint64_t at = info.b.size(); info.Uleb(Abb(d.tag, d.kids, d.at, d.imp)); info.b += d.body.b; return at; }
  void SecOff(Die& d, int attr, uint64_t v, int ver) { d.at.push_back({attr, ver >= 4 ? 0x17 : 0x06}); d.body.U(v, 4); }
  // The same addresses as a list with touching, overlapping and empty entries.
  Ranges Chop(const Ranges& r, Unit& u) {
    if (llvm || !s.Chance(1, 4)) return r; Ranges o; bool over = s.Chance(1, 3), empty = s.Chance(1, 3);  // LLVM takes a call across a seam for two
    for (auto& x : r) {
      uint64_t n = x.second - x.first; if (n < 2 || s.Chance(1, 3)) { o.push_back(x); continue; }
      uint64_t m = x.first + 1 + s.Draw(n - 2), e = over ? m + s.Draw(x.second - m) : m; o.push_back({x.first, e}); o.push_back({m, x.second}); if (over && s.Bool()) { uint64_t a = x.first + s.Draw(n - 1); o.push_back({a, a + 1 + s.Draw(x.second - a - 1)}); }
    }
    if (empty) { uint64_t a = s.Chance(1, 4) ? 0 : p.lo + s.Draw(p.hi - p.lo); if (a >= u.base) o.insert(o.begin() + s.Draw(o.size()), {a, a}); }
    return o;
  }
  void PC(Die& d, const Ranges& r, Unit& u) {
    if (r.size() == 1 && !s.Chance(1, 6)) {
      d.at.push_back({0x11, 0x01}); d.body.U(r[0].first, 8);
      if (u.ver >= 4 && !s.Chance(1, 5)) { int f = s.OneOf({0x07, 0x06, 0x0f, 0x05}); uint64_t n = r[0].second - r[0].first; d.at.push_back({0x12, f}); if (f == 0x0f) d.body.Uleb(n); else d.body.U(n, f == 0x07 ? 8 : f == 0x06 ? 4 : 2); }
      else { d.at.push_back({0x12, 0x01}); d.body.U(r[0].second, 8); }
      return;
    }
    uint64_t base = u.base; Ranges o = Chop(r, u); if (s.Chance(1, 3)) s.Shuffle(o);
    if (u.ver < 5) {
      SecOff(d, 0x55, ranges.b.size(), u.ver); bool sel = s.Chance(1, 4);
      if (sel) { base = s.Bool() ? 0 : r[0].first & ~0xfffull; for (auto& x : o) base = std::min(base, x.first); ranges.U(~0ull, 8); ranges.U(base, 8); }
      for (auto& x : o) { if (x.first == base && x.second == base) continue; ranges.U(x.first - base, 8); ranges.U(x.second - base, 8); } ranges.U(0, 8); ranges.U(0, 8);
    } else {
      uint64_t off = 0; if (u.rnglistx && lists.size() < 200 && s.Bool()) { d.at.push_back({0x55, 0x23}); d.body.Uleb(lists.size()); lists.push_back(o); return; }
      off = Table5(o, base); SecOff(d, 0x55, off, u.ver);
    }
  }
  // A table of its own for a list referred to by offset.
  uint64_t Table5(const Ranges& o, uint64_t base) {
    size_t h = rnglists.b.size(); rnglists.U(0, 4); rnglists.U(5, 2); rnglists.U(8, 1); rnglists.U(0, 1); rnglists.U(0, 4); if (s.Chance(1, 8)) rnglists.U(0, 1); uint64_t at = rnglists.b.size(); List(o, base); rnglists.Set(h, rnglists.b.size() - h - 4, 4); return at;
  }
  void List(const Ranges& o, uint64_t base) {
    for (auto& x : o) {
      if (s.Chance(1, 6)) { base = s.Bool() ? x.first : x.first & ~0xffull; rnglists.U(5, 1); rnglists.U(base, 8); }
      switch (s.Weighted({3, 2, 2})) { case 0: if (x.first >= base) { rnglists.U(4, 1); rnglists.Uleb(x.first - base); rnglists.Uleb(x.second - base); break; } case 1: rnglists.U(7, 1); rnglists.U(x.first, 8); rnglists.Uleb(x.second - x.first); break; default: rnglists.U(6, 1); rnglists.U(x.first, 8); rnglists.U(x.second, 8); }
    }
    rnglists.U(0, 1);
  }
  // A description that the program's code does not bear out: of a function the linker has left out, or of another copy of one.
  void Ghost(const Inst& in, Unit& u) {
    int kind = llvm ? 0 : s.Draw(2); Ranges r; Fn& f = p.fns[in.fn];
    if (kind == 0) { uint64_t a = s.Bool() ? 0 : 8 * s.Draw(10); int n = s.Chance(1, 4) ? 2 : 1; for (int k = 0; k < n; ++k) { uint64_t z = 1 + s.Draw(200); r.push_back({a, a + z}); a += z + s.Draw(20); } }
    else {
      auto Joined = [](Ranges r) { std::sort(r.begin(), r.end()); Ranges o; for (auto& x : r) if (o.size() && o.back().second >= x.first) o.back().second = std::max(o.back().second, x.second); else o.push_back(x); return o; };
      auto own = Joined(in.r); bool some = false; std::vector<uint64_t> starts; for (auto& x : p.units) for (auto& y : x.insts) for (auto& z : Joined(y.r)) starts.push_back(z.first); std::sort(starts.begin(), starts.end());
      for (auto& x : own) { if (r.size() && s.Chance(1, 3)) continue; uint64_t e = x.first + 1 + s.Draw(x.second - x.first - 1); auto nx = std::upper_bound(starts.begin(), starts.end(), x.first); if (kind == 2 && nx != starts.end() && (!some || s.Bool()) && (r.empty() || r.back().second <= x.first)) { e = *nx + 1 + s.Draw(30); some = true; } r.push_back({x.first, e}); }
      for (size_t k = 1; k < r.size(); ++k) if (r[k - 1].second > r[k].first) return;
      if (kind == 2 && !some) return; if (kind == 1 && r == own) return;
    }
    Die q; q.tag = 0x2e; q.kids = s.Bool(); Die n; std::string other = s.Bool() ? "ghost" : f.name; Name(q, 0x03, other, u); Const(q, 0x3b, Line(), u.ver); PC(q, r, u); Emit(q); ghosts = true;
    if (q.kids) { for (size_t k = 0; k < p.fns.size(); ++k) if ((p.fns[k].style == 1 || p.fns[k].style == 3) && p.fns[k].unit == in_unit && s.Bool()) { Die i; i.tag = 0x1d; size_t fr = refs.size(); Ref(i, 0x31, k, in_unit, u); PC(i, {{r[0].first, r[0].first + 1 + s.Draw(r[0].second - r[0].first - 1)}}, u); Const(i, 0x59, Line(), u.ver); EmitRefs(i, fr); break; } info.U(0, 1); }
  }
  bool ghosts = false; int in_unit = 0; std::vector<uint64_t> dead;
  void Noise(Unit& u, int depth) {
    Die d; d.tag = s.OneOf({0x05, 0x34, 0x24, 0x16}); if (s.Bool()) Name(d, 0x03, s.Text("abxyz", 1, 6, 3), u); if (s.Bool()) Const(d, 0x3b, Line(), u.ver); if (s.Chance(1, 3)) { d.at.push_back({0x02, u.ver >= 4 ? 0x18 : 0x0a}); std::string b = s.Bytes(s.Draw(5)); d.body.U(b.size(), 1); d.body.b += b; }
    if (s.Chance(1, 3)) { d.at.push_back({0x49, 0x13}); d.body.U(s.Draw(500), 4); } Emit(d);
  }
  void Ref(Die& d, int attr, int fn, int unit, Unit& u) {
    auto& f = p.fns[fn]; if (f.unit == unit && !s.Chance(1, 12)) { d.at.push_back({attr, 0x13}); cross.push_back({d.body.b.size(), fn}); d.body.U(0, 4); refs.push_back({0, 0, fn, unit}); (void)u; refs.back().rel = cross.back().first; refs.back().local = true; }
    else { d.at.push_back({attr, 0x10}); refs.push_back({0, d.body.b.size(), fn, unit}); refs.back().rel = d.body.b.size(); d.body.U(0, u.ver == 2 ? 8 : 4); refs.back().wide = u.ver == 2; }
  }
  struct RefFix { uint64_t at; uint64_t rel; int fn, unit; bool local = false, wide = false; }; std::vector<RefFix> refs;
  uint64_t EmitRefs(Die& d, size_t first_ref) { uint64_t at = info.b.size(); info.Uleb(Abb(d.tag, d.kids, d.at, d.imp)); uint64_t b = info.b.size(); info.b += d.body.b; for (size_t i = first_ref; i < refs.size(); ++i) refs[i].at = b + refs[i].rel; return at; }
  void Decl(Die& d, Fn& f, Unit& u, bool name, bool lname, bool decl) {
    int order = s.Draw(2); auto N = [&] { if (name) Name(d, 0x03, f.name, u); }; auto L = [&] { if (lname && f.lname.size()) Name(d, u.ver >= 4 ? 0x6e : 0x2007, f.lname, u); }; auto D = [&] { if (decl) { Const(d, 0x3a, 1, u.ver); Const(d, 0x3b, f.decl, u.ver); if (s.Bool()) Const(d, 0x39, 7, u.ver); } };
    if (order == 0) { N(); D(); L(); } else if (order == 1) { L(); N(); D(); } else { D(); N(); L(); }
  }
  void Kids(const Inst& in, int unit, int depth) {
    Unit& u = p.units[unit]; if (s.Chance(1, 3)) Noise(u, depth);
    for (auto& k : in.kids) {
      if (k.block) { Die b; b.tag = 0x0b; b.kids = true; if (s.Bool()) PC(b, k.r, u); Emit(b); }
      Die d; d.tag = 0x1d; d.kids = !k.kids.empty() || s.Chance(1, 4); size_t fr = refs.size(); auto R = [&] { Ref(d, 0x31, k.fn, unit, u); }; auto C = [&] { Const(d, 0x58, k.file, u.ver); Const(d, 0x59, k.line, u.ver); if (s.Bool()) Const(d, 0x57, 3, u.ver); if (k.disc) Const(d, 0x2136, k.disc, u.ver); };
      if (s.Bool()) { R(); PC(d, k.r, u); C(); } else if (s.Bool()) { R(); C(); PC(d, k.r, u); } else { C(); PC(d, k.r, u); R(); }
      EmitRefs(d, fr); if (d.kids) { Kids(k, unit, depth + 1); info.U(0, 1); }
      if (k.block) { if (s.Chance(1, 3)) Noise(u, depth); info.U(0, 1); }
    }
    if (!llvm && in.r.size() && s.Chance(1, 60)) {  // an inlined call that is not part of its caller is no call
      for (size_t k = 0; k < p.fns.size(); ++k) if ((p.fns[k].style == 1 || p.fns[k].style == 3) && p.fns[k].unit == unit) { auto& x = s.Pick(in.r); Die d; d.tag = 0x1d; size_t fr = refs.size(); Ref(d, 0x31, k, unit, u); PC(d, {{x.first + s.Draw(x.second - x.first - 1), p.hi + 1 + s.Draw(9)}}, u); Const(d, 0x58, 1, u.ver); Const(d, 0x59, Line(), u.ver); EmitRefs(d, fr); break; }
    }
    if (s.Chance(1, 4)) Noise(u, depth); if (s.Chance(1, 400)) { Die d; d.tag = 0x34; d.at.push_back({0x03, 0x08}); d.body.Str(std::string(66000, 'v')); Emit(d); }
  }
  void Table(Unit& u) {  // one line table, returns nothing; u.start holds its offset
    u.start = line.b.size(); int ver = u.ver; size_t told = u.files.size(); if (ver < 5 && u.seqs.size() && s.Chance(1, 6)) told = 1 + s.Draw(u.files.size() - 1);  /* the rest is defined by the program itself */ size_t len = line.Len(); line.U(ver, 2); if (ver >= 5) { line.U(8, 1); line.U(0, 1); }
    size_t hl = line.b.size(); line.U(0, 4); line.U(1, 1); if (ver >= 4) line.U(1, 1); line.U(1, 1); int lb = s.OneOf({-5, -3, -10}), lr = s.OneOf({14, 12, 10}); line.U((uint8_t)lb, 1); line.U(lr, 1); line.U(13, 1); for (int x : {0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1}) line.U(x, 1);
    if (ver >= 5) {
      line.U(1, 1); bool ls = s.Bool() && !lines_only; line.Uleb(1); line.Uleb(ls ? 0x1f : 8); line.Uleb(u.dirs.size()); auto S = [&](const std::string& x) { if (ls) line.U(dwenc::AddString(&line_str, x), 4); else line.Str(x); }; for (auto& x : u.dirs) S(x);
      bool md5 = s.Chance(1, 4); line.U(2 + md5, 1); line.Uleb(1); line.Uleb(ls ? 0x1f : 8); line.Uleb(2); line.Uleb(0x0b); if (md5) { line.Uleb(5); line.Uleb(0x1e); } line.Uleb(u.files.size()); for (auto& f : u.files) { S(f.first); line.U(f.second, 1); if (md5) line.b += std::string(16, 'm'); }
    } else { for (size_t i = 1; i < u.dirs.size(); ++i) line.Str(u.dirs[i]); line.U(0, 1); for (size_t i = 1; i < told; ++i) { line.Str(u.files[i].first); line.Uleb(u.files[i].second); line.Uleb(0); line.Uleb(0); } line.U(0, 1); }
    line.Set(hl, line.b.size() - hl - 4, 4);
    for (auto& q : u.seqs) {
      uint64_t a = 0; int64_t ln = 1; uint32_t file = 1, disc = 0; bool first = true;
      for (; told < u.files.size(); ++told) { Enc e; e.U(3, 1); e.Str(u.files[told].first); e.Uleb(u.files[told].second); e.Uleb(0); e.Uleb(0); line.U(0, 1); line.Uleb(e.b.size()); line.b += e.b; }
      for (auto& r : q) {
        if (first) { line.U(0, 1); line.Uleb(9); line.U(2, 1); line.U(r.addr, 8); a = r.addr; first = false; }
        if (r.end) { if (r.addr != a) { line.U(2, 1); line.Uleb(r.addr - a); } line.U(0, 1); line.Uleb(1); line.U(1, 1); break; }
        if (r.file != file) { line.U(4, 1); line.Uleb(r.file); file = r.file; }
        if (ver >= 4 && r.disc) { Enc t; t.Uleb(r.disc); line.U(0, 1); line.Uleb(1 + t.b.size()); line.U(4, 1); line.b += t.b; }
        int64_t dl = (int64_t)r.line - ln; uint64_t da = r.addr - a; int64_t sp = dl - lb + (int64_t)lr * (int64_t)da + 13;
        if (dl >= lb && dl < lb + lr && sp <= 255 && sp >= 13 && s.Chance(3, 4)) line.U(sp, 1);
        else { if (dl) { line.U(3, 1); line.Sleb(dl); } if (da) { if (da < 65536 && s.Chance(1, 4)) { line.U(9, 1); line.U(da, 2); } else { line.U(2, 1); line.Uleb(da); } } line.U(1, 1); }
        ln = r.line; a = r.addr;
      }
    }
    line.Close(len);
  }
  void Describe(const Inst& in, int d) { char t[120]; p.text += std::string(2 * d + 2, ' ') + p.fns[in.fn].shown() + " " + RangeText(in.r); if (d) { snprintf(t, sizeof t, " called at line %u.%u", in.line, in.disc); p.text += t; } p.text += "\n"; for (auto& k : in.kids) Describe(k, d + 1); }
  const Inst* Find(const std::vector<Inst>& v, uint64_t a) { for (auto& k : v) for (auto& r : k.r) if (a >= r.first && a < r.second) return &k; return nullptr; }

  void Make() {
    int nu = s.Int(1, 4), one = s.Chance(1, 2) ? s.OneOf({5, 4, 3, 2}) : 0; uint64_t at = s.OneOf<uint64_t>({0x401000, 0x1000, 0x200000, 0x7fff00001000});
    p.lo = at;
    for (int i = 0; i < nu; ++i) {
      Unit u; u.ver = one ? one : s.OneOf({5, 4, 3, 2}); if (llvm && u.ver == 2) u.ver = 3; u.has_lines = !s.Chance(1, 15); u.rnglistx = u.ver == 5 && s.Chance(1, 2); u.strx = u.ver == 5 && s.Chance(1, 2); u.dirs = {"/work/dir" + std::to_string(i)};
      int n = s.Draw(3); for (int k = 0; k < n; ++k) u.dirs.push_back(s.Bool() ? "inc" + std::to_string(k) : "/usr/inc" + std::to_string(k)); n = 1 + s.Draw(3); u.files.push_back({"main" + std::to_string(i) + ".cc", 0}); for (int k = 0; k < n; ++k) u.files.push_back({"file" + std::to_string(i) + "_" + std::to_string(k) + ".h", (int)s.Draw(u.dirs.size() - 1)});
      p.units.push_back(u);
    }
    int nf = 0; while (s.More(nf, 1, 14, 5)) {
      Fn f; f.unit = s.Draw(nu - 1); f.name = "fn" + std::to_string(nf) + (s.Chance(1, 8) ? std::string(s.Draw(30), 'x') : ""); if (s.Chance(2, 3)) f.lname = "_Z" + std::to_string(f.name.size()) + f.name + "v"; f.decl = syms ? 1 + s.Draw(19) : Line(); f.style = s.Weighted({2, 3, 2, 2}); f.nested_decl = s.Bool(); p.fns.push_back(f); ++nf;
    }
    // Code layout: pieces of instances in any order.
    struct Piece { int unit; size_t inst; uint64_t size; }; std::vector<Piece> pieces;
    for (size_t i = 0; i < p.fns.size(); ++i) if (p.fns[i].style == 0 || p.fns[i].style == 2 || s.Bool()) {
      Inst in; in.fn = i; int u = p.fns[i].unit; p.units[u].insts.push_back(in); int np = 1 + (s.Chance(1, 4) ? 1 + s.Draw(1) : 0); for (int k = 0; k < np; ++k) pieces.push_back({u, p.units[u].insts.size() - 1, 1 + s.Draw(s.Chance(1, 5) ? 400 : 60)});
    }
    s.Shuffle(pieces); std::vector<std::pair<int, Range>> placed;
    for (auto& q : pieces) { if (s.Chance(1, 2)) at += s.Draw(20); if (s.Chance(1, 12)) at += s.Draw(5000); Range r{at, at + q.size}; p.units[q.unit].insts[q.inst].r.push_back(r); placed.push_back({q.unit, r}); if (syms) { std::string n = p.fns[p.units[q.unit].insts[q.inst].fn].shown(); size_t k = p.units[q.unit].insts[q.inst].r.size(); p.syms.push_back({k == 1 ? n : n + (k == 2 ? ".cold" : ".part." + std::to_string(k)), r.first, r.second}); } at += q.size; }
    p.hi = at + 30;
    for (int i = 0; i < nu; ++i) { auto& u = p.units[i]; for (auto& in : u.insts) Inline(&in, 0, i); }
    // Line sequences.
    for (size_t i = 0; i < placed.size();) {
      size_t j = i + 1; while (j < placed.size() && placed[j].first == placed[i].first && placed[j].second.first == placed[j - 1].second.second && s.Chance(2, 3)) ++j;
      uint64_t lo = placed[i].second.first, hi = placed[j - 1].second.second; auto& u = p.units[placed[i].first]; std::vector<Row> q; uint64_t a = lo;
      while (a < hi) {
        int rep = s.Chance(1, 6) ? 2 : 1; for (int k = 0; k < rep; ++k) q.push_back({a, (uint32_t)(u.ver >= 5 ? s.Draw(u.files.size() - 1) : 1 + s.Draw(u.files.size() - 2)), s.Chance(1, 15) ? 0 : Line(), u.ver >= 4 ? Disc() : 0, false});
        a += 1 + s.Draw(s.Chance(1, 4) ? 100 : 8);
      }
      q.push_back({hi, 1, 1, 0, true}); u.seqs.push_back(q); i = j;
    }
    if (!llvm && !lines_only) for (auto& u : p.units) if (s.Chance(1, 8)) {  // lines of discarded functions stay, at address 0
      int n = s.Int(1, 2); for (int k = 0; k < n; ++k) { uint64_t a = s.Bool() ? 0 : 8 * s.Draw(10), z = a + 1 + s.Draw(200); std::vector<Row> q; for (uint64_t b = a; b < z; b += 1 + s.Draw(40)) { q.push_back({b, 1, Line(), 0, false}); dead.push_back(b); } q.push_back({z, 1, 1, 0, true}); u.seqs.push_back(q); }
    }
    for (auto& u : p.units) s.Shuffle(u.seqs);
    // Debug information.
    Die d;
    for (int i = 0; i < nu; ++i) {
      Unit& u = p.units[i]; in_unit = i; lists.clear(); n_strx = 0; bool own = !i || s.Bool(); if (own) { if (i) abbrev.U(0, 1); cu_abbrev = abbrev.b.size(); abbs.clear(); }
      size_t cu = info.b.size(), len = info.Len(); info.U(u.ver, 2); if (u.ver >= 5) { info.U(1, 1); info.U(8, 1); info.U(cu_abbrev, 4); } else { info.U(cu_abbrev, 4); info.U(8, 1); }
      if (u.has_lines) Table(u);
      Ranges all; for (auto& in : u.insts) for (auto& r : in.r) all.push_back(r); uint64_t mn = ~0ull, mx = 0; for (auto& r : all) { mn = std::min(mn, r.first); mx = std::max(mx, r.second); }
      bool contiguous = all.size() == 1; u.base = 0; size_t so_fix = 0, rl_fix = 0; std::string so_hold; d = Die(); d.tag = 0x11; d.kids = true;
      if (u.strx) { size_t l = stroffs.b.size(); stroffs.U(0, 4); stroffs.U(5, 2); stroffs.U(0, 2); strx_base = l + 8; so_fix = l + 1; d.at.push_back({0x72, 0x17}); d.body.U(strx_base, 4); }
      size_t rl_pos = 0; if (u.rnglistx) { d.at.push_back({0x74, 0x17}); rl_pos = d.body.b.size(); d.body.U(0, 4); }
      Name(d, 0x03, u.files[0].first, u); Const(d, 0x13, 0x21, 2); bool dir_first = s.Bool(); auto LineAt = [&] { if (u.has_lines) SecOff(d, 0x10, u.start, u.ver); }; if (!dir_first) LineAt(); Name(d, 0x1b, u.dirs[0], u); if (dir_first) LineAt();
      if (contiguous) { u.base = all[0].first; d.at.push_back({0x11, 0x01}); d.body.U(u.base, 8); d.at.push_back({0x12, u.ver >= 4 ? 0x07 : 0x01}); d.body.U(u.ver >= 4 ? all[0].second - u.base : all[0].second, 8); }
      else if (all.size()) { u.base = s.Bool() ? 0 : mn; PCnolist(d, all, u); if (u.base || llvm || !s.Chance(1, 3)) { d.at.push_back({0x11, 0x01}); d.body.U(u.base, 8); } }
      uint64_t die = Emit(d); size_t body = info.b.size() - d.body.b.size(); rl_fix = body + rl_pos; (void)die;
      std::vector<int> order; for (size_t k = 0; k < p.fns.size(); ++k) if (p.fns[k].unit == i) order.push_back(k); size_t next_inst = 0; bool inst_first = s.Chance(1, 4);
      std::map<int, uint64_t> decl_at; std::vector<std::pair<uint64_t, int>> spec_fix;
      auto Insts = [&](int only) {
        for (auto& in : u.insts) if (only < 0 || in.fn == only) {
          if (s.Chance(1, 30)) Ghost(in, u);
          Fn& f = p.fns[in.fn]; Die q; q.tag = 0x2e; q.kids = !in.kids.empty() || s.Bool(); size_t fr = refs.size();
          if (f.style == 0) { bool pc_first = s.Chance(1, 4); if (pc_first) PC(q, in.r, u); Decl(q, f, u, true, true, true); if (!pc_first) PC(q, in.r, u); f.origin = info.b.size(); }
          else if (f.style == 2) { q.at.push_back({0x47, 0x13}); q.body.U(decl_at[in.fn] - cu, 4); if (f.lname.size() && s.Chance(1, 3)) Decl(q, f, u, false, true, false); PC(q, in.r, u); f.origin = info.b.size(); }
          else { Ref(q, 0x31, in.fn, i, u); if (s.Chance(1, 8)) Name(q, 0x03, f.name, u); PC(q, in.r, u); }
          EmitRefs(q, fr); if (q.kids) { Kids(in, i, 1); info.U(0, 1); } if (s.Chance(1, 30)) Ghost(in, u);
        }
        (void)next_inst;
      };
      auto Declaration = [&](int k) {
        Fn& f = p.fns[k]; if (f.nested_decl) { Die c; c.tag = s.OneOf({0x13, 0x02, 0x39}); c.kids = true; Name(c, 0x03, "Cls", u); Emit(c); }
        Die q; q.tag = 0x2e; q.kids = s.Chance(1, 4); bool with_l = !s.Chance(1, 3); q.at.push_back({0x3c, 0x0c}); q.body.U(1, 1); Decl(q, f, u, true, with_l, true); decl_at[k] = Emit(q); if (q.kids) { Noise(u, 1); info.U(0, 1); } if (f.nested_decl) info.U(0, 1);
        return with_l;
      };
      auto Abstract = [&](int k, bool with_l) { Fn& f = p.fns[k]; Die q; q.tag = 0x2e; q.kids = s.Chance(1, 3); q.at.push_back({0x20, 0x0b}); q.body.U(1, 1); if (f.style == 1) Decl(q, f, u, true, true, true); else { q.at.push_back({0x47, 0x13}); q.body.U(decl_at[k] - cu, 4); if (!with_l) Decl(q, f, u, false, true, false); } f.origin = Emit(q); if (q.kids) { Noise(u, 1); info.U(0, 1); } };
      // declarations first so that specifications can point back; abstract instances anywhere
      std::map<int, bool> with_l; for (int k : order) if (p.fns[k].style >= 2) { with_l[k] = Declaration(k); if (p.fns[k].style == 2 && !with_l[k]) p.fns[k].lname.clear(), with_l[k] = true; }
      if (inst_first) Insts(-1);
      for (int k : order) { if (p.fns[k].style == 1 || p.fns[k].style == 3) Abstract(k, with_l[k]); if (!inst_first && s.Bool()) { Insts(k); done.insert(k); } if (s.Chance(1, 4)) Noise(u, 0); }
      if (!inst_first) for (int k : order) if (!done.count(k)) Insts(k);
      info.U(0, 1); info.Close(len);
      if (so_fix) stroffs.Set(so_fix - 1, stroffs.b.size() - so_fix - 3, 4);
      if (u.rnglistx) {  // an offset table for this unit
        Enc save = rnglists; size_t hdr = rnglists.b.size(); rnglists.U(0, 4); rnglists.U(5, 2); rnglists.U(8, 1); rnglists.U(0, 1); rnglists.U(lists.size(), 4); size_t base = rnglists.b.size(); for (size_t k = 0; k < lists.size(); ++k) rnglists.U(0, 4); auto ls = lists; for (size_t k = 0; k < ls.size(); ++k) { rnglists.Set(base + 4 * k, rnglists.b.size() - base, 4); List(ls[k], u.base); } rnglists.U(0, 1); rnglists.Set(hdr, rnglists.b.size() - hdr - 4, 4); info.Set(rl_fix, base, 4);
      }
      cu_start.push_back(cu);
    }
    abbrev.U(0, 1);
    for (auto& r : refs) { uint64_t o = p.fns[r.fn].origin; if (r.local) info.Set(r.at, o - cu_start[r.unit], 4); else info.Set(r.at, o, r.wide ? 8 : 4); }
    Stacks(); Write();
    for (size_t i = 0; i < p.units.size(); ++i) { auto& u = p.units[i]; p.text += "unit " + std::to_string(i) + " DWARF " + std::to_string(u.ver) + (u.has_lines ? "" : " without lines") + "\n"; for (auto& in : u.insts) Describe(in, 0); }
  }
  std::set<int> done; std::vector<size_t> cu_start;
  void PCnolist(Die& d, const Ranges& r, Unit& u) {
    if (u.ver < 5) { SecOff(d, 0x55, ranges.b.size(), u.ver); for (auto& x : Chop(r, u)) { if (x.first == u.base && x.second == u.base) continue; ranges.U(x.first - u.base, 8); ranges.U(x.second - u.base, 8); } ranges.U(0, 8); ranges.U(0, 8); }
    else if (u.rnglistx && s.Bool()) { d.at.push_back({0x55, 0x23}); d.body.Uleb(lists.size()); lists.push_back(r); }
    else { uint64_t off = Table5(r, u.base); SecOff(d, 0x55, off, u.ver); }
  }
  void Stacks() {
    for (size_t ui = 0; ui < p.units.size(); ++ui) {
      auto& u = p.units[ui];
      for (auto& in : u.insts) for (auto& rg : in.r) for (uint64_t a = rg.first; a < rg.second; ++a) {
        std::vector<const Inst*> chain; const Inst* k = &in; while (k) { chain.push_back(k); k = Find(k->kids, a); } p.max_depth = std::max(p.max_depth, chain.size());
        Row row{0, 0, 0, 0, true}; bool found = false; for (auto& q : u.seqs) if (a >= q[0].addr && a < q.back().addr) for (auto& r : q) if (r.addr <= a) { row = r; found = true; }
        Stack st; uint32_t ln = row.line, dc = row.disc, fl = row.file; bool ok = found && u.has_lines;
        for (size_t c = chain.size(); c-- > 0;) { auto& f = p.fns[chain[c]->fn]; std::string fn, dn; if (fl < u.files.size()) { fn = u.files[fl].first; int di = u.files[fl].second; if (di) dn = u.dirs[di]; if (!llvm && (!di || dn[0] != '/')) dn = di ? u.dirs[0] + "/" + dn : u.dirs[0]; } st.push_back({f.shown(), f.decl, ln, dc, fn, dn}); ln = chain[c]->line; dc = chain[c]->disc; fl = chain[c]->file; }
        if (lines_only && ok) { std::string dn; if (u.ver >= 5 || u.files[row.file].second) dn = u.dirs[u.files[row.file].second]; st = {{"", 0, row.line, row.disc, u.files[row.file].first, dn}}; }
        if (!ok) st.clear(); p.stacks[a] = st;
      }
    }
    for (uint64_t a = p.lo; a < p.hi && p.addrs.size() < 6000; ++a) p.addrs.push_back(a);
    p.addrs.push_back(p.lo - 1); p.addrs.push_back(p.lo - 0x800); p.addrs.push_back(0); for (auto a : dead) p.addrs.push_back(a);
  }
  void Write() {
    elfgen::Image im; im.is64 = true; im.etype = 2; im.secs.resize(1); im.secs[0].type = 0; im.secs[0].align = 0;
    auto Add = [&](const std::string& n, const std::string& data, bool force = false) { if (data.empty() && !force) return; elfgen::Sec x; x.name = n; x.data = data; x.type = 1; im.secs.push_back(x); };
    { elfgen::Sec x; x.name = ".text"; x.flags = 6; x.addr = p.lo; x.data.assign(std::min<uint64_t>(p.hi - p.lo, 100000), '\x90'); x.align = 16; im.secs.push_back(x); }
    if (!lines_only) Add(".debug_info", info.b); Add(".debug_abbrev", abbrev.b); Add(".debug_line", line.b); Add(".debug_str", str); Add(".debug_line_str", line_str); Add(".debug_ranges", ranges.b); Add(".debug_rnglists", rnglists.b); Add(".debug_str_offsets", stroffs.b);
    if (syms) {
      elfgen::Sec st, sr; st.name = ".symtab"; st.type = 2; st.entsize = 24; st.info = 1; st.link = im.secs.size() + 1; elfgen::PutSym(&st.data, im, 0, 0, 0, 0, 0, 0, 0); sr.name = ".strtab"; sr.type = 3; sr.data.assign(1, 0);
      for (auto& y : p.syms) { elfgen::PutSym(&st.data, im, sr.data.size(), 1, 2, 0, 1, y.lo, y.hi - y.lo); sr.data += y.name; sr.data += '\0'; } im.secs.push_back(st); im.secs.push_back(sr); p.seg_offset = s.Draw(3) * 0x1000;
    }
    elfgen::Sec t; t.name = ".shstrtab"; t.type = 3; im.shstrndx = im.secs.size(); im.secs.push_back(t);
    elfgen::Seg g; g.type = 1; g.flags = 5; g.vaddr = p.lo & ~0xfffull; g.offset = p.seg_offset; g.filesz = g.memsz = p.hi - p.lo; im.segs.push_back(g); p.elf = elfgen::Write(&im);
  }
};
inline Prog Generate(Src& s, bool llvm, bool symbols = false, bool lines_only = false) { Gen g(s, llvm, symbols); g.lines_only = lines_only; g.Make(); return std::move(g.p); }
}  // namespace dwarfprog
#endif
