// Generated programs: functions made of basic blocks, written as ELF files with
// symbol tables and basic-block address maps (encoded here, independently).
#ifndef VERIF_BBPROG_H_
#define VERIF_BBPROG_H_
#include <optional>
#include "dwenc.h"
#include "elfgen.h"
#include "pbt.h"
namespace bb {
using U = uint64_t; using pbt::Src;
enum { kRet = 1, kTail = 2, kPad = 4, kFall = 8, kInd = 16 };
struct Block { uint32_t id = 0; U off = 0, size = 0; uint32_t md = 0; bool Falls() const { return md & kFall; } bool Returns() const { return md & kRet; } bool Pad() const { return md & kPad; } };
struct Sym { std::string name; U addr, size; int type = 2, sec = 1; };
struct Func { std::vector<std::string> names; U addr = 0; int sec = 0; std::vector<Block> blocks; U End() const { return addr + blocks.back().off + blocks.back().size; } U At(int i) const { return addr + blocks[i].off; } U EndOf(int i) const { return At(i) + blocks[i].size; } };
struct Section { std::string name; U addr = 0; std::string data; };
struct Program {
  std::vector<Func> funcs; std::vector<Section> secs; std::vector<Sym> extra; int version = 2; bool pie = false; std::string build_id; U seg_off = 0x1000; std::vector<elfgen::Seg> segs;  // the code segments as written
  int machine = 62; bool split_segments = false; std::string debug_info, debug_abbrev;
};
inline void Uleb(std::string* b, U v) { do { unsigned char c = v & 0x7f; v >>= 7; if (v) c |= 0x80; *b += (char)c; } while (v); }
inline std::string MapOf(const Program& p, const Func& f) {
  std::string r; r += (char)p.version; r += '\0'; for (int i = 0; i < 8; ++i) r += (char)(f.addr >> (8 * i)); Uleb(&r, f.blocks.size()); U end = 0;
  for (auto& b : f.blocks) { if (p.version >= 2) Uleb(&r, b.id); Uleb(&r, p.version >= 1 ? b.off - end : b.off); Uleb(&r, b.size); Uleb(&r, b.md); end = b.off + b.size; }
  return r;
}
struct Opts { int max_funcs = 8, max_blocks = 10; bool dup_names = true, several_sections = true, unnamed = true, empty_blocks = true, zero_funcs = true, gaps = true, tight_text = false; int min_blocks = 1; bool falling = false; int big_block = 0, unit = 1; };
inline Program Generate(Src& s, const Opts& o) {
  Program p; p.version = s.OneOf<int>({2, 2, 2, 1, 0}); p.pie = s.Bool(); U a = p.pie ? s.OneOf<U>({0x1000, 0x1240, 0x5000}) : s.OneOf<U>({0x400000, 0x401000, 0x201180}); int nsec = o.several_sections && s.Chance(1, 3) ? s.Int(2, 4) : 1, fi = 0; std::vector<std::string> pool;
  static const char* secs[] = {".text", ".text.hot", ".init.text", "malloc_hook", ".text.unlikely.", ".textfoo"};
  for (int k = 0; k < nsec; ++k) {
    Section sc; sc.name = k == 0 && s.Chance(3, 4) ? ".text" : secs[s.Draw(o.several_sections ? 5 : 0)]; a = (a + 15) & ~15ull; sc.addr = a; int n = 0;
    while (s.More(n, k == 0 ? 1 : 0, o.max_funcs, 3)) {
      ++n; Func f; f.sec = k; if (o.gaps && s.Chance(1, 2)) a += s.Draw(24) * o.unit; f.addr = a; U off = 0; int nb = 0; bool zero = o.zero_funcs && s.Chance(1, 25);
      while (s.More(nb, zero ? 1 : o.min_blocks, zero ? 2 : o.max_blocks, std::max(4, 2 * o.min_blocks))) {
        Block b; b.id = nb; if (o.gaps && nb && s.Chance(1, 15) && !zero) off += (1 + s.Draw(7)) * o.unit; b.off = off; b.size = zero || (o.empty_blocks && s.Chance(1, 5)) ? 0 : (1 + s.Draw(s.Chance(1, 8) && o.big_block ? o.big_block : 30)) * o.unit;
        switch (o.falling && !s.Chance(1, 80) ? 0 : s.Weighted({12, 4, 1, 1, 2, 1})) { case 0: b.md = kFall; break; case 1: b.md = 0; break; case 2: b.md = kRet; break; case 3: b.md = kTail; break; case 4: b.md = kRet | (s.Bool() ? kFall : 0); break; default: b.md = kInd; } if (b.size == 0 && s.Chance(2, 3)) b.md = kFall; if (nb && s.Chance(1, 10)) b.md |= kPad;
        off += b.size; f.blocks.push_back(b); ++nb;
      }
      if (s.Chance(1, 4) && p.version >= 2) for (auto& b : f.blocks) b.id = b.id * 3 + (&b == &f.blocks[0] ? 0 : 1 + s.Draw(1));
      if (!off && !zero) { f.blocks.back().size = off = (1 + s.Draw(9)) * o.unit; } a += off;
      if (!(o.unnamed && s.Chance(1, 12))) { int nn = s.Weighted({6, 2, 1}); for (int i = 0; i <= nn; ++i) { std::string nm = o.dup_names && pool.size() && s.Chance(1, 10) ? s.Pick(pool) : (s.Chance(1, 6) ? "u.__uniq." : "f") + std::to_string(fi++); bool have = false; for (auto& x : f.names) have |= x == nm; if (!have) { f.names.push_back(nm); pool.push_back(nm); } } }
      p.funcs.push_back(f);
      if (o.dup_names && f.names.size() && f.names[0][0] == 'u' && s.Chance(1, 3)) { Func g = f; g.addr = a; g.names = {f.names[0]}; switch (s.Draw(4)) { case 0: g.blocks.back().size += o.unit; break; case 1: if (o.gaps && g.blocks.size() > 1) for (size_t k = 1 + s.Draw(g.blocks.size() - 2), i = k; i < g.blocks.size(); ++i) g.blocks[i].off += o.unit; break; case 2: if (g.blocks.size() > 1) { auto k = s.Draw(g.blocks.size() - 2); g.blocks[k].size += o.unit; for (size_t i = k + 1; i < g.blocks.size(); ++i) g.blocks[i].off += o.unit; } break; default: break; } a = g.End(); p.funcs.push_back(g); }
    }
    a += 4; sc.data.assign(a - sc.addr, '\x90'); p.secs.push_back(sc); if (s.Chance(1, 3)) a += 0x1000;
  }
  // Symbols that do not name functions.
  int n = 0; while (s.More(n, 0, 4, 1)) { ++n; auto& f = s.Pick(p.funcs); Sym y; y.name = "x" + std::to_string(n); y.addr = s.Weighted({2, 1}) == 0 ? f.addr : f.addr + s.Draw(5); y.sec = f.sec; switch (s.Draw(3)) { case 0: y.type = s.Bool() ? 10 : 1; y.size = s.Bool() ? f.End() - f.addr : 8; break; case 1: y.size = 0; break; case 2: y.type = 0; y.size = 0; break; default: y.size = f.End() - f.addr + 1 + s.Draw(5); } p.extra.push_back(y); }
  if (s.Chance(1, 2)) p.build_id = std::string(20, 'a' + s.Draw(5)); p.seg_off = s.OneOf<U>({0x1000, 0x0, 0x2000, 0x240}); p.split_segments = s.Chance(1, 3);
  return p;
}
// Writes the program. Fills p->segs.
inline std::string Write(Program* p) {
  elfgen::Image im; im.machine = p->machine; im.etype = p->pie ? 3 : 2; im.secs.resize(1); p->segs.clear(); U lo = p->secs[0].addr, base_off = 0x1000 + p->seg_off;
  for (auto& x : p->secs) { elfgen::Sec t; t.name = x.name; t.flags = 6; t.addr = x.addr; t.data = x.data; t.want_offset = base_off + (x.addr - lo); im.secs.push_back(t); }
  auto Seg = [&](U a, U n) { elfgen::Seg g; g.vaddr = g.paddr = a; g.offset = base_off + (a - lo); g.filesz = g.memsz = n; p->segs.push_back(g); };
  if (p->split_segments && p->secs.size() > 1) for (auto& x : p->secs) Seg(x.addr, x.data.size()); else Seg(lo, p->secs.back().addr + p->secs.back().data.size() - lo);
  elfgen::Seg ro; ro.flags = 4; ro.vaddr = ro.paddr = 0x10; ro.filesz = ro.memsz = 0x100; im.segs.push_back(ro); for (auto& g : p->segs) im.segs.push_back(g);
  elfgen::Sec st, str, sh; st.name = ".symtab"; st.type = 2; st.entsize = 24; st.info = 1; elfgen::PutSym(&st.data, im, 0, 0, 0, 0, 0, 0, 0); str.name = ".strtab"; str.type = 3; str.data.assign(1, 0); sh.name = ".shstrtab"; sh.type = 3;
  auto Put = [&](const std::string& n, U a, U z, int type, int sec) { elfgen::PutSym(&st.data, im, str.data.size(), 1, type, 0, sec + 1, a, z); str.data += n; str.data += '\0'; };
  for (auto& f : p->funcs) for (auto& n : f.names) Put(n, f.addr, f.End() - f.addr, 2, f.sec); for (auto& y : p->extra) Put(y.name, y.addr, y.size, y.type, y.sec);
  for (size_t k = 0; k < p->secs.size(); ++k) { elfgen::Sec m; m.name = ".llvm_bb_addr_map"; m.type = 0x6fff4c0a; m.flags = 0x80; m.link = k + 1; for (auto& f : p->funcs) if (f.sec == (int)k) m.data += MapOf(*p, f); if (m.data.size()) im.secs.push_back(m); }
  if (p->build_id.size()) { elfgen::Sec n; n.name = ".note.gnu.build-id"; n.type = 7; n.flags = 2; n.align = 4; elfgen::Put(&n.data, 4, 4, false); elfgen::Put(&n.data, p->build_id.size(), 4, false); elfgen::Put(&n.data, 3, 4, false); n.data += std::string("GNU\0", 4) + p->build_id; im.secs.push_back(n); }
  auto Debug = [&](const char* n, const std::string& d) { if (d.empty()) return; elfgen::Sec x; x.name = n; x.data = d; im.secs.push_back(x); }; Debug(".debug_info", p->debug_info); Debug(".debug_abbrev", p->debug_abbrev);
  st.link = im.secs.size() + 1; im.secs.push_back(st); im.secs.push_back(str); im.secs.push_back(sh); im.shstrndx = im.secs.size() - 1; return elfgen::Write(&im);
}
inline std::string BuildIdHex(const Program& p) { return p.build_id.empty() ? "" : [&] { std::string h; for (unsigned char c : p.build_id) { char b[3]; snprintf(b, 3, "%02x", c); h += b; } return h; }(); }
inline std::string Show(const Program& p) {
  std::ostringstream o; o << std::hex << (p.pie ? "pie" : "fixed") << " map version " << p.version << "\n";
  for (size_t i = 0; i < p.funcs.size(); ++i) { auto& f = p.funcs[i]; o << i << " " << p.secs[f.sec].name << " " << f.addr << ":"; for (auto& n : f.names) o << " " << n; o << " {"; for (size_t k = 0; k < f.blocks.size(); ++k) { auto& b = f.blocks[k]; o << (k ? ", " : "") << "#" << std::dec << b.id << std::hex << " " << f.At(k) << "+" << b.size << (b.Falls() ? " falls" : "") << (b.Returns() ? " returns" : "") << (b.md & kTail ? " tail" : "") << (b.Pad() ? " pad" : ""); } o << "}\n"; }
  for (auto& y : p.extra) o << "symbol " << y.name << " " << y.addr << "+" << y.size << " type " << y.type << "\n"; return o.str();
}
// The names a function goes by: function symbols of the first one's size.
inline std::vector<std::string> NamesAt(const Program& p, U a) {
  std::vector<Sym> all; for (auto& f : p.funcs) for (auto& n : f.names) all.push_back({n, f.addr, f.End() - f.addr, 2}); for (auto& y : p.extra) all.push_back(y);
  std::vector<std::string> r; U size = 0; for (auto& y : all) if (y.addr == a && y.addr && y.type == 2 && y.size) { if (r.empty()) size = y.size; if (y.size == size) r.push_back(y.name); } return r;
}
inline std::string SectionOf(const Program& p, const Func& f) { auto& n = p.secs[f.sec].name; return n == ".text" || n.compare(0, 6, ".text.") == 0 ? ".text" : n; }
// The documented selection. A null set selects all functions.
inline std::set<int> Select(const Program& p, const std::set<U>* hot, bool text_only, int* dups = nullptr, int* nhot = nullptr) {
  std::set<int> r; for (size_t i = 0; i < p.funcs.size(); ++i) { auto& f = p.funcs[i]; bool in = !hot; if (hot) for (U a : *hot) in |= a >= f.addr && a < f.End(); if (in) r.insert(i); } if (nhot) *nhot = r.size();
  for (auto it = r.begin(); it != r.end();) if (NamesAt(p, p.funcs[*it].addr).empty() || (text_only && SectionOf(p, p.funcs[*it]) != ".text")) it = r.erase(it); else ++it;
  std::map<std::string, std::vector<int>> by; for (int i : r) for (auto& n : NamesAt(p, p.funcs[i].addr)) by[n].push_back(i); int d = 0; std::set<int> drop;
  for (auto& [n, v] : by) { if (v.size() < 2) continue; d += v.size() - 1; bool same = n.find(".__uniq.") != n.npos; if (same) for (int i : v) { auto &x = p.funcs[v[0]].blocks, &y = p.funcs[i].blocks; same &= x.size() == y.size(); for (size_t k = 0; k < x.size() && same; ++k) same &= x[k].off == y[k].off && x[k].size == y[k].size; } for (size_t k = same ? 1 : 0; k < v.size(); ++k) drop.insert(v[k]); }
  for (int i : drop) r.erase(i); if (dups) *dups = d; return r;
}
struct H { int f, b; bool operator==(const H& o) const { return f == o.f && b == o.b; } bool operator<(const H& o) const { return f != o.f ? f < o.f : b < o.b; } };
// The block for an address, among the selected functions.
inline std::optional<H> Find(const Program& p, const std::set<int>& sel, U a, bool to) {
  std::optional<H> start_last, start_first, inside;
  for (int i : sel) { auto& f = p.funcs[i]; std::optional<H> first; for (size_t k = 0; k < f.blocks.size(); ++k) { if (f.At(k) == a) { if (!first) first = H{i, (int)k}; start_first = first; start_last = H{i, (int)k}; } else if (f.At(k) < a && a < f.EndOf(k)) inside = H{i, (int)k}; } }
  if (!start_last) return inside; if (to) return start_first; return p.funcs[start_last->f].blocks[start_last->b].size ? start_last : std::nullopt;
}
inline bool CanFall(const Program& p, H a, H b) { if (a == b) return true; if (a.f != b.f || a.b > b.b) return false; for (int i = a.b; i < b.b; ++i) if (!p.funcs[a.f].blocks[i].Falls()) return false; return true; }
inline U SomeAddress(Src& s, const Program& p) {
  auto& f = s.Pick(p.funcs); int k = s.Draw(f.blocks.size() - 1); switch (s.Weighted({4, 4, 3, 1, 1})) { case 0: return f.At(k); case 1: return f.blocks[k].size ? f.EndOf(k) - 1 - s.Draw(std::min<U>(2, f.blocks[k].size - 1)) : f.At(k); case 2: return f.blocks[k].size ? f.At(k) + s.Draw(f.blocks[k].size - 1) : f.At(k); case 3: return f.End() + s.Draw(20); default: return f.addr - s.Draw(20); }
}
}  // namespace bb
#endif
