// Writes ELF images from an explicit description (independent of any ELF library).
#ifndef ELFGEN_H_
#define ELFGEN_H_
#include <cstdint>
#include <map>
#include <string>
#include <vector>
namespace elfgen {
struct Sec { std::string name; uint32_t type = 1; uint64_t flags = 0, addr = 0; std::string data; uint64_t size = 0 /* NOBITS */, align = 1, entsize = 0; uint32_t link = 0, info = 0; uint64_t offset = 0; uint64_t want_offset = 0; };
struct Seg { uint32_t type = 1, flags = 5; uint64_t offset = 0, vaddr = 0, paddr = 0, filesz = 0, memsz = 0, align = 0x1000; };
struct Image {
  bool is64 = true, big = false; int etype = 2, machine = 62; uint64_t entry = 0;
  std::vector<Sec> secs;  // index 0 is the null section
  std::vector<Seg> segs; int shstrndx = 0; bool sections_first = false, force_many = false, no_section_table = false; int gap = 0;
  bool suffix_names = false;
};
inline void Put(std::string* b, uint64_t v, int n, bool big) { for (int i = 0; i < n; ++i) *b += (char)(v >> (8 * (big ? n - 1 - i : i))); }
// A symbol entry.
inline void PutSym(std::string* b, const Image& im, uint32_t name, int bind, int type, int other, int shndx, uint64_t value, uint64_t size) {
  auto P = [&](uint64_t v, int n) { Put(b, v, n, im.big); };
  if (im.is64) { P(name, 4); P(bind << 4 | type, 1); P(other, 1); P(shndx, 2); P(value, 8); P(size, 8); }
  else { P(name, 4); P(value, 4); P(size, 4); P(bind << 4 | type, 1); P(other, 1); P(shndx, 2); }
}
// Fills the section-name table (section im->shstrndx) and lays the file out.
inline std::string Write(Image* im) {
  int W = im->is64 ? 8 : 4; size_t eh = im->is64 ? 64 : 52, ph = im->is64 ? 56 : 32, sh = im->is64 ? 64 : 40;
  std::vector<uint32_t> name_off(im->secs.size());
  if (im->shstrndx) {
    std::string& t = im->secs[im->shstrndx].data; t.assign(1, 0); std::map<std::string, uint32_t> seen;
    for (size_t i = 1; i < im->secs.size(); ++i) {
      auto& n = im->secs[i].name; auto it = seen.find(n); if (it != seen.end()) { name_off[i] = it->second; continue; }
      size_t f = im->suffix_names ? t.find(n + '\0') : std::string::npos;
      if (f != std::string::npos && !n.empty()) name_off[i] = f; else if (n.empty()) name_off[i] = 0; else { name_off[i] = t.size(); t += n; t += '\0'; }
      seen[n] = name_off[i];
    }
  }
  std::string out(eh, 0); size_t phoff = 0, shoff = 0;
  auto Align = [&](uint64_t a) { while (a > 1 && out.size() % a) out += '\xcc'; };
  if (im->segs.size()) { Align(8); phoff = out.size(); out.append(ph * im->segs.size(), 0); }
  auto Table = [&] { if (im->no_section_table) return; Align(8); shoff = out.size(); out.append(sh * im->secs.size(), 0); };
  if (im->sections_first) Table();
  for (size_t i = 1; i < im->secs.size(); ++i) {
    auto& s = im->secs[i]; out.append(im->gap, '\xdd'); Align(s.align);
    if (s.want_offset > out.size()) out.append(s.want_offset - out.size(), '\xdd');
    s.offset = out.size(); if (s.type != 8) { out += s.data; s.size = s.data.size(); }
  }
  if (!im->sections_first) Table();
  std::string h; auto P = [&](uint64_t v, int n) { Put(&h, v, n, im->big); };
  bool many = im->force_many || im->secs.size() >= 0xff00; size_t nsec = im->no_section_table ? 0 : im->secs.size();
  h = "\x7f""ELF"; P(im->is64 ? 2 : 1, 1); P(im->big ? 2 : 1, 1); P(1, 1); h.append(9, 0);
  P(im->etype, 2); P(im->machine, 2); P(1, 4); P(im->entry, W); P(phoff, W); P(shoff, W); P(0, 4); P(eh, 2); P(im->segs.size() ? ph : 0, 2); P(im->segs.size(), 2); P(sh, 2); P(many ? 0 : nsec, 2); P(many && im->shstrndx >= 0xff00 ? 0xffff : im->shstrndx, 2);
  out.replace(0, h.size(), h);
  for (size_t i = 0; i < im->segs.size(); ++i) {
    auto& g = im->segs[i]; h.clear();
    if (im->is64) { P(g.type, 4); P(g.flags, 4); P(g.offset, 8); P(g.vaddr, 8); P(g.paddr, 8); P(g.filesz, 8); P(g.memsz, 8); P(g.align, 8); }
    else { P(g.type, 4); P(g.offset, 4); P(g.vaddr, 4); P(g.paddr, 4); P(g.filesz, 4); P(g.memsz, 4); P(g.flags, 4); P(g.align, 4); }
    out.replace(phoff + i * ph, h.size(), h);
  }
  if (!im->no_section_table) for (size_t i = 0; i < im->secs.size(); ++i) {
    auto& s = im->secs[i]; h.clear(); uint64_t size = s.size, link = s.link; if (i == 0 && many) { size = im->secs.size(); if (im->shstrndx >= 0xff00) link = im->shstrndx; }
    P(name_off[i], 4); P(s.type, 4); P(s.flags, W); P(s.addr, W); P(s.offset, W); P(size, W); P(link, 4); P(s.info, 4); P(s.align, W); P(s.entsize, W);
    out.replace(shoff + i * sh, h.size(), h);
  }
  return out;
}
}  // namespace elfgen
#endif
