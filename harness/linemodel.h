// Reference computation of a line profile from samples and the inline stack of every address.
#ifndef VERIF_LINEMODEL_H_
#define VERIF_LINEMODEL_H_
#include "elfgen.h"
#include "stackgen.h"
#include "symtree.h"
#if defined(HAVE_LLVM)
#include "llvm/IR/DebugInfoMetadata.h"
#endif
namespace lm {
using pbt::Src; using U = uint64_t; using stackgen::Frame; using stackgen::Stack;
inline bool Unknown(const Frame& f) { return f.start == 0 || f.line == 0; }
// LLVM's discriminator encoding.
inline uint32_t Component(uint32_t d) { if (d & 1) return 0; d >>= 1; return d & 0x20 ? ((d >> 1) & 0xfe0) | (d & 0x1f) : d & 0x1f; }
inline uint32_t Rest(uint32_t d) { return d & 1 ? d >> 1 : d >> (d & 0x40 ? 14 : 7); }
struct Enc { bool enc = false, fs = false, fs_base = false, mul = false; };
#if defined(HAVE_LLVM)
inline U Key(const Enc& e, const Frame& f) { bool base = e.fs ? e.fs_base : e.enc; return (U)(uint32_t)(f.line - f.start) << 32 | (!base ? f.disc : (f.disc & 7) == 7 ? llvm::DILocation::getBaseDiscriminatorFromDiscriminator(f.disc) : Component(f.disc)); }
inline U Dup(const Enc& e, const Frame& f) { if (e.fs) return 1; uint32_t d = Component(Rest(f.disc)); return d ? d : 1; }
#else
inline U Key(const Enc&, const Frame& f) { return (U)(uint32_t)(f.line - f.start) << 32 | f.disc; }
inline U Dup(const Enc&, const Frame&) { return 1; }
#endif
struct Fn { std::string name; U lo, hi; std::string alias; };
struct World {
  std::string path, policy; std::vector<Fn> fns; std::vector<elfgen::Seg> segs; std::map<U, Stack> stacks; Enc enc; bool inl = false;
  const Fn* Find(U v) const { for (auto& f : fns) if (v >= f.lo && v < f.hi) return &f; return nullptr; }
  U Vaddr(U o) const { U r = 0; for (auto& g : segs) if (o >= g.offset) r = g.vaddr - g.offset + o; return r; }
  U Offset(U v) const { U r = 0; for (auto& g : segs) if (v >= g.vaddr) r = v - g.vaddr + g.offset; return r; }
  std::string Base(const std::string& n) const {
    if (policy == "none") return n; if (policy == "all") return n.substr(0, n.find('.'));
    std::string r = n; size_t p = r.rfind(".cold"); if (p != r.npos) r.erase(p, 5); for (const char* sf : {".llvm.", ".__part."}) { p = r.rfind(sf); if (p == r.npos) continue; size_t e = r.find('.', p + strlen(sf)); r.erase(p, e == r.npos ? r.npos : e - p); } return r;
  }
};
// An address of the file: mostly inside functions.
inline U Spot(Src& s, const World& w) {
  if (w.fns.empty() || s.Chance(1, 12)) return w.segs[0].vaddr + s.Draw(0x2000); auto& f = s.Pick(w.fns);
  switch (s.Weighted({3, 2, 6})) { case 0: return f.lo; case 1: return f.hi - 1; default: return f.lo + s.Draw(f.hi - f.lo - 1); }
}
struct Samples { std::map<U, U> addr, time; std::map<std::pair<U, U>, U> range, branch; };  // file offsets
inline U Count(Src& s) { switch (s.Weighted({5, 3, 1, 1})) { case 0: return 1 + s.Draw(9); case 1: return 1 + s.Draw(1000); case 2: return s.Draw(1); default: return 1 + s.U64(1ull << 34); } }
inline Samples GenSamples(Src& s, const World& w, bool lbr) {
  Samples sm; int n = 0; U lo = w.segs[0].vaddr;
  while (s.More(n, 0, 25, lbr ? 4 : 15)) { ++n; U v = Spot(s, w); if (v >= lo) sm.addr[w.Offset(v)] += Count(s); }
  n = 0; if (lbr || s.Chance(1, 6)) while (s.More(n, 0, 30, 10)) { ++n; U v = Spot(s, w), e; auto* f = w.Find(v); switch (s.Weighted({6, 2, 1})) { case 0: e = f ? v + s.Draw(f->hi - 1 - v) : v; break; case 1: e = v + s.Draw(40); break; default: e = v; } sm.range[{w.Offset(v), w.Offset(v) + (e - v)}] += Count(s); }
  n = 0; while (s.More(n, 0, 20, 6)) { ++n; U f = Spot(s, w), t = s.Weighted({3, 1}) == 0 && !w.fns.empty() ? s.Pick(w.fns).lo : Spot(s, w); sm.branch[{w.Offset(f), w.Offset(t)}] += Count(s); }
  return sm;
}
inline std::string Text(const World& w, const Samples& sm, bool stacks = true) {
  std::ostringstream o; o << w.policy << (w.enc.enc ? " encoded" : "") << (w.enc.fs ? " fs" : "") << (w.enc.fs && w.enc.fs_base ? "-base" : "") << (w.enc.mul ? " multiply" : "") << std::hex << "\n"; for (auto& g : w.segs) o << "segment offset " << g.offset << " vaddr " << g.vaddr << "\n";
  for (auto& f : w.fns) { o << f.name << (f.alias.size() ? " = " + f.alias : "") << " [" << f.lo << "," << f.hi << ")\n"; if (stacks) for (U q = f.lo; q < f.hi; ++q) { auto it = w.stacks.find(q); if (it == w.stacks.end()) continue; o << " " << q << ":"; for (auto& fr : it->second) o << " " << fr.name << "+" << std::dec << fr.line << "-" << fr.start << "." << fr.disc << std::hex; o << "\n"; } }
  o << "offsets:"; for (auto& [a, n] : sm.addr) o << " " << a << ":" << std::dec << n << std::hex; o << "\nranges:"; for (auto& [r, n] : sm.range) o << " " << r.first << "-" << r.second << ":" << std::dec << n << std::hex; o << "\nbranches:"; for (auto& [r, n] : sm.branch) o << " " << r.first << "->" << r.second << ":" << std::dec << n << std::hex; o << "\n"; return o.str();
}
// Adds the count along the stack; returns the node for the innermost function, or null where its position is unknown.
inline st::Sym* Walk(const Enc& en, st::Sym* y, const Stack& st, U n, bool bogus = false) {
  y->total += n; if (y->file.empty() && !st.back().file.empty()) { y->file = st.back().file; y->dir = st.back().dir; } bool cut = false;
  for (size_t k = st.size() - 1; k > 0; --k) { if (Unknown(st[k]) && !bogus) { cut = true; break; } y = &y->calls[{Key(en, st[k]), st[k - 1].name}]; if (y->func.empty()) { y->func = st[k - 1].name; y->file = st[k - 1].file; y->dir = st[k - 1].dir; } y->total += n; }
  // (Stacks are generated so that a cut one has no known position at all.)
  return cut || (Unknown(st[0]) && !bogus) ? nullptr : y;
}
inline st::Map Folded(const World& w, const st::Map& raw) { st::Map want; for (auto& [n, y] : raw) { std::string b = w.Base(n); auto& z = want[b]; if (z.func.empty()) { z = y; z.func = b; } else st::Merge(&z, y); } return want; }
struct Result { st::Map raw; std::map<std::string, std::set<U>> times; size_t multi = 0, heads = 0, unsampled = 0, targets = 0; bool odd = false; };
// What the samples imply, by symbol. Functions are included when all parts of their name together exceed the threshold.
inline Result Lines(const World& w, const Samples& sm, bool lbr, U threshold) {
  Result r; struct Maps { std::map<U, U> addr; std::map<std::pair<U, U>, U> range, branch; }; std::map<std::string, Maps> per; std::map<std::string, U> agg;
  for (auto& [o, k] : sm.addr) if (auto* f = w.Find(w.Vaddr(o))) per[f->name].addr[w.Vaddr(o)] += k;
  for (auto& [o, k] : sm.range) if (auto* f = w.Find(w.Vaddr(o.first))) per[f->name].range[{w.Vaddr(o.first), w.Vaddr(o.second)}] += k;
  for (auto& [o, k] : sm.branch) if (auto* f = w.Find(w.Vaddr(o.first))) per[f->name].branch[{w.Vaddr(o.first), w.Vaddr(o.second)}] += k;
  for (auto& [o, t] : sm.time) if (auto* f = w.Find(w.Vaddr(o))) if (t) r.times[f->name].insert(t);
  for (auto& f : w.fns) { auto& p = per[f.name]; U k = 0; if (p.range.empty()) for (auto& [x, q] : p.addr) k += q; else for (auto& [g, q] : p.range) { if (g.second + 1 < g.first) r.odd = true; k += q * (1 + g.second - g.first); } agg[w.Base(f.name)] += k; }
  if (r.odd) return r;
  st::Map& raw = r.raw; for (auto& f : w.fns) if (agg[w.Base(f.name)] > threshold) raw[f.name].func = f.name;
  for (auto& f : w.fns) {
    if (!raw.count(f.name)) continue; auto& p = per[f.name]; st::Sym& y = raw[f.name]; auto At = [&](U v) -> const Stack* { auto it = w.stacks.find(v); return it == w.stacks.end() || it->second.empty() ? nullptr : &it->second; };
    for (U v = f.lo; v < f.hi; ++v) if (auto* st = At(v)) if (st::Sym* leaf = Walk(w.enc, &y, *st, 0)) leaf->pos[Key(w.enc, (*st)[0])].inst++;
    std::map<U, U> at; if (lbr) { if (p.range.empty()) { ++r.unsampled; continue; } for (U v = f.lo; v < f.hi; ++v) { U k = 0; int cov = 0; for (auto& [g, q] : p.range) if (g.first <= v && v <= g.second) { k += q; ++cov; } r.multi += cov > 1; if (cov) at[v] = k; } } else at = p.addr;
    for (auto& [v, k0] : at) { auto* st = At(v); if (!st) continue; U k = k0 * (w.enc.mul ? Dup(w.enc, (*st)[0]) : 1); if (st::Sym* leaf = Walk(w.enc, &y, *st, k)) { U& n2 = leaf->pos[Key(w.enc, (*st)[0])].count; n2 = std::max(n2, k); } }
    for (auto& [br, k] : p.branch) {
      const Fn* to = nullptr; for (auto& g : w.fns) if (g.lo == br.second) to = &g; if (!to || !raw.count(to->name)) continue;
      raw[to->name].head += k; ++r.heads; auto* st = At(br.first); if (!st) continue;
      if (st::Sym* leaf = Walk(w.enc, &y, *st, 0)) { leaf->pos[Key(w.enc, (*st)[0])].targets[w.Base(to->name)] += k; ++r.targets; }
    }
  }
  return r;
}
// Cache misses or hints: a target of the given name at the position of an address.
inline bool Mark(const World& w, st::Map* raw, U v, const std::string& target, U k) { auto* f = w.Find(v); if (!f) return false; auto it = w.stacks.find(v); if (it == w.stacks.end() || it->second.empty()) return false; auto& y = (*raw)[f->name]; y.func = f->name; if (st::Sym* leaf = Walk(w.enc, &y, it->second, 0, true)) leaf->pos[Key(w.enc, it->second[0])].targets[target] += k; return true; }
}  // namespace lm
#endif
