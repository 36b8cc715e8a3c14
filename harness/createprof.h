// Binaries with debug information, sample files for them, and the profile both imply.
#ifndef VERIF_CREATEPROF_H_
#define VERIF_CREATEPROF_H_
#include <unistd.h>
#include "dwarfprog.h"
#include "linemodel.h"
namespace cp {
using namespace lm; using pbt::Case;
struct Setup { World w; Samples sm; bool lbr = true; double frac = 0; U total = 0, threshold = 10; std::string bin, text, shown; std::vector<std::string> flags; size_t depth = 0; };
inline std::string WriteText(Src& s, const Samples& sm) {
  std::ostringstream o; auto Order = [&](auto& m) { std::vector<std::pair<typename std::decay_t<decltype(m)>::key_type, U>> v; for (auto& [k, n] : m) { U a = n; if (n > 1 && s.Chance(1, 6)) { U x = 1 + s.Draw(std::min<U>(n - 2, 1000)); v.push_back({k, x}); a -= x; } v.push_back({k, a}); } if (s.Chance(1, 3)) s.Shuffle(v); return v; };
  auto r = Order(sm.range); o << r.size() << "\n"; for (auto& [k, n] : r) o << std::hex << k.first << "-" << k.second << ":" << std::dec << n << "\n"; auto a = Order(sm.addr); o << a.size() << "\n"; for (auto& [k, n] : a) o << std::hex << k << ":" << std::dec << n << "\n"; auto b = Order(sm.branch); o << b.size() << "\n"; for (auto& [k, n] : b) o << std::hex << k.first << "->" << k.second << ":" << std::dec << n << "\n"; return o.str();
}
inline void GenWorld(Src& s, Case& c, Setup* t, bool llvm) {
  auto p = dwarfprog::Generate(s, llvm, true); t->bin = c.Tmp("prog"); pbt::WriteFile(t->bin, p.elf); t->w.path = t->bin; t->depth = p.max_depth; t->shown = p.text;
  for (auto& y : p.syms) t->w.fns.push_back({y.name, y.lo, y.hi, ""}); elfgen::Seg g; g.offset = p.seg_offset; g.vaddr = p.lo & ~0xfffull; t->w.segs.push_back(g);
  for (auto& [a, st] : p.stacks) if (!st.empty() && (llvm || st[0].line)) t->w.stacks[a] = st; t->w.inl = p.max_depth > 1; t->w.policy = s.OneOf<std::string>({"selected", "selected", "all", "none"}); t->flags.push_back("--suffix_elision_policy=" + t->w.policy);
}
inline void Generate(Src& s, Case& c, Setup* t, bool llvm) {
  GenWorld(s, c, t, llvm); t->lbr = s.Chance(3, 4); t->sm = GenSamples(s, t->w, t->lbr); for (auto& [r, k] : t->sm.range) t->total += k * (1 + r.second - r.first); if (t->sm.range.empty()) for (auto& [a, k] : t->sm.addr) t->total += k;
  t->frac = s.OneOf<double>({0, 0, 0, 0.25, 0.5}); t->threshold = std::max<U>(10, (U)(t->total * t->frac)); if (!t->lbr) t->flags.push_back("--use_lbr=false"); if (t->frac) t->flags.push_back("--sample_threshold_frac=" + std::string(t->frac == 0.5 ? "0.5" : "0.25")); t->text = c.Tmp("samples"); pbt::WriteFile(t->text, WriteText(s, t->sm));
}
inline pg::Func ToFunc(const st::Sym& y) { pg::Func f; f.head = y.head; for (auto& [k, p] : y.pos) { auto& l = f.lines[(k >> 32 & 0xffff) << 32 | (uint32_t)k]; l.count += p.count; for (auto& [t, n] : p.targets) l.targets[t] += n; } for (auto& [k, x] : y.calls) { pg::Func g = ToFunc(x); f.calls[{(k.first >> 32 & 0xffff) << 32 | (uint32_t)k.first, k.second}] = g; } return f; }
inline pg::Profile ToProfile(const st::Map& m, U threshold) { pg::Profile p; for (auto& [n, y] : m) if (y.total > threshold) p[n] = ToFunc(y); return p; }
inline std::string Show(const Setup& t) { std::string r; for (auto& f : t.flags) r += f + " "; return r + "\n" + t.shown + Text(t.w, t.sm); }
inline std::string Head(const std::string& e) { return e.substr(0, 2000); }
}  // namespace cp
#endif
