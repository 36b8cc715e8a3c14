// Branch and fall-through counts over a generated program.
#ifndef BRANCHGEN_H_
#define BRANCHGEN_H_
#include "bbprog.h"
namespace br {
using pbt::Src; using U = uint64_t; using Pair = std::pair<U, U>; using Counts = std::map<Pair, int64_t>;
struct Profile { Counts branches, falls; bool all = true; std::set<U> addrs; };
inline Profile GenProfile(Src& s, const bb::Program& p) {
  Profile r; r.all = s.Bool(); int n = 0, noisy = s.Weighted({4, 1}); auto W = [&]() -> int64_t { return s.Chance(1, 8) ? 1000 + s.Draw(1000000) : 1 + s.Draw(50); };
  auto Last = [&](const bb::Func& f, int k) { return f.blocks[k].size ? f.EndOf(k) - 1 - s.Draw(std::min<U>(f.blocks[k].size - 1, 3)) : f.At(k); };
  while (s.More(n, 0, 30, 10)) {
    ++n; auto& f = s.Pick(p.funcs); int k = s.Draw(f.blocks.size() - 1); U from = Last(f, k), to;
    switch (s.Weighted({8, 4, 4, 2, 1 + 4 * noisy, 2, 1})) {
      case 0: to = f.At(s.Draw(f.blocks.size() - 1)); break;                       // jump
      case 1: to = s.Pick(p.funcs).addr; break;                                    // call
      case 2: { for (size_t i = 0; i < f.blocks.size(); ++i) if (f.blocks[(k + i) % f.blocks.size()].Returns()) { from = Last(f, (k + i) % f.blocks.size()); break; } auto& g = s.Pick(p.funcs); int j = s.Draw(g.blocks.size() - 1); to = s.Bool() || !g.blocks[j].size ? g.At(j) : g.At(j) + s.Draw(g.blocks[j].size - 1); break; }  // return
      case 3: from = s.OneOf<U>({~0ull, 0x10, s.U64()}); to = bb::SomeAddress(s, p); break;  // from elsewhere
      case 4: to = bb::SomeAddress(s, p); break;
      case 5: { auto& g = s.Pick(p.funcs); to = g.At(s.Draw(g.blocks.size() - 1)); break; }
      default: to = s.OneOf<U>({~0ull, 0x10, s.U64()});
    }
    r.branches[{from, to}] += W();
  }
  n = 0; while (s.More(n, 0, 20, 6)) { ++n; auto& f = s.Pick(p.funcs); int a = s.Draw(f.blocks.size() - 1), b = std::min<int>(f.blocks.size() - 1, a + s.Draw(4)); U x = f.At(a), y = Last(f, b); if (s.Chance(1, 10)) x = bb::SomeAddress(s, p); if (s.Chance(1, 10)) y = bb::SomeAddress(s, p); if (s.Chance(1, 20)) y = s.OneOf<U>({~0ull, 0}); r.falls[{x, y}] += W(); }
  for (auto* m : {&r.branches, &r.falls}) for (auto& [k, v] : *m) { r.addrs.insert(k.first); r.addrs.insert(k.second); } return r;
}
inline std::string Show(const Profile& r) { std::ostringstream o; o << std::hex << (r.all ? "profile, all functions\n" : "profile, sampled functions\n"); for (auto& [k, v] : r.branches) o << " " << k.first << " -> " << k.second << " x" << std::dec << v << std::hex << "\n"; for (auto& [k, v] : r.falls) o << " falls " << k.first << ".." << k.second << " x" << std::dec << v << std::hex << "\n"; return o.str(); }
// The graph edges a profile stands for.
enum { kBranch = 1, kCall = 2, kRet = 4 };
struct Edge { int64_t w = 0; int kinds = 0; };
using Edges = std::map<std::pair<bb::H, bb::H>, Edge>;
// Adds what the profile says. Returns whether the profile is explained well enough.
inline bool Apply(const bb::Program& p, const Profile& r, bool text, Edges* out, std::set<int>* sel, std::map<int, int64_t>* weight_by_kind, bool* shifted) {
  *sel = bb::Select(p, r.all ? nullptr : &r.addrs, text); Edges e; std::map<std::pair<bb::H, bb::H>, int64_t> falls; int64_t dubious = 0, total = 0;
  for (auto& [k, w] : r.branches) {
    auto f = bb::Find(p, *sel, k.first, false), t = bb::Find(p, *sel, k.second, true); if (!t) continue; auto& tf = p.funcs[t->f]; bool returns = f && p.funcs[f->f].blocks[f->b].Returns();
    if ((!f || returns || f->f != t->f) && tf.addr != k.second && tf.At(t->b) == k.second) { *shifted = true; bb::H prev{t->f, t->b - 1}; falls[{prev, *t}] += w; t = prev; }
    if (!f) continue; bool at_start = tf.At(t->b) == k.second; if (!returns && !at_start) dubious += w; int kind = tf.addr == k.second ? kCall : !at_start || returns ? kRet : kBranch; auto& x = e[{*f, *t}]; x.w += w; x.kinds |= kind; total += w; (*weight_by_kind)[kind] += w;
  }
  if (total && (double)dubious / total > 0.3) return false; if (r.branches.size() && (double)e.size() / r.branches.size() < 0.0005) return false;
  for (auto& [k, w] : r.falls) { auto f = bb::Find(p, *sel, k.first, true), t = bb::Find(p, *sel, k.second, false); if (f && t) falls[{*f, *t}] += w; }
  for (auto& [k, w] : falls) { auto [f, t] = k; if (f == t || !bb::CanFall(p, f, t)) continue; for (int i = f.b; i < t.b; ++i) { auto& x = e[{{f.f, i}, {f.f, i + 1}}]; x.w += w; if (!x.kinds) x.kinds = kBranch; (*weight_by_kind)[kBranch] += w; } }
  for (auto& [k, x] : e) { auto& o = (*out)[k]; o.w += x.w; o.kinds |= x.kinds; } return true;
}
}  // namespace br
#endif
