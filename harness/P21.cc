// MODE: GCOV
// SOURCES: util/symbolize/dwarf3ranges.cc util/symbolize/bytereader.cc
// TECHNIQUE: model-based property testing: insertion histories against a brute-force innermost-range model
// LEVEL_NOTE: Random search over laminar range families and insertion orders, queried at every boundary; the model is a linear scan.
#include <algorithm>

#include "symbolize/nonoverlapping_range_map.h"
#include "pbt.h"
using pbt::Case; using pbt::Src;
namespace dw = devtools_crosstool_autofdo;

namespace {
struct R { uint64_t lo, hi; int id; int parent; };
// Draws a family of distinct ranges that pairwise nest or are disjoint.
// With `equal`, a range may coincide with the one around it.
void Gen(Src& s, std::vector<R>* out, uint64_t lo, uint64_t hi, int parent, int depth, bool equal) {
  uint64_t at = lo; int n = 0;
  while (at < hi && out->size() < 24 && s.More(n, 0, 6, parent < 0 ? 3 : 2)) {
    ++n;
    uint64_t room = hi - at, gap = s.Chance(1, 2) ? 0 : s.Draw(std::min<uint64_t>(room - 1, room > 64 ? room / 4 : 12));
    uint64_t b = at + gap, len = 1 + s.Draw(s.Chance(1, 4) ? hi - b - 1 : std::min<uint64_t>(hi - b - 1, std::max<uint64_t>(8, (hi - b) / 3)));
    if (s.Chance(1, 8)) len = hi - b;
    if (!equal && parent >= 0 && b == (*out)[parent].lo && b + len == (*out)[parent].hi) { if (len == 1) { at = b + len; continue; } --len; }
    int id = (int)out->size(); out->push_back({b, b + len, id, parent});
    if (depth < 5) Gen(s, out, b, b + len, id, depth + 1, equal);
    at = b + len;
  }
}
bool IsAncestor(const std::vector<R>& f, int a, int b) { for (b = f[b].parent; b >= 0; b = f[b].parent) if (a == b) return true; return false; }

struct Hist { std::vector<R> f; std::vector<int> order; std::vector<int> batch; std::vector<std::pair<uint64_t,uint64_t>> empties; int mode; };
Hist GenHist(Src& s) {
  Hist h; static const uint64_t bases[] = {0, 0x400000, 0x7ffffffff000ull, 0xffffffffffffff00ull};
  int b = s.Weighted({4, 2, 1, 1}); uint64_t base = bases[b]; uint64_t span = b == 3 ? 0xff : s.OneOf<uint64_t>({40, 200, 100000});
  h.mode = s.Int(0, 2);
  Gen(s, &h.f, base, base + span, -1, 0, h.mode == 0);
  int n = (int)h.f.size(); for (int i = 0; i < n; ++i) h.order.push_back(i);
  if (h.mode == 0) std::reverse(h.order.begin(), h.order.end());  // inside out
  if (h.mode == 2) {  // any order in which no range follows both an enclosing and an enclosed one
    std::vector<int> left = h.order, ord;
    while (!left.empty()) {
      std::vector<int> ok;
      for (int i : left) {
        // Inserting i must not strand a range between two inserted ones.
        bool good = true;
        for (int j : left) if (j != i && good) {
          bool anc = IsAncestor(h.f, i, j), desc = IsAncestor(h.f, j, i);
          for (int k : ord) { if (anc && IsAncestor(h.f, j, k)) good = false; if (desc && IsAncestor(h.f, k, j)) good = false; }
        }
        if (good) ok.push_back(i);
      }
      int pick = ok[s.Draw(ok.size() - 1)]; ord.push_back(pick); left.erase(std::find(left.begin(), left.end(), pick));
    }
    h.order = ord;
  }
  if (h.mode != 0) {  // a range exactly filling what is left of the enclosing range is not a split
    std::vector<int> ord;
    for (int i : h.order) {
      const R& r = h.f[i]; const R* a = nullptr; bool has_inner = false;
      for (int k : ord) { if (IsAncestor(h.f, k, i) && (!a || h.f[k].hi - h.f[k].lo < a->hi - a->lo)) a = &h.f[k]; if (IsAncestor(h.f, i, k)) has_inner = true; }
      if (a && !has_inner) { bool l = r.lo == a->lo, u = r.hi == a->hi; for (int k : ord) { if (h.f[k].hi == r.lo) l = true; if (h.f[k].lo == r.hi) u = true; } if (l && u) continue; }
      ord.push_back(i);
    }
    h.order = ord;
  }
  n = (int)h.order.size();
  for (int i = 0; i < n; ++i) h.batch.push_back(s.Chance(1, 4));
  return h;
}
std::string Show(const Hist& h) { std::ostringstream o; for (int i : h.order) o << "[" << h.f[i].lo << "," << h.f[i].hi << ")=" << i << " "; return o.str(); }

void Lookup(Src& s, Case& c) {
  Hist h = GenHist(s);
  int depth = 0; for (auto& r : h.f) { int d = 0; for (int p = r.parent; p >= 0; p = h.f[p].parent) ++d; depth = std::max(depth, d); }
  c.NonTrivial(h.f.size() >= 3 && depth >= 1); c.LabelIf(depth >= 2, "three levels"); c.Label(h.mode == 0 ? "inside out" : h.mode == 1 ? "outside in" : "mixed order");
  c.Describe([&] { return Show(h); });
  dw::NonOverlappingRangeMap<int> m; const auto& cm = m;
  PBT_CHECK(m.Empty(), "fresh map");
  std::vector<R> in;
  for (size_t k = 0; k <= h.order.size(); ++k) {
    if (k > 0) {
      const R& r = h.f[h.order[k - 1]];
      if (s.Chance(1, 10)) m.InsertRange(r.lo, r.lo, 999);  // an empty range changes nothing
      if (h.batch[k - 1]) { dw::AddressRangeList::RangeList l; l.push_back(std::make_pair(r.lo, r.hi)); if (s.Chance(1, 3)) l.push_back(std::make_pair(r.hi, r.hi)); m.InsertRangeList(l, r.id); }
      else m.InsertRange(r.lo, r.hi, r.id);
      in.push_back(r);
    }
    if (k < h.order.size() && !s.Chance(1, 4)) continue;
    std::set<uint64_t> q; for (auto& r : h.f) for (int d = -1; d <= 1; ++d) { q.insert(r.lo + d); q.insert(r.hi + d); } for (int i = 0; i < 6; ++i) q.insert(s.U64()); q.insert(0);
    for (uint64_t a : q) {
      if (a == ~0ull) continue;
      const R* best = nullptr; for (auto& r : in) if (r.lo <= a && a < r.hi && (!best || r.hi - r.lo < best->hi - best->lo)) best = &r;
      auto it = m.Find(a); auto ci = cm.Find(a);
      PBT_EQ(it == m.End(), best == nullptr, "membership of address " << a << " after " << k << " insertions");
      PBT_EQ(ci == cm.End(), best == nullptr, "const membership of address " << a);
      if (best) { PBT_EQ(it->second, best->id, "innermost range at " << a << " after " << k << " insertions"); PBT_EQ(ci->second, best->id, "const lookup at " << a); PBT_CHECK(it->first.first <= a && a < it->first.second, "the piece found does not contain " << a); }
    }
    uint64_t last = 0, covered = 0; bool first = true;
    for (auto it = cm.Begin(); it != cm.End(); ++it) {
      PBT_CHECK(it->first.first < it->first.second, "empty piece"); PBT_CHECK(first || it->first.first >= last, "pieces overlap or are out of order");
      last = it->first.second; first = false; covered += it->first.second - it->first.first;
      for (uint64_t a : {it->first.first, it->first.second - 1}) { const R* best = nullptr; for (auto& r : in) if (r.lo <= a && a < r.hi && (!best || r.hi - r.lo < best->hi - best->lo)) best = &r; PBT_CHECK(best && best->id == it->second, "piece holds the wrong value at " << a); }
    }
    uint64_t want = 0; for (auto& r : in) { bool top = true; for (auto& o : in) if (o.id != r.id && o.lo <= r.lo && o.hi >= r.hi && (o.lo != r.lo || o.hi != r.hi || o.id < r.id)) top = false; if (top) want += r.hi - r.lo; }
    PBT_EQ(covered, want, "number of addresses covered"); PBT_EQ(m.Empty(), in.empty(), "Empty()");
  }
}

// A range that crosses the boundary of an inserted one is never accepted silently.
void Crossing(Src& s, Case& c) {
  uint64_t lo = 100 + s.Draw(50), hi = lo + 2 + s.Draw(40); bool left = s.Bool();
  uint64_t in = lo + 1 + s.Draw(hi - lo - 2), out = left ? lo - 1 - s.Draw(20) : hi + 1 + s.Draw(20);
  uint64_t a = left ? out : in, b = left ? in : out;
  c.NonTrivial(); c.Describe([&] { std::ostringstream o; o << "[" << lo << "," << hi << ") then [" << a << "," << b << ")"; return o.str(); });
  PBT_CHECK(pbt::Dies([&] { dw::NonOverlappingRangeMap<int> m; m.InsertRange(lo, hi, 1); m.InsertRange(a, b, 2); }), "crossing ranges were accepted");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "P21"; su.scale = 4;
  su.rule = "A case is a family of up to 24 distinct nested or disjoint ranges with an insertion order, queried after a prefix and at the end at every boundary. Non-trivial: at least three ranges and some nesting.";
  su.assumptions = {"no range is inserted after both a range enclosing it and a range it encloses (documented restriction)", "a range inserted into an enclosing one is smaller than the part of that one still showing (an equal range counts as already present, which inside-out insertion relies on)"};
  su.subs = {{"lookup", Lookup, 150000, 6000000}, {"crossing", Crossing, 1500, 20000}};
  return pbt::Main(argc, argv, su);
}
