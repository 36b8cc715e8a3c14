// MODE: GCOV
// SOURCES: util/symbolize/dwarf3ranges.cc util/symbolize/bytereader.cc
// TECHNIQUE: property-based testing: independent encoder of .debug_ranges and .debug_rnglists, decoded by the code
// LEVEL_NOTE: Random search over whole sections (several tables, lists and entry kinds); trusts the encoder in the harness, written from the DWARF 4 and 5 texts.
#include <memory>

#include "symbolize/dwarf3ranges.h"
#include "symbolize/bytereader-inl.h"
#include "pbt.h"
using pbt::Case; using pbt::Src;
namespace dw = devtools_crosstool_autofdo;
using RL = std::vector<std::pair<uint64_t, uint64_t>>;

namespace {
struct Enc {
  std::string b; bool big; int asz;
  void U(uint64_t v, int n) { for (int i = 0; i < n; ++i) b += (char)(v >> (8 * (big ? n - 1 - i : i))); }
  void A(uint64_t v) { U(v, asz); }
  void Leb(uint64_t v, int pad = 0) { size_t st = b.size(); do { uint8_t x = v & 0x7f; v >>= 7; b += (char)(v ? x | 0x80 : x); } while (v); while (pad-- > 0 && b.size() - st < 9) { b.back() |= (char)0x80; b += '\0'; } }
};
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); } };
RL NonEmpty(const dw::AddressRangeList::RangeList& l) { RL r; for (auto& x : l) if (x.first != x.second) r.push_back(x); return r; }
uint64_t Addr(Src& s, int asz) { return asz == 4 ? s.U64(0x3fffffff) : s.U64(0x3fffffffffffffffull); }
std::string Show(const RL& l) { return pbt::ToText(l, 0); }

// DWARF 2-4 .debug_ranges.
void V4(Src& s, Case& c) {
  Enc e; e.big = s.Bool(); e.asz = s.OneOf({8, 4});
  uint64_t largest = e.asz == 4 ? 0xffffffffull : ~0ull;
  struct L { uint64_t off, base; RL want; }; std::vector<L> ls; bool sel = false;
  for (uint64_t i = s.Draw(3); i > 0; --i) e.U(s.Draw(255), 1);  // lists need not be aligned
  while (s.More(ls.size(), 1, 5, 2)) {
    L l; l.off = e.b.size(); l.base = s.Bool() ? Addr(s, e.asz) : 0; uint64_t base = l.base; int n = 0;
    while (s.More(n, 0, 8, 3)) {
      ++n;
      if (s.Chance(1, 4)) { base = Addr(s, e.asz); e.A(largest); e.A(base); sel = true; continue; }
      uint64_t a = Addr(s, e.asz), len = s.Chance(1, 8) ? 0 : 1 + s.U64(1 << 20); if (a + len == 0) len = 1;
      e.A(a); e.A(a + len); if (len) l.want.push_back({a + base, a + len + base});
    }
    e.A(0); e.A(0); ls.push_back(l);
  }
  c.NonTrivial(ls.size() > 1 || ls[0].want.size() > 1); c.LabelIf(sel, "base selection"); c.Label(e.asz == 4 ? "32-bit addresses" : "64-bit addresses"); c.LabelIf(e.big, "big-endian");
  c.Describe([&] { std::string r; for (auto& l : ls) r += "list at " + std::to_string(l.off) + " base " + std::to_string(l.base) + " = " + Show(l.want) + "; "; return r; });
  dw::ByteReader rd(e.big ? dw::ENDIANNESS_BIG : dw::ENDIANNESS_LITTLE); rd.SetAddressSize(e.asz); rd.SetOffsetSize(4);
  Exact buf(e.b); dw::AddressRangeList arl(buf.p.get(), buf.n, nullptr, 0, &rd, nullptr, 0);
  std::vector<int> order; for (size_t i = 0; i < ls.size(); ++i) order.push_back((int)i); s.Shuffle(order);
  for (int i : order) {
    dw::AddressRangeList::RangeList got; arl.ReadRangeList(ls[i].off, ls[i].base, &got, (uint8_t)s.Int(2, 4));
    RL g = NonEmpty(got); PBT_CHECK(g == ls[i].want, "list " << i << ": got " << Show(g) << " want " << Show(ls[i].want));
    if (!got.empty()) { uint64_t mn = ~0ull; for (auto& x : got) mn = std::min<uint64_t>(mn, x.first); if (mn < (1ull << 62)) PBT_EQ((uint64_t)dw::AddressRangeList::RangesMin(&got), mn, "RangesMin"); } else PBT_EQ((uint64_t)dw::AddressRangeList::RangesMin(&got), (uint64_t)0, "RangesMin of nothing");
  }
}

// DWARF 5 .debug_rnglists with .debug_addr.
void V5(Src& s, Case& c) {
  bool big = s.Bool(); int asz = s.OneOf({8, 4});
  Enc addr; addr.big = big; addr.asz = asz; std::vector<uint64_t> pool; uint64_t addr_base = s.OneOf<uint64_t>({8, 0, 16});
  addr.b.assign(addr_base, '\x55'); int np = 1 + (int)s.Draw(s.Chance(1, 10) ? 200 : 6); for (int i = 0; i < np; ++i) { pool.push_back(Addr(s, asz)); addr.A(pool.back()); }
  Enc e; e.big = big; e.asz = asz;
  struct L { uint64_t table, off_in_section, base; int index; RL want; }; std::vector<L> ls; std::vector<uint64_t> tables; std::set<int> kinds; bool any64 = false;
  int nt = 0;
  bool d64 = s.Chance(1, 5); any64 = d64;
  while (s.More(nt, 1, 3, 1)) {
    ++nt; Enc body; body.big = big; body.asz = asz; std::vector<L> mine; std::vector<uint64_t> offs;
    bool with_array = s.Bool();
    while (s.More(mine.size(), 1, 4, 2)) {
      L l; l.base = s.Bool() ? Addr(s, asz) : 0; l.off_in_section = body.b.size(); uint64_t base = l.base; int n = 0;
      auto Ix = [&] { return s.Draw(pool.size() - 1); }; auto Len = [&] { return s.Chance(1, 8) ? 0 : 1 + s.U64(1 << 20); };
      while (s.More(n, 0, 8, 3)) {
        ++n; int k = s.Int(1, 7); kinds.insert(k); body.b += (char)k; int pad = s.Chance(1, 6) ? s.Int(1, 3) : 0;
        uint64_t lo = 0, hi = 0;
        switch (k) {
          case 1: { auto i = Ix(); body.Leb(i, pad); base = pool[i]; continue; }
          case 2: { auto i = Ix(), j = Ix(); body.Leb(i, pad); body.Leb(j); lo = pool[i]; hi = pool[j]; break; }
          case 3: { auto i = Ix(); uint64_t len = Len(); body.Leb(i); body.Leb(len, pad); lo = pool[i]; hi = lo + len; break; }
          case 4: { uint64_t a = s.U64(1 << 24), len = Len(); body.Leb(a, pad); body.Leb(a + len); lo = base + a; hi = lo + len; break; }
          case 5: { base = Addr(s, asz); body.A(base); continue; }
          case 6: { uint64_t a = Addr(s, asz), len = Len(); body.A(a); body.A(a + len); lo = a; hi = a + len; break; }
          case 7: { uint64_t a = Addr(s, asz), len = Len(); body.A(a); body.Leb(len, pad); lo = a; hi = a + len; break; }
        }
        if (lo != hi) l.want.push_back({lo, hi});
      }
      body.b += '\0'; mine.push_back(l);
    }
    int osz = d64 ? 8 : 4; size_t arr = with_array ? mine.size() * osz : 0; uint64_t len = 2 + 1 + 1 + 4 + arr + body.b.size();
    if (d64) e.b.append(4, '\xff'); e.U(len, osz); e.U(5, 2); e.U(asz, 1); e.U(0, 1); e.U(with_array ? mine.size() : 0, 4);
    uint64_t tb = e.b.size(); tables.push_back(tb);
    for (size_t i = 0; i < mine.size(); ++i) { if (with_array) e.U(arr + mine[i].off_in_section, osz); mine[i].index = with_array ? (int)i : -1; mine[i].table = tb; mine[i].off_in_section += tb + arr; }
    e.b += body.b; ls.insert(ls.end(), mine.begin(), mine.end());
  }
  size_t total = 0; for (auto& l : ls) total += l.want.size();
  c.NonTrivial(total >= 2); for (int k : kinds) c.Label("entry kind " + std::to_string(k)); c.LabelIf(any64, "64-bit DWARF"); c.LabelIf(nt > 1, "several tables");
  c.Describe([&] { std::string r = "pool " + pbt::ToText(pool, 0) + "; "; for (auto& l : ls) r += "list at " + std::to_string(l.off_in_section) + " base " + std::to_string(l.base) + " = " + Show(l.want) + "; "; return r + " section " + pbt::Hex(e.b); });
  dw::ByteReader rd(big ? dw::ENDIANNESS_BIG : dw::ENDIANNESS_LITTLE); rd.SetAddressSize(asz); rd.SetOffsetSize(4);
  Exact buf(e.b), ab(addr.b); dw::AddressRangeList arl(nullptr, 0, buf.p.get(), buf.n, &rd, ab.p.get(), ab.n);
  std::vector<int> order; for (size_t i = 0; i < ls.size(); ++i) order.push_back((int)i); s.Shuffle(order);
  for (int i : order) {
    const L& l = ls[i]; dw::AddressRangeList::RangeList got;
    if (l.index >= 0 && s.Bool()) { uint64_t off = arl.GetRngListsElementOffsetByIndex(l.table, l.index); arl.ReadDwarfRngListwithOffsetArray(off, l.base, &got, addr_base, l.table); c.Label("through the offset array"); }
    else { arl.ReadRangeList(l.off_in_section, l.base, &got, 5, addr_base); c.Label("by section offset"); }
    RL g = NonEmpty(got); PBT_CHECK(g == l.want, "list " << i << ": got " << Show(g) << " want " << Show(l.want));
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "P22"; su.scale = 8;
  su.rule = "A case is a whole range-list section of either generation with several lists (and for DWARF 5 several tables and an address pool), read in a random order. Non-trivial: more than one list or more than one range.";
  su.assumptions = {"addresses stay below the top of the address space, so that base plus offset does not wrap"};
  su.subs = {{"debug_ranges", V4, 150000, 6000000}, {"debug_rnglists", V5, 150000, 6000000}};
  return pbt::Main(argc, argv, su);
}
