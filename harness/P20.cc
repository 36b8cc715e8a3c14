// MODE: GCOV
// SOURCES: util/symbolize/bytereader.cc
// TECHNIQUE: property-based testing: independent encoders for every integer form, decoded by the code in exact-size buffers
// LEVEL_NOTE: Random search biased to width edges; buffers end exactly at the encoded bytes so that any over-read is a sanitizer report.
#include <memory>

#include "symbolize/bytereader.h"
#include "symbolize/bytereader-inl.h"
#include "pbt.h"
using pbt::Case; using pbt::Src;
namespace dw = devtools_crosstool_autofdo;

namespace {
std::string Fixed(uint64_t v, int n, bool big) { std::string r; for (int i = 0; i < n; ++i) r += (char)(v >> (8 * (big ? n - 1 - i : i))); return r; }
std::string Uleb(uint64_t v, int extra) {
  std::string r; do { uint8_t b = v & 0x7f; v >>= 7; r += (char)(v ? b | 0x80 : b); } while (v);
  while (extra-- > 0 && r.size() < 10) { r.back() |= (char)0x80; r += '\0'; }
  return r;
}
std::string Sleb(int64_t v, int extra) {
  std::string r; bool neg = v < 0;
  for (;;) { uint8_t b = v & 0x7f; v >>= 7; bool done = (v == 0 && !(b & 0x40)) || (v == -1 && (b & 0x40)); r += (char)(done ? b : b | 0x80); if (done) break; }
  while (extra-- > 0 && r.size() < 10) { r.back() |= (char)0x80; r += neg ? '\x7f' : '\0'; }
  return r;
}
// A heap copy with no byte after the end.
struct Exact { std::unique_ptr<char[]> p; explicit Exact(const std::string& s) : p(new char[s.size()]) { memcpy(p.get(), s.data(), s.size()); } };

void FixedWidth(Src& s, Case& c) {
  bool big = s.Bool(); int kind = s.Int(0, 7);
  static const int widths[] = {1, 2, 3, 4, 8, 4, 8, 0};
  dw::ByteReader r(big ? dw::ENDIANNESS_BIG : dw::ENDIANNESS_LITTLE);
  if (kind < 5) {
    int w = widths[kind]; uint64_t mask = w == 8 ? ~0ull : (1ull << 8 * w) - 1, v = s.U64() & mask;
    c.NonTrivial(v != 0); c.Label("fixed " + std::to_string(w)); c.Describe([&] { return "width " + std::to_string(w) + (big ? " big" : " little") + " value " + std::to_string(v); });
    Exact e(Fixed(v, w, big)); uint64_t g = 0;
    switch (w) { case 1: g = r.ReadOneByte(e.p.get()); break; case 2: g = r.ReadTwoBytes(e.p.get()); break; case 3: g = r.ReadThreeBytes(e.p.get()); break; case 4: g = r.ReadFourBytes(e.p.get()); break; default: g = r.ReadEightBytes(e.p.get()); }
    PBT_EQ(g, v, "fixed width " << w);
  } else {
    // Address and offset sizes are independent, and may be set repeatedly.
    int asz = 0, osz = 0; std::string steps; int n = 0;
    while (s.More(n, 1, 12, 5)) {
      ++n; int op = s.Int(0, 4);
      if (op == 0) { asz = s.OneOf({4, 8}); r.SetAddressSize(asz); steps += " address=" + std::to_string(asz); PBT_EQ((int)r.AddressSize(), asz, "address size"); }
      if (op == 1) { osz = s.OneOf({4, 8}); r.SetOffsetSize(osz); steps += " offset=" + std::to_string(osz); PBT_EQ((int)r.OffsetSize(), osz, "offset size"); }
      if (op == 2 && asz) { uint64_t v = s.U64() & (asz == 8 ? ~0ull : 0xffffffffull); Exact e(Fixed(v, asz, big)); PBT_EQ((uint64_t)r.ReadAddress(e.p.get()), v, "address after" << steps); c.NonTrivial(); }
      if (op == 3 && osz) { uint64_t v = s.U64() & (osz == 8 ? ~0ull : 0xffffffffull); Exact e(Fixed(v, osz, big)); PBT_EQ((uint64_t)r.ReadOffset(e.p.get()), v, "offset after" << steps); c.NonTrivial(); }
      if (op == 4) {
        bool wide = s.Bool(); uint64_t v = wide ? s.U64() : s.U64(0xffffffefull); size_t len = 77;
        Exact e(wide ? std::string(4, '\xff') + Fixed(v, 8, big) : Fixed(v, 4, big));
        PBT_EQ((uint64_t)r.ReadInitialLength(e.p.get(), &len), v, "initial length after" << steps); PBT_EQ(len, (size_t)(wide ? 12 : 4), "bytes of the initial length");
        osz = wide ? 8 : 4; PBT_EQ((int)r.OffsetSize(), osz, "offset size selected by the initial length"); steps += wide ? " length64" : " length32"; c.NonTrivial(); c.Label(wide ? "64-bit length" : "32-bit length");
      }
      PBT_EQ((int)r.AddressSize(), asz, "address size changed unasked"); PBT_EQ((int)r.OffsetSize(), osz, "offset size changed unasked");
    }
    c.Label("sizes history"); c.Describe([&] { return std::string(big ? "big" : "little") + steps; });
  }
}

void Leb(Src& s, Case& c) {
  dw::ByteReader r(s.Bool() ? dw::ENDIANNESS_BIG : dw::ENDIANNESS_LITTLE);
  std::vector<std::pair<bool, uint64_t>> vals; std::string buf; std::vector<size_t> lens; bool padded = false;
  while (s.More(vals.size(), 1, 8, 3)) {
    bool sg = s.Bool(); uint64_t v = s.U64(); int extra = s.Chance(1, 3) ? s.Int(1, 9) : 0;
    if (sg && s.Bool()) v = -v;
    std::string e = sg ? Sleb((int64_t)v, extra) : Uleb(v, extra);
    padded |= extra > 0; buf += e; lens.push_back(e.size()); vals.push_back({sg, v});
  }
  c.NonTrivial(buf.size() > vals.size()); c.LabelIf(padded, "redundant encoding"); c.LabelIf(buf.size() >= 10, "long");
  c.Describe([&] { return pbt::ToText(vals, 0) + " as " + pbt::Hex(buf); });
  Exact e(buf); size_t pos = 0;
  for (size_t i = 0; i < vals.size(); ++i) {
    size_t len = 999;
    if (vals[i].first) PBT_EQ((int64_t)r.ReadSignedLEB128(e.p.get() + pos, &len), (int64_t)vals[i].second, "signed value " << i);
    else PBT_EQ((uint64_t)r.ReadUnsignedLEB128(e.p.get() + pos, &len), vals[i].second, "unsigned value " << i);
    PBT_EQ(len, lens[i], "bytes consumed by value " << i);
    pos += lens[i];
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "P20"; su.scale = 1.5;
  su.rule = "A case is one fixed-width value, a history of size selections and reads, or a run of LEB128 numbers (with redundant padding up to ten bytes). Non-trivial: non-zero value, a read after a selection, or a multi-byte encoding.";
  su.subs = {{"fixed", FixedWidth, 3000000, 20000000}, {"leb128", Leb, 3000000, 20000000}};
  return pbt::Main(argc, argv, su);
}
