// Little building blocks for writing DWARF by hand.
#ifndef DWENC_H_
#define DWENC_H_
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
namespace dwenc {
struct Enc {
  std::string b; bool big = false; int asz = 8, osz = 4;
  void U(uint64_t v, int n) { for (int i = 0; i < n; ++i) b += (char)(v >> (8 * (big ? n - 1 - i : i))); }
  void Set(size_t at, uint64_t v, int n) { for (int i = 0; i < n; ++i) b[at + i] = (char)(v >> (8 * (big ? n - 1 - i : i))); }
  void A(uint64_t v) { U(v, asz); }
  void O(uint64_t v) { U(v, osz); }
  void Str(const std::string& s) { b += s; b += '\0'; }
  void Uleb(uint64_t v, int pad = 0) { size_t st = b.size(); do { uint8_t x = v & 0x7f; v >>= 7; b += (char)(v ? x | 0x80 : x); } while (v); while (pad-- > 0 && b.size() - st < 9) { b.back() |= (char)0x80; b += '\0'; } }
  void Sleb(int64_t v, int pad = 0) {
    size_t st = b.size(); bool neg = v < 0;
    for (;;) { uint8_t x = v & 0x7f; v >>= 7; bool done = (v == 0 && !(x & 0x40)) || (v == -1 && (x & 0x40)); b += (char)(done ? x : x | 0x80); if (done) break; }
    while (pad-- > 0 && b.size() - st < 9) { b.back() |= (char)0x80; b += neg ? '\x7f' : '\0'; }
  }
  size_t Len() { if (osz == 8) U(0xffffffff, 4); size_t at = b.size(); O(0); return at; }  // initial length, closed by Close
  void Close(size_t at) { Set(at, b.size() - at - osz, osz); }
};
// A copy of the bytes in a heap block of exactly that size, so that reads past the end are seen.
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); } const char* data() const { return p.get(); } };
inline uint64_t AddString(std::string* table, const std::string& s) { uint64_t at = table->size(); *table += s; *table += '\0'; return at; }
}  // namespace dwenc
#endif
