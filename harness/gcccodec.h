// Independent encoder and decoder of the GCC AutoFDO profile format.
#ifndef VERIF_GCCCODEC_H_
#define VERIF_GCCCODEC_H_
#include <algorithm>
#include "profgen.h"

namespace gcc {
struct Summary { uint64_t total, max, max_function, num_counts, num_functions; std::vector<std::array<uint64_t, 3>> cutoffs; };
struct File {
  uint32_t version = 1; bool strings_in_bytes = false;
  Summary summary{}; bool has_summary = false;
  std::vector<std::string> files; std::vector<std::string> names; std::vector<uint32_t> name_file;
  struct Top { uint64_t head, timestamp; std::string name; pg::Func f; };
  std::vector<Top> tops;
  std::vector<std::pair<uint32_t, uint64_t>> working_set;
};
struct BadFile : pbt::Failure { using Failure::Failure; };

struct Reader {
  std::string_view b; size_t pos = 0; uint32_t version = 0;
  uint32_t W() { if (pos + 4 > b.size()) throw BadFile("file ends early at byte " + std::to_string(pos)); uint32_t v = 0; for (int i = 0; i < 4; ++i) v |= (uint32_t)(unsigned char)b[pos + i] << (8 * i); pos += 4; return v; }
  uint64_t C() { uint64_t lo = W(); return lo | (uint64_t)W() << 32; }
  std::string S() {
    uint32_t n = W(); size_t bytes = version >= 2 ? n : (size_t)n * 4;
    if (n == 0) return "<null>";
    if (pos + bytes > b.size()) throw BadFile("string runs past the end");
    std::string s(b.substr(pos, bytes)); pos += bytes;
    size_t z = s.find('\0'); if (z == std::string::npos) throw BadFile("unterminated string");
    if (version >= 2 ? z != s.size() - 1 : s.size() - z > 4) throw BadFile("string length word is wrong");
    for (size_t i = z; i < s.size(); ++i) if (s[i]) throw BadFile("string padding is not zero");
    return s.substr(0, z);
  }
};

// `version` is the format version in the header; the section layout follows it.
inline File Decode(const std::string& bytes) {
  Reader r; r.b = bytes; File f;
  auto Expect = [&](uint32_t got, uint32_t want, const char* what) { if (got != want) { std::ostringstream o; o << what << " is " << got << ", want " << want; throw BadFile(o.str()); } };
  Expect(r.W(), 0x67636461, "magic"); f.version = r.version = r.W(); Expect(r.W(), 0, "stamp");
  if (f.version >= 3) {
    Expect(r.W(), 0xa8000000, "summary tag"); f.has_summary = true; auto& s = f.summary;
    s.total = r.C(); s.max = r.C(); s.max_function = r.C(); s.num_counts = r.C(); s.num_functions = r.C();
    uint64_t n = r.C(); if (n > 1000) throw BadFile("summary has too many entries"); for (uint64_t i = 0; i < n; ++i) { uint64_t c = r.W(), a = r.C(), b = r.C(); s.cutoffs.push_back({c, a, b}); }
  }
  Expect(r.W(), 0xaa000000, "name table tag"); uint32_t name_len = r.W();
  if (f.version >= 3) { uint32_t n = r.W(); for (uint32_t i = 0; i < n; ++i) f.files.push_back(r.S()); }
  uint32_t n = r.W(); uint32_t words = 1;
  for (uint32_t i = 0; i < n; ++i) { f.names.push_back(r.S()); words += 1 + f.names.back().size() / 4 + 1; f.name_file.push_back(f.version >= 3 ? r.W() : ~0u); }
  // From version 2 on the strings are not padded to words and the length is only nominal.
  if (f.version < 2) Expect(name_len, words, "name table length");
  Expect(r.W(), 0xac000000, "function tag"); uint32_t flen = r.W(); size_t fstart = r.pos; uint32_t nf = r.W();
  auto Name = [&](uint64_t i) { if (i >= f.names.size()) throw BadFile("name index " + std::to_string(i) + " out of range"); return f.names[i]; };
  uint64_t fwords = 1;
  std::function<void(pg::Func*, uint32_t)> body = [&](pg::Func* fn, uint32_t name_index) {
    if (f.name_file[name_index] < f.files.size()) fn->file = f.files[f.name_file[name_index]];
    uint32_t np = r.W(), nc = r.W(); fwords += 3;
    for (uint32_t i = 0; i < np; ++i) {
      uint32_t off = r.W(), nt = r.W(); uint64_t key = (uint64_t)(off >> 16) << 32 | (off & 0xffff); if (fn->lines.count(key)) throw BadFile("position listed twice");
      pg::Line& l = fn->lines[key]; l.count = r.C(); fwords += 4;
      for (uint32_t j = 0; j < nt; ++j) { Expect(r.W(), 7, "histogram type"); std::string t = Name(r.C()); if (l.targets.count(t)) throw BadFile("target listed twice"); l.targets[t] = r.C(); fwords += 5; }
    }
    for (uint32_t i = 0; i < nc; ++i) { uint32_t off = r.W(), ni = r.W(); ++fwords; auto key = std::make_pair((uint64_t)(off >> 16) << 32 | (off & 0xffff), Name(ni)); if (fn->calls.count(key)) throw BadFile("call site listed twice"); if (ni == 0) throw BadFile("name index 0 used"); body(&fn->calls[key], ni); }
  };
  for (uint32_t i = 0; i < nf; ++i) { File::Top t; t.head = r.C(); t.timestamp = f.version >= 3 ? r.C() : 0; uint32_t ni = r.W(); t.name = Name(ni); if (ni == 0) throw BadFile("name index 0 used"); fwords += 2; body(&t.f, ni); f.tops.push_back(t); }
  if (f.version < 3) { Expect(flen, fwords, "function section length"); Expect((r.pos - fstart) / 4, flen, "function section size"); }
  Expect(r.W(), 0xae000000, "module tag"); Expect(r.W(), 0, "module length"); Expect(r.W(), 0, "number of modules");
  Expect(r.W(), 0xaf000000, "working set tag"); Expect(r.W(), 3 * 128, "working set length");
  for (int i = 0; i < 128; ++i) { uint32_t a = r.W(); uint64_t c = r.C(); f.working_set.push_back({a, c}); }
  if (r.pos != bytes.size()) throw BadFile("bytes after the last section");
  return f;
}

struct Writer {
  std::string b; uint32_t version;
  void W(uint32_t v) { for (int i = 0; i < 4; ++i) b += (char)(v >> (8 * i)); }
  void C(uint64_t v) { W((uint32_t)v); W((uint32_t)(v >> 32)); }
  void S(const std::string& s) { if (version >= 2) { W((uint32_t)s.size() + 1); b += s; b += '\0'; } else { uint32_t w = (uint32_t)s.size() / 4 + 1; W(w); b += s; b.append(w * 4 - s.size(), '\0'); } }
};
// Encodes tops in the given order with the given string table.
inline std::string Encode(const File& f) {
  Writer w; w.version = f.version; w.W(0x67636461); w.W(f.version); w.W(0);
  if (f.version >= 3) { w.W(0xa8000000); auto& s = f.summary; w.C(s.total); w.C(s.max); w.C(s.max_function); w.C(s.num_counts); w.C(s.num_functions); w.C(s.cutoffs.size()); for (auto& c : s.cutoffs) { w.W((uint32_t)c[0]); w.C(c[1]); w.C(c[2]); } }
  w.W(0xaa000000); w.W(0);
  if (f.version >= 3) { w.W(f.files.size()); for (auto& x : f.files) w.S(x); }
  w.W(f.names.size()); for (size_t i = 0; i < f.names.size(); ++i) { w.S(f.names[i]); if (f.version >= 3) w.W(f.name_file[i]); }
  auto Ix = [&](const std::string& n) { size_t i = std::find(f.names.begin(), f.names.end(), n) - f.names.begin(); if (i == f.names.size()) throw std::runtime_error("encoder: unknown name " + n); return (uint32_t)i; };
  w.W(0xac000000); w.W(0); w.W(f.tops.size());
  std::function<void(const pg::Func&)> body = [&](const pg::Func& fn) {
    w.W(fn.lines.size()); w.W(fn.calls.size());
    for (auto& [k, l] : fn.lines) { w.W((uint32_t)(k >> 32) << 16 | (uint32_t)(k & 0xffff)); w.W(l.targets.size()); w.C(l.count); for (auto& [t, c] : l.targets) { w.W(7); w.C(Ix(t)); w.C(c); } }
    for (auto& [k, c] : fn.calls) { w.W((uint32_t)(k.first >> 32) << 16 | (uint32_t)(k.first & 0xffff)); w.W(Ix(k.second)); body(c); }
  };
  for (auto& t : f.tops) { w.C(t.head); if (f.version >= 3) w.C(t.timestamp); w.W(Ix(t.name)); body(t.f); }
  w.W(0xae000000); w.W(0); w.W(0); w.W(0xaf000000); w.W(384);
  for (auto& [a, c] : f.working_set) { w.W(a); w.C(c); }
  return w.b;
}
// The summary of the functions that are written.
inline Summary Summarize(const std::vector<const pg::Func*>& tops, const std::vector<uint32_t>& cutoffs) {
  Summary s{}; std::vector<uint64_t> counts;
  std::function<void(const pg::Func&)> go = [&](const pg::Func& f) { for (auto& [k, l] : f.lines) counts.push_back(l.count); for (auto& [k, c] : f.calls) go(c); };
  for (auto* f : tops) { go(*f); s.max_function = std::max(s.max_function, f->head); }
  std::sort(counts.rbegin(), counts.rend());
  for (auto c : counts) { s.total += c; s.max = std::max(s.max, c); }
  s.num_counts = counts.size(); s.num_functions = tops.size();
  uint64_t at_least = 0;  // smallest count used so far
  uint64_t used = 0, sum = 0;
  for (auto cut : cutoffs) {
    uint64_t want = (uint64_t)((unsigned __int128)s.total * cut / 1000000);
    while (sum < want) { uint64_t v = counts[used]; while (used < counts.size() && counts[used] == v) { sum += v; ++used; } at_least = v; }
    s.cutoffs.push_back({cut, at_least, used});
  }
  return s;
}
// The spelling GCC profiles use for constructors and destructors.
inline std::string Canonical(std::string n) {
  auto Ends = [&](const char* e) { size_t k = strlen(e); return n.size() >= k && n.compare(n.size() - k, k, e) == 0; };
  if (n.size() > 5 && (Ends("D4Ev") || Ends("C4Ev"))) n[n.size() - 3] = '2';
  else if (n.size() > 7 && Ends("C4EPKc")) n[n.size() - 5] = '2';
  else if (n.size() > 12 && Ends("C4EPKcRKS2_")) n[n.size() - 10] = '2';
  return n;
}
inline void CanonicalNames(pg::Func* f) {
  for (auto& [k, l] : f->lines) { std::map<std::string, uint64_t> t; for (auto& [n, c] : l.targets) t[Canonical(n)] = c; l.targets = t; }
  std::map<std::pair<uint64_t, std::string>, pg::Func> c; for (auto& [k, x] : f->calls) { CanonicalNames(&x); c[{k.first, Canonical(k.second)}] = x; } f->calls = c;
}
inline pg::Profile CanonicalNames(const pg::Profile& p) { pg::Profile r; for (auto [n, f] : p) { CanonicalNames(&f); r[Canonical(n)] = f; } return r; }
}  // namespace gcc
#endif
