// MODE: GCOV
// SOURCES: gcov.cc
// TECHNIQUE: property-based testing: generated call histories against an independent codec of the record format
// LEVEL_NOTE: Random search over write/read histories (several sessions per process, file lengths across every buffer size); trusts the independent codec in the harness.
#include <unistd.h>

#include "gcov.h"
#include "pbt.h"
#include "third_party/abseil/absl/flags/flag.h"
using pbt::Case; using pbt::Src;

namespace {
struct Rec { int kind; uint64_t v = 0; std::string s; };  // 0 word, 1 counter, 2 string, 3 null string (read side)

void EmitWord(std::string* o, uint32_t v) { for (int i = 0; i < 4; ++i) o->push_back((char)(v >> (8 * i))); }
// The independent encoder.
void Encode(std::string* o, const Rec& r, uint64_t version) {
  if (r.kind == 0) EmitWord(o, (uint32_t)r.v);
  else if (r.kind == 1) { EmitWord(o, (uint32_t)r.v); EmitWord(o, (uint32_t)(r.v >> 32)); }
  else if (r.kind == 3) EmitWord(o, 0);
  else if (version >= 2) { EmitWord(o, (uint32_t)r.s.size() + 1); *o += r.s; o->push_back(0); }
  else { uint32_t words = (uint32_t)r.s.size() / 4 + 1; EmitWord(o, words); *o += r.s; o->append(words * 4 - r.s.size(), 0); }
}

std::vector<Rec> GenHistory(Src& s, bool with_null, bool allow_big) {
  std::vector<Rec> h;
  int groups = 0;
  while (s.More(groups, 0, 12, 4)) {
    ++groups;
    int kind = s.Weighted({3, 3, 4, with_null ? 1 : 0});
    int bulk = allow_big ? s.Weighted({8, 3, 2}) : s.Weighted({8, 2, 0});
    size_t n = bulk == 0 ? 1 : bulk == 1 ? s.Range(2, 20) : kind == 2 ? s.Range(1, 12) : s.Range(500, 9000);
    size_t base_len = kind != 2 ? 0 : bulk == 2 ? s.OneOf<size_t>({16378, 16376, 16375, 8191, 5000, 16100}) : s.Weighted({6, 1}) == 0 ? s.Range(0, 40) : s.Range(0, 3000);
    uint64_t seed = s.Draw(1 << 20), v = s.U64();
    for (size_t i = 0; i < n; ++i) {
      Rec r{kind};
      if (kind < 2) r.v = i == 0 ? v : pbt::SplitMix(seed) >> (seed & 63);
      if (kind == 0) r.v &= 0xffffffffu;
      if (kind == 2) { size_t len = base_len > i ? base_len - i : base_len; r.s.resize(len); uint64_t x = seed + i; for (auto& c : r.s) c = (char)(1 + pbt::SplitMix(x) % 255); }
      h.push_back(r);
    }
  }
  return h;
}
std::string Show(const std::vector<Rec>& h) {
  std::ostringstream o; o << h.size() << " records:"; size_t n = 0;
  for (auto& r : h) { if (++n > 25) { o << " ..."; break; } if (r.kind == 0) o << " u32:" << r.v; else if (r.kind == 1) o << " u64:" << r.v; else if (r.kind == 3) o << " str:null"; else o << " str[" << r.s.size() << "]"; }
  return o.str();
}
void WriteAll(const std::string& path, const std::vector<Rec>& h) {
  PBT_EQ(gcov_open(path.c_str(), -1), 1, "open for writing");
  for (auto& r : h) { if (r.kind == 0) gcov_write_unsigned((uint32_t)r.v); else if (r.kind == 1) gcov_write_counter(r.v); else gcov_write_string(r.s.c_str()); }
  PBT_EQ(gcov_close(), 0, "close after writing reports no error");
}
void ReadOne(const Rec& r, size_t i) {
  if (r.kind == 0) { PBT_EQ((uint64_t)gcov_read_unsigned(), r.v, "word, record " << i); return; }
  if (r.kind == 1) { PBT_EQ((uint64_t)gcov_read_counter(), r.v, "counter, record " << i); return; }
  const char* p = gcov_read_string();
  if (r.kind == 3) { PBT_CHECK(p == nullptr, "absent string, record " << i); return; }
  PBT_CHECK(p != nullptr, "string, record " << i);
  PBT_EQ(strlen(p), r.s.size(), "string length, record " << i);
  PBT_CHECK(memcmp(p, r.s.data(), r.s.size()) == 0, "string contents differ, record " << i);
}
void ExpectEnd() {
  for (int i = 0; i < 3; ++i) PBT_EQ((uint64_t)gcov_read_counter(), (uint64_t)0, "counter past the end");
  PBT_EQ((uint64_t)gcov_read_unsigned(), (uint64_t)0, "word past the end");
  PBT_CHECK(gcov_read_string() == nullptr, "string past the end");
}
void ReadAll(const std::string& path, const std::vector<Rec>& h, bool past_end) {
  PBT_EQ(gcov_open(path.c_str(), 1), 1, "open for reading");
  for (size_t i = 0; i < h.size(); ++i) ReadOne(h[i], i);
  if (past_end) { ExpectEnd(); PBT_CHECK(gcov_close() != 0, "reading past the end is not reported"); } else PBT_EQ(gcov_close(), 0, "close after reading");
}

const std::vector<uint64_t> kVersions = {0x3430372a, 1, 2, 3, 0};

// The buffer only ever grows within a process, so each case runs in a fresh one.
void InFresh(Case& c, const std::function<void()>& f) {
  bool died; std::string r = pbt::InChild([&]() -> std::string { try { f(); } catch (const pbt::Failure& e) { return e.what(); } return "ok"; }, &died);
  PBT_CHECK(!died, "the process died");
  PBT_CHECK(r == "ok", r);
}

// Several write/read sessions in one process.
void Sessions(Src& s, Case& c) {
  struct Session { int what; uint64_t version; std::vector<Rec> h; size_t cut; bool past; };
  std::vector<Session> ss; bool big = false, straddle = false;
  while (s.More(ss.size(), 1, 4, 2)) {
    Session x; x.what = s.Weighted({3, 3, 2, 1}); x.version = s.Pick(kVersions); x.h = GenHistory(s, x.what == 1, true); x.cut = 0; x.past = s.Bool();
    if (x.what == 2) { std::string b; for (auto& r : x.h) Encode(&b, r, x.version); x.cut = b.size() ? s.Draw(b.size() - 1) : 0; if (s.Bool() && b.size() > 12) x.cut = b.size() - 1 - s.Draw(10); }
    std::string b; for (auto& r : x.h) Encode(&b, r, x.version);
    big |= b.size() > 32776; straddle |= b.size() > 32776 && x.what != 0;
    c.Label(x.what == 0 ? "write+decode+read back" : x.what == 1 ? "read encoded file" : x.what == 2 ? "read truncated file" : "missing file");
    c.NonTrivial(x.h.size() >= 2);
    ss.push_back(std::move(x));
  }
  c.LabelIf(big, "larger than the initial buffer"); c.LabelIf(straddle, "read across a buffer refill"); c.LabelIf(ss.size() > 1, "several sessions");
  c.Describe([&] { std::string r; for (auto& x : ss) r += "[session " + std::to_string(x.what) + " version " + std::to_string(x.version) + " " + Show(x.h) + " cut " + std::to_string(x.cut) + "] "; return r; });
  std::string path = c.Tmp("f"), missing = c.Tmp("nodir/f");
  InFresh(c, [&] {
    for (auto& x : ss) {
      absl::SetFlag(&FLAGS_gcov_version, x.version);
      std::string want; for (auto& r : x.h) Encode(&want, r, x.version);
      if (x.what == 0) {
        WriteAll(path, x.h);
        std::string got = pbt::ReadFile(path);
        PBT_EQ(got.size(), want.size(), "file size");
        for (size_t i = 0; i < got.size(); ++i) PBT_CHECK(got[i] == want[i], "file differs from the format at byte " << i);
        ReadAll(path, x.h, x.past);
      } else if (x.what == 1) {
        pbt::WriteFile(path, want);
        ReadAll(path, x.h, x.past);
      } else if (x.what == 2) {
        pbt::WriteFile(path, want.substr(0, x.cut));
        PBT_EQ(gcov_open(path.c_str(), 1), 1, "open for reading");
        size_t pos = 0; bool full = true;
        for (size_t i = 0; i < x.h.size(); ++i) {
          std::string one; Encode(&one, x.h[i], x.version); pos += one.size();
          if (pos <= x.cut) { ReadOne(x.h[i], i); continue; }
          full = false;
          // The first record that does not fit reads as zero / absent.
          if (x.h[i].kind == 0) PBT_EQ((uint64_t)gcov_read_unsigned(), (uint64_t)0, "truncated word");
          else if (x.h[i].kind == 1) PBT_EQ((uint64_t)gcov_read_counter(), (uint64_t)0, "truncated counter");
          else PBT_CHECK(gcov_read_string() == nullptr, "truncated string");
          break;
        }
        (void)full;
        // Fewer than eight bytes can be left only when a scalar was cut.
        ExpectEnd();
        PBT_CHECK(gcov_close() != 0, "the early end of the file is not reported");
      } else {
        PBT_EQ(gcov_open(missing.c_str(), 1), 0, "opening a missing file for reading");
        PBT_EQ(gcov_open(missing.c_str(), -1), 0, "creating a file in a missing directory");
      }
    }
  });
}

// A record placed at every distance from the points where the read buffer is
// refilled.
void Boundary(Src& s, Case& c) {
  uint64_t version = s.Pick(kVersions);
  int kind = s.Int(0, 2);
  std::vector<Rec> h; size_t slen = 0;
  Rec probe{kind}; probe.v = kind == 0 ? s.Draw(0xffffffffu) | 1 : s.U64() | (1ull << 40) | 1;
  if (kind == 2) { slen = s.Range(0, 300); uint64_t x = s.Draw(999); probe.s.resize(slen); for (auto& ch : probe.s) ch = (char)('a' + pbt::SplitMix(x) % 26); }
  // The first read allocates 2*(16384+4) bytes; each refill multiplies that.
  std::string one; Encode(&one, probe, version);
  size_t target = s.OneOf<size_t>({32776, 16384, 65552, 98328, 131104, 32768, 65536}) - 8 - slen + s.Draw(2 * slen + 24);
  size_t n = 0; uint64_t x = s.Draw(1 << 20);
  if (version >= 2) { Rec pad{2}; pad.s.assign(s.Draw(7), 'x'); std::string e; Encode(&e, pad, version); n += e.size(); h.push_back(pad); }
  while (n + 4 <= target) { Rec r{0}; r.v = (uint32_t)pbt::SplitMix(x); h.push_back(r); n += 4; }
  h.push_back(probe); for (int i = 0; i < 3; ++i) { Rec r{1}; r.v = pbt::SplitMix(x); h.push_back(r); }
  size_t written = s.Bool() ? 1 : 0; bool past = s.Bool();
  c.NonTrivial(); c.Label(kind == 0 ? "word" : kind == 1 ? "counter" : "string"); c.LabelIf(written, "written by the code");
  c.Describe([&] { return "record of kind " + std::to_string(kind) + " length " + std::to_string(one.size()) + " at offset " + std::to_string(n) + " version " + std::to_string(version); });
  std::string path = c.Tmp("f");
  std::string want; for (auto& r : h) Encode(&want, r, version);
  InFresh(c, [&] {
    absl::SetFlag(&FLAGS_gcov_version, version);
    pbt::WriteFile(path, want);
    ReadAll(path, h, past);
    if (written) { WriteAll(path, h); PBT_CHECK(pbt::ReadFile(path) == want, "file differs from the format"); ReadAll(path, h, past); }
  });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "P03";
  su.rule = "A case is a history of sessions; each writes, decodes, or reads (whole or truncated) a generated list of words, counters and strings in one of five file versions. Non-trivial: some session has two or more records; the boundary sub-property always is.";
  su.assumptions = {"the host is little-endian", "strings read back are shorter than one 16 KiB block, which the reader requires"};
  su.subs = {{"sessions", Sessions, 12000, 400000}, {"boundary", Boundary, 6000, 200000}};
  return pbt::Main(argc, argv, su);
}
