// MODE: LLVM
// SOURCES: profile_writer.cc llvm_profile_writer.cc gcov.cc symbol_map.cc source_info.cc sample_reader.cc
// TECHNIQUE: property-based testing with fault injection: every writer against devices that reject the data after a drawn number of bytes
// LEVEL_NOTE: Random search over profiles, writers and fault points; faults are file-size limits, a full device and uncreatable paths. Errors reported only by close() are not injected.
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include "gcov.h"
#include "llvm_profile_writer.h"
#include "profgen.h"
#include "profile_writer.h"
#include "sample_reader.h"
#include "third_party/abseil/absl/flags/flag.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;

namespace {
// What the caller of a writer sees: "true", "false" or death of the process.
// A full stream that is only noticed when the writer is destroyed counts.
std::string Outcome(const std::function<bool()>& f) { bool died = false; std::string r = pbt::InChild([&] { return std::string(f() ? "true" : "false"); }, &died); return died ? "death" : r; }

void Faults(Src& s, Case& c) {
  int kind = s.Weighted({4, 4, 4, 4, 4, 1});  // 0 gcc, 1..3 llvm encodings, 4 text samples, 5 bare coverage records (files of up to several megabytes)
  dca::SymbolMap m; std::function<bool(const std::string&)> write; std::string what;
  dca::RangeCountMap ranges; dca::AddressCountMap addrs; dca::BranchCountMap branches;
  if (kind < 4) {
    pg::Opt o; o.max_funcs = s.Chance(1, 4) ? 60 : 8; o.max_count = 1ull << 50; pg::Profile p = pg::Gen(s, o); pg::Build(p, &m);
    if (kind == 0) { uint32_t v = s.OneOf<uint32_t>({1, 2, 3}); what = "gcc version " + std::to_string(v); absl::SetFlag(&FLAGS_gcov_version, v); write = [&m, v](const std::string& path) { dca::AutoFDOProfileWriter w(&m, v); return w.WriteToFile(path); }; }
    else { auto f = kind == 1 ? llvm::sampleprof::SPF_Text : kind == 2 ? llvm::sampleprof::SPF_Binary : llvm::sampleprof::SPF_Ext_Binary; what = kind == 1 ? "llvm text" : kind == 2 ? "llvm binary" : "llvm extbinary"; write = [&m, f](const std::string& path) { dca::LLVMProfileWriter w(f); w.setSymbolMap(&m); return w.WriteToFile(path); }; }
  } else if (kind == 5) {
    what = "coverage records"; size_t n = s.Chance(1, 3) ? s.Range(0, 400000) : s.Range(0, 3000); uint64_t x = s.Draw(1 << 20); absl::SetFlag(&FLAGS_gcov_version, 2);
    write = [n, x](const std::string& path) { uint64_t y = x; if (!gcov_open(path.c_str(), -1)) return false; for (size_t i = 0; i < n; ++i) gcov_write_counter(pbt::SplitMix(y)); return gcov_close() == 0; };
  } else {
    what = "text samples"; size_t n = s.Chance(1, 3) ? s.Range(0, 2000) : s.Range(0, 20); uint64_t x = s.Draw(1 << 20);
    for (size_t i = 0; i < n; ++i) { uint64_t a = pbt::SplitMix(x) >> 20, b = pbt::SplitMix(x) >> 20, k = pbt::SplitMix(x) >> 40; if (i % 3 == 0) ranges[{a, b}] = k; else if (i % 3 == 1) addrs[a] = k; else branches[{a, b}] = k; }
    write = [&](const std::string& path) { struct R : dca::SampleReader { bool Read() override { return true; } void Set(const dca::RangeCountMap& r, const dca::AddressCountMap& a, const dca::BranchCountMap& b) { range_count_map_ = r; address_count_map_ = a; branch_count_map_ = b; } } r; r.Set(ranges, addrs, branches); dca::TextSampleReaderWriter w(path); w.Merge(r); return w.Write(nullptr); };
  }
  std::string ref_path = c.Tmp("ref"); PBT_EQ(Outcome([&] { return write(ref_path); }), std::string("true"), "writing " << what << " to an ordinary file");
  std::string ref = pbt::ReadFile(ref_path);
  int fault = s.Weighted({6, 2, 1, 1, 1}); std::string path = c.Tmp("out"); uint64_t cut = 0; bool stale = s.Chance(1, 3);
  if (fault == 0) { switch (s.Weighted({4, 2, 1})) { case 0: cut = s.Draw(ref.size() + 4); break; case 1: cut = ref.size() - std::min<uint64_t>(ref.size(), 1 + s.Draw(3)); break; default: { static const uint64_t e[] = {0, 1, 4, 12, 512, 1024, 4096, 8192, 16384, 65536}; cut = e[s.Draw(9)]; } } }
  if (fault == 0 && stale) pbt::WriteFile(path, std::string(ref.size() > cut ? std::min<size_t>(cut, ref.size()) : ref.size(), 'x'));
  if (fault == 1) path = "/dev/full"; if (fault == 2) path = c.Tmp("missing") + "/x"; if (fault == 3) { path = c.Tmp("dir"); mkdir(path.c_str(), 0755); } if (fault == 4) path = c.Tmp(std::string(300, 'n'));
  static const char* fn[] = {"size limit", "full device", "missing directory", "path is a directory", "name too long"};
  c.Label(what); c.Label(fn[fault]); c.NonTrivial(fault != 0 || cut < ref.size());
  c.Describe([&] { return what + ", " + fn[fault] + " " + std::to_string(cut) + " of " + std::to_string(ref.size()) + " bytes"; });
  std::string got = Outcome([&] {
    if (fault == 0) { signal(SIGXFSZ, SIG_IGN); rlimit rl{cut, cut}; if (setrlimit(RLIMIT_FSIZE, &rl)) _exit(99); }
    return write(path); });
  c.Label("outcome " + got);
  if (fault == 0) {
    std::string on_disk = access(path.c_str(), F_OK) == 0 ? pbt::ReadFile(path) : "";
    if (got == "true") PBT_CHECK(on_disk == ref, what << ": success was reported but " << on_disk.size() << " of " << ref.size() << " bytes are on disk (limit " << cut << ")");
    if (cut >= ref.size()) PBT_EQ(got, std::string("true"), what << ": the file fits");
  } else if (fault == 1) { if (!ref.empty()) PBT_CHECK(got != "true", what << ": success was reported on a full device"); }
  else PBT_CHECK(got != "true", what << ": success was reported for a file that cannot be created (" << fn[fault] << ")");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P04";
  su.rule = "A case is a generated profile or sample set, one of the writers (GCC versions 1-3, LLVM text, binary and extensible binary, text samples, bare coverage records of up to 3 MB) and a fault (file-size limit at a drawn byte, full device, path that cannot be created); each write runs in a child process. Non-trivial: the fault bites.";
  su.assumptions = {"a process that aborts while writing or while closing the writer has reported failure", "the RLIMIT_FSIZE limit stands in for a device that runs full"};
  su.subs = {{"faults", Faults, 6000, 150000}};
  return pbt::Main(argc, argv, su);
}
