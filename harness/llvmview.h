// A profile file as LLVM's own reader sees it.
#ifndef VERIF_LLVMVIEW_H_
#define VERIF_LLVMVIEW_H_
#include <string>

#include "llvm/IR/LLVMContext.h"
#include "llvm/ProfileData/SampleProf.h"
#include "llvm/ProfileData/SampleProfReader.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "profgen.h"

namespace lv {
inline std::string NameOf(const llvm::sampleprof::FunctionId& f) { return f.isStringRef() ? f.stringRef().str() : "#" + std::to_string(f.getHashCode()); }
struct View { pg::Profile p; std::map<std::string, uint64_t> totals; bool is_fs = false, partial = false, has_list = false; std::set<std::string> list; std::string error; };
inline pg::Func Conv(const llvm::sampleprof::FunctionSamples& fs, const std::string& path, std::map<std::string, uint64_t>* totals) {
  pg::Func f; f.head = fs.getHeadSamples(); (*totals)[path] = fs.getTotalSamples();
  for (auto& [l, r] : fs.getBodySamples()) { auto& x = f.lines[(uint64_t)l.LineOffset << 32 | l.Discriminator]; x.count = r.getSamples(); for (auto& [t, n] : r.getCallTargets()) x.targets[NameOf(t)] = n; }
  for (auto& [l, m] : fs.getCallsiteSamples()) for (auto& [id, c] : m) { uint64_t k = (uint64_t)l.LineOffset << 32 | l.Discriminator; f.calls[{k, NameOf(id)}] = Conv(c, path + "/" + std::to_string(l.LineOffset) + "." + std::to_string(l.Discriminator) + ":" + NameOf(id), totals); }
  return f;
}
inline View Read(const std::string& file, bool base_only = false) {
  View v; llvm::LLVMContext C; llvm::sampleprof::FunctionSamples::ProfileIsFS = false;
  auto r = llvm::sampleprof::SampleProfileReader::create(file, C, *llvm::vfs::getRealFileSystem(), base_only ? llvm::sampleprof::FSDiscriminatorPass::Base : llvm::sampleprof::FSDiscriminatorPass::PassLast);
  if (!r) { v.error = "cannot open: " + r.getError().message(); return v; }
  if (std::error_code ec = (*r)->read()) { v.error = "cannot read: " + ec.message(); return v; }
  for (auto& [ctx, fs] : (*r)->getProfiles()) { std::string n = NameOf(fs.getFunction()); v.p[n] = Conv(fs, n, &v.totals); }
  v.is_fs = llvm::sampleprof::FunctionSamples::ProfileIsFS; v.partial = (*r)->getSummary().isPartialProfile();
  if (auto l = (*r)->getProfileSymbolList()) { v.has_list = true; std::string s; llvm::raw_string_ostream o(s); (void)o; llvm::sampleprof::ProfileSymbolList copy; copy.merge(*l); std::string d; llvm::raw_string_ostream os(d); if (l->size()) { copy.write(os); os.flush(); size_t p = 0; while (p < d.size()) { size_t e = d.find('\0', p); if (e == std::string::npos) e = d.size(); v.list.insert(d.substr(p, e - p)); p = e + 1; } } }
  return v;
}
// Totals the model implies, by path.
inline void Totals(const pg::Func& f, const std::string& path, std::map<std::string, uint64_t>* t) { (*t)[path] = f.Total(); for (auto& [k, c] : f.calls) Totals(c, path + "/" + std::to_string(k.first >> 32) + "." + std::to_string((uint32_t)k.first) + ":" + k.second, t); }
inline std::map<std::string, uint64_t> Totals(const pg::Profile& p) { std::map<std::string, uint64_t> t; for (auto& [n, f] : p) Totals(f, n, &t); return t; }
inline std::string DiffTotals(const std::map<std::string, uint64_t>& got, const std::map<std::string, uint64_t>& want) { for (auto& [k, v] : want) { auto it = got.find(k); if (it == got.end()) return k + " is missing"; if (it->second != v) return k + ": total is " + std::to_string(it->second) + ", its lines sum to " + std::to_string(v); } return ""; }
}  // namespace lv
#endif
