// MODE: LLVM
// SOURCES: branch_aggregation.cc lbr_branch_aggregator.cc frequencies_branch_aggregator.cc llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_content.cc addr2cu.cc llvm_propeller_cfg.cc llvm_propeller_statistics.cc pb:options pb:cfg
// TECHNIQUE: property-based testing: generated counter maps against 128-bit sums and sets; model-based request histories over counting stand-in sources
// LEVEL_NOTE: Random search. Histories have up to 12 requests and moves; sums stay within 64 bits.
#include "branch_aggregation.h"
#include "branch_frequencies.h"
#include "frequencies_branch_aggregator.h"
#include "lazy_evaluator.h"
#include "lbr_aggregation.h"
#include "lbr_aggregator.h"
#include "lbr_branch_aggregator.h"
#include "pbt.h"
using pbt::Case; using pbt::Src;
using namespace devtools_crosstool_autofdo;

namespace {
using Pairs = std::map<std::pair<uint64_t, uint64_t>, int64_t>;
struct Counters { Pairs br, ft; std::map<uint64_t, int64_t> nt; __int128 total = 0; };
uint64_t Addr(Src& s, std::vector<uint64_t>& pool) { if (pool.size() && s.Chance(1, 2)) return s.Pick(pool); uint64_t a = s.Chance(1, 10) ? kInvalidBinaryAddress : s.U64(); pool.push_back(a); return a; }
int64_t Count(Src& s) { return (int64_t)(s.Chance(1, 2) ? s.U64(1ull << 56) : s.U64(1ull << 34)); }
Counters Gen(Src& s, size_t max = 30) {
  Counters k; std::vector<uint64_t> pool; size_t n = 0;
  while (s.More(n, 0, max, 5)) { ++n; uint64_t a = Addr(s, pool), b = Addr(s, pool); int64_t v = Count(s); switch (s.Weighted({3, 2, 1})) { case 0: k.br[{a, b}] = v; break; case 1: k.ft[{a, b}] = v; break; default: k.nt[a] = v; } }
  for (auto& b : k.br) k.total += b.second; return k;
}
std::string Show(const Counters& k) { std::string r; char t[100]; for (auto& b : k.br) { snprintf(t, sizeof t, "branch %llx->%llx %lld\n", (unsigned long long)b.first.first, (unsigned long long)b.first.second, (long long)b.second); r += t; } for (auto& b : k.ft) { snprintf(t, sizeof t, "fallthrough %llx->%llx %lld\n", (unsigned long long)b.first.first, (unsigned long long)b.first.second, (long long)b.second); r += t; } for (auto& b : k.nt) { snprintf(t, sizeof t, "not taken %llx %lld\n", (unsigned long long)b.first, (long long)b.second); r += t; } return r; }
std::set<uint64_t> Ends(const Counters& k, bool ft, bool nt) { std::set<uint64_t> r; for (auto& b : k.br) { r.insert(b.first.first); r.insert(b.first.second); } if (ft) for (auto& b : k.ft) { r.insert(b.first.first); r.insert(b.first.second); } if (nt) for (auto& b : k.nt) r.insert(b.first); return r; }
template <class M> std::set<uint64_t> Set(const M& m) { return {m.begin(), m.end()}; }
template <class M> Pairs Map(const M& m) { Pairs r; for (auto& x : m) r[{x.first.from, x.first.to}] = x.second; return r; }
template <class A> A Fill(const Counters& k) { A a; for (auto& b : k.br) a.branch_counters[{b.first.first, b.first.second}] = b.second; for (auto& b : k.ft) a.fallthrough_counters[{b.first.first, b.first.second}] = b.second; return a; }
BranchFrequencies Freq(const Counters& k) { BranchFrequencies f; for (auto& b : k.br) f.taken_branch_counters[{b.first.first, b.first.second}] = b.second; for (auto& b : k.nt) f.not_taken_branch_counters[{b.first}] = b.second; return f; }

void Totals(Src& s, Case& c) {
  auto k = Gen(s); c.Describe([&] { return Show(k); }); int64_t want = (int64_t)k.total; c.NonTrivial(k.br.size() > 1); c.LabelIf(want > 0x7fffffff, "total over 31 bits"); c.LabelIf(want > 0xffffffffll, "total over 32 bits");
  auto b = Fill<BranchAggregation>(k); PBT_EQ(b.GetNumberOfBranchCounters(), want, "branch aggregation total"); PBT_EQ(Set(b.GetUniqueAddresses()), Ends(k, true, false), "unique addresses"); PBT_EQ(Map(b.branch_counters), k.br, "counters changed");
  PBT_EQ(Fill<LbrAggregation>(k).GetNumberOfBranchCounters(), want, "record aggregation total"); PBT_EQ(Freq(k).GetNumberOfTakenBranchCounters(), want, "frequencies total");
}

struct Log { int reads = 0; std::string options; const BinaryContent* content = nullptr; bool alive = true; };
struct FakeLbr : LbrAggregator { Log* log; absl::StatusOr<LbrAggregation> r; PropellerStats st; ~FakeLbr() override { log->alive = false; } absl::StatusOr<LbrAggregation> AggregateLbrData(const PropellerOptions& o, const BinaryContent& b, PropellerStats& t) override { ++log->reads; log->options = o.binary_name(); log->content = &b; t += st; return r; } };
struct FakeFreq : BranchFrequenciesAggregator { Log* log; absl::StatusOr<BranchFrequencies> r; PropellerStats st; ~FakeFreq() override { log->alive = false; } absl::StatusOr<BranchFrequencies> AggregateBranchFrequencies(const PropellerOptions& o, const BinaryContent& b, PropellerStats& t) override { ++log->reads; log->options = o.binary_name(); log->content = &b; t += st; return r; } };

void Histories(Src& s, Case& c) {
  auto k = Gen(s, 12); bool lbr = s.Bool(), direct = s.Chance(1, 3), error = !direct && s.Chance(1, 4); Log log; BinaryContent content; std::string text = Show(k) + (lbr ? "records " : "frequencies ") + (direct ? "direct " : "lazy ") + (error ? "error " : "") + "requests:";
  PropellerStats add; add.profile_stats.br_counters_accumulated = s.U64(1u << 30); add.profile_stats.perf_file_parsed = s.Draw(9); add.disassembly_stats.may_affect_control_flow.weighted = s.Draw(1000); add.cfg_stats.edges_created_by_kind[CFGEdge::Kind::kCall] = s.Draw(5);
  PropellerOptions opt; opt.set_binary_name(s.Text("abc", 0, 5, 2)); absl::Status bad = s.OneOf<absl::Status>({absl::InternalError("lost"), absl::NotFoundError("none"), absl::FailedPreconditionError("x")});
  std::unique_ptr<BranchAggregator> a; LbrBranchAggregator* la = nullptr; FrequenciesBranchAggregator* fa = nullptr;
  auto Keep = [&](auto* p) { a.reset(p); return p; };
  if (lbr) { if (direct) la = Keep(new LbrBranchAggregator(Fill<LbrAggregation>(k), add)); else { auto f = std::make_unique<FakeLbr>(); f->log = &log; if (error) f->r = bad; else f->r = Fill<LbrAggregation>(k); f->st = add; la = Keep(new LbrBranchAggregator(std::move(f), opt, content)); } }
  else { if (direct) fa = Keep(new FrequenciesBranchAggregator(Freq(k), add)); else { auto f = std::make_unique<FakeFreq>(); f->log = &log; if (error) f->r = bad; else f->r = Freq(k); f->st = add; fa = Keep(new FrequenciesBranchAggregator(std::move(f), opt, content)); } }
  BinaryAddressMapper mapper({}, {}, {}, {}); PropellerStats got; int requests = 0, aggregates = 0, n = 0;
  while (s.More(n, 0, 12, 4)) {
    ++n; int op = s.Weighted({3, 3, 1}); text += op == 0 ? " addresses" : op == 1 ? " aggregate" : " move";
    if (op == 2) { if (la) { auto* m = new LbrBranchAggregator(std::move(*la)); a.reset(m); la = m; } else { auto* m = new FrequenciesBranchAggregator(std::move(*fa)); a.reset(m); fa = m; } }
    else if (op == 0) { ++requests; auto r = a->GetBranchEndpointAddresses(); if (error) PBT_CHECK(r.status() == bad, r.status()); else { PBT_CHECK(r.ok(), r.status()); PBT_EQ(Set(*r), Ends(k, lbr, !lbr), "endpoint addresses, request " << n); } }
    else { ++requests; auto r = a->Aggregate(mapper, got); if (error) PBT_CHECK(r.status() == bad, r.status()); else { ++aggregates; PBT_CHECK(r.ok(), r.status()); PBT_EQ(Map(r->branch_counters), k.br, "branches, request " << n); PBT_EQ(Map(r->fallthrough_counters), lbr ? k.ft : Pairs{}, "fall-throughs, request " << n); PBT_EQ(r->GetNumberOfBranchCounters(), (int64_t)k.total, "total, request " << n); } }
    PBT_EQ(log.reads, direct || !requests ? 0 : 1, "reads of the underlying data after request " << n);
    if (!error) { PBT_EQ(got.profile_stats.br_counters_accumulated, add.profile_stats.br_counters_accumulated * aggregates, "statistics"); PBT_EQ(got.profile_stats.perf_file_parsed, add.profile_stats.perf_file_parsed * aggregates, "statistics"); PBT_EQ(got.disassembly_stats.may_affect_control_flow.weighted, add.disassembly_stats.may_affect_control_flow.weighted * aggregates, "statistics"); PBT_EQ(got.cfg_stats.edges_created_by_kind[CFGEdge::Kind::kCall], add.cfg_stats.edges_created_by_kind[CFGEdge::Kind::kCall] * aggregates, "statistics"); }
  }
  if (log.reads) { PBT_EQ(log.options, opt.binary_name(), "options handed to the source"); PBT_CHECK(log.content == &content, "another binary"); }
  c.Describe([&] { return text; }); c.NonTrivial(requests > 1 && !k.br.empty()); c.Label(lbr ? "records" : "frequencies"); c.Label(direct ? "direct" : error ? "failing source" : "lazy source");
}
struct Only { std::unique_ptr<int> p; };
void Lazy(Src& s, Case& c) {
  int calls = 0; uint64_t x = s.U64(); std::string y = s.Text("ab", 0, 40, 10); bool direct = s.Chance(1, 4), same = s.Bool(); std::string want = std::to_string(x) + y; int n = 0; const void* at = nullptr; std::string text = direct ? "direct:" : "lazy:";
  auto Run = [&](auto& make) {
    auto e = make(); bool evaluated = direct;
    while (s.More(n, 0, 10, 4)) { ++n; if (s.Chance(1, 4)) { text += " move"; auto f = std::move(e); e = std::move(f); at = nullptr; } else { text += " evaluate"; const auto& r = e.Evaluate(); evaluated = true; PBT_EQ(std::string(r.s), want, "result"); if (at) PBT_CHECK(at == &r, "result moved"); at = &r; } PBT_EQ(calls, direct || !evaluated ? 0 : 1, "evaluations after request " << n); }
  };
  struct Out { std::string s; std::unique_ptr<int> only; };
  if (!same) { auto make = [&] { if (direct) return LazyEvaluator<Out(uint64_t, Only, std::string)>(Out{want, nullptr}); return LazyEvaluator<Out(uint64_t, Only, std::string)>([&](uint64_t a, Only o, std::string b) { ++calls; PBT_CHECK(o.p && *o.p == 7, "input lost"); return Out{std::to_string(a) + b, std::move(o.p)}; }, x, Only{std::make_unique<int>(7)}, y); }; Run(make); }
  else { struct O2 { std::string s; int n; }; auto make = [&] { if (direct) return LazyEvaluator<O2()>(O2{want, 1}); return LazyEvaluator<O2()>([&] { ++calls; return O2{want, 2}; }); }; Run(make); }
  c.Describe([&] { return text; }); c.NonTrivial(n > 1 && !direct); c.Label(same ? "no input" : "several inputs");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite t; t.property = "P32"; t.scale = 5; t.rule = "several branches are counted, or the result is requested several times";
  t.subs = {{"totals and addresses", Totals, 300000, 6000000}, {"request histories", Histories, 200000, 4000000}, {"lazy evaluation", Lazy, 150000, 3000000}};
  return pbt::Main(argc, argv, t);
}
