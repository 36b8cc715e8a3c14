#pragma once
// Stand-in for quipper's PerfReader: a "perf file" is the magic below followed
// by a serialized quipper.PerfDataProto.
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include "quipper/perf_data_utils.h"
namespace quipper {
inline constexpr char kStandInMagic[] = "PERFPROTO1";
inline std::string EncodeStandInPerf(const PerfDataProto& p) { return std::string(kStandInMagic) + p.SerializeAsString(); }
class PerfReader {
 public:
  bool ReadFile(const std::string& name) {
    FILE* f = fopen(name.c_str(), "rb"); if (!f) return false;
    std::string d; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n); fclose(f);
    return ReadFromPointer(d.data(), d.size());
  }
  bool ReadFromString(const std::string& s) { return ReadFromPointer(s.data(), s.size()); }
  bool ReadFromPointer(const char* p, size_t n) {
    const size_t m = sizeof(kStandInMagic) - 1; if (n < m || std::string(p, m) != kStandInMagic) return false;
    PerfDataProto all; if (!all.ParseFromArray(p + m, (int)(n - m))) return false;
    proto_.Clear(); *proto_.mutable_build_ids() = all.build_ids();
    for (auto& e : *all.mutable_events()) {
      if (e.has_sample_event() && callback_) callback_(e.sample_event());
      if (skip_.count(e.header().type()) || (e.header().type() == PERF_RECORD_MMAP2 && skip_.count(PERF_RECORD_MMAP))) continue;
      *proto_.add_events() = e;
    }
    return true;
  }
  const google::protobuf::RepeatedPtrField<PerfDataProto_PerfEvent>& events() const { return proto_.events(); }
  google::protobuf::RepeatedPtrField<PerfDataProto_PerfEvent>* mutable_events() { return proto_.mutable_events(); }
  const google::protobuf::RepeatedPtrField<PerfDataProto_PerfBuildID>& build_ids() const { return proto_.build_ids(); }
  const PerfDataProto& proto() const { return proto_; }
  void SetEventTypesToSkipWhenSerializing(const std::unordered_set<uint32_t>& t) { skip_ = t; }
  template <class F> void SetSampleCallback(F f) { callback_ = f; }
  void GetFilenamesAsSet(std::set<std::string>* s) const { s->clear(); for (auto& e : proto_.events()) if (e.has_mmap_event()) s->insert(e.mmap_event().filename()); }
  void GetFilenamesToBuildIDs(std::map<std::string, std::string>* m) const {
    m->clear(); static const char* h = "0123456789abcdef";
    for (auto& b : proto_.build_ids()) { std::string x; for (unsigned char c : b.build_id_hash()) { x += h[c >> 4]; x += h[c & 15]; } (*m)[b.filename()] = x; }
  }
 private:
  PerfDataProto proto_; std::unordered_set<uint32_t> skip_; std::function<void(const PerfDataProto::SampleEvent&)> callback_;
};
}
