#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "quipper/perf_reader.h"
namespace quipper {
struct DSOInfo { std::string name; std::string build_id; bool hit = false; };
struct ParsedEvent {
  ParsedEvent() : command_(nullptr) {}
  PerfDataProto_PerfEvent* event_ptr = nullptr;
  struct DSOAndOffset {
    const DSOInfo* dso_info_ = nullptr; uint64_t offset_ = 0;
    const std::string dso_name() const { return dso_info_ ? dso_info_->name : std::string(); }
    const std::string build_id() const { return dso_info_ ? dso_info_->build_id : std::string(); }
    uint64_t offset() const { return offset_; }
  } dso_and_offset;
  struct BranchEntry { bool predicted = false; DSOAndOffset from, to; uint32_t spec = 0; };
  std::vector<BranchEntry> branch_stack;
  const std::string* command_;
};
class PerfParser {
 public:
  explicit PerfParser(PerfReader* r) : r_(r) {}
  bool ParseRawEvents() {
    out_.clear();
    for (auto& e : *r_->mutable_events()) {
      ParsedEvent p; p.event_ptr = &e;
      if (e.has_mmap_event()) { maps_[e.mmap_event().pid()].push_back(e.mmap_event()); }
      if (e.has_sample_event()) {
        const auto& s = e.sample_event(); Map(s.pid(), s.ip(), &p.dso_and_offset);
        for (auto& b : s.branch_stack()) { ParsedEvent::BranchEntry be; Map(s.pid(), b.from_ip(), &be.from); Map(s.pid(), b.to_ip(), &be.to); be.predicted = b.predicted(); be.spec = b.spec(); p.branch_stack.push_back(be); }
      }
      out_.push_back(std::move(p));
    }
    return true;
  }
  const std::vector<ParsedEvent>& parsed_events() const { return out_; }
 private:
  // Latest mapping of the process (then of the kernel, pid -1) that covers ip.
  bool Map(uint32_t pid, uint64_t ip, ParsedEvent::DSOAndOffset* o) {
    for (uint32_t q : {pid, (uint32_t)-1}) {
      auto it = maps_.find(q); if (it == maps_.end()) continue;
      for (size_t i = it->second.size(); i-- > 0;) { const auto& m = it->second[i]; if (ip - m.start() < m.len()) { auto& d = dsos_[m.filename()]; if (!d) { d.reset(Take()); d->name = m.filename(); } o->dso_info_ = d.get(); o->offset_ = ip - m.start() + m.pgoff(); return true; } }
    }
    return false;
  }
  // DSO records come from a pool whose freed entries are handed out again, as a general allocator may do (also under address sanitizer).
  struct Back { void operator()(DSOInfo* d) const { *d = DSOInfo(); Pool().push_back(d); } };
  static std::vector<DSOInfo*>& Pool() { static auto* p = new std::vector<DSOInfo*>; return *p; }
  static DSOInfo* Take() { auto& p = Pool(); if (p.empty()) return new DSOInfo; DSOInfo* d = p.back(); p.pop_back(); return d; }
  PerfReader* r_; std::vector<ParsedEvent> out_; std::map<uint32_t, std::vector<PerfDataProto_MMapEvent>> maps_; std::map<std::string, std::unique_ptr<DSOInfo, Back>> dsos_;
};
}
