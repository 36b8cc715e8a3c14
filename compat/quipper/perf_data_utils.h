#pragma once
#include "perf_data.pb.h"
namespace quipper {
enum { PERF_RECORD_MMAP = 1, PERF_RECORD_LOST = 2, PERF_RECORD_COMM = 3, PERF_RECORD_EXIT = 4, PERF_RECORD_THROTTLE = 5, PERF_RECORD_UNTHROTTLE = 6, PERF_RECORD_FORK = 7, PERF_RECORD_READ = 8, PERF_RECORD_SAMPLE = 9, PERF_RECORD_MMAP2 = 10, PERF_RECORD_AUX = 11,
  PERF_RECORD_AUXTRACE_INFO = 70, PERF_RECORD_AUXTRACE = 71, PERF_RECORD_TIME_CONV = 79 };
enum { PERF_BR_SPEC_NA = 0, PERF_BR_SPEC_WRONG_PATH = 1, PERF_BR_NON_SPEC_CORRECT_PATH = 2, PERF_BR_SPEC_CORRECT_PATH = 3 };
inline const PerfDataProto::SampleInfo* GetSampleInfoForEvent(const PerfDataProto::PerfEvent& e) {
  switch (e.event_type_case()) {
    case PerfDataProto::PerfEvent::kMmapEvent: return &e.mmap_event().sample_info();
    case PerfDataProto::PerfEvent::kCommEvent: return &e.comm_event().sample_info();
    case PerfDataProto::PerfEvent::kForkEvent: return &e.fork_event().sample_info();
    case PerfDataProto::PerfEvent::kExitEvent: return &e.exit_event().sample_info();
    default: return nullptr;
  }
}
}
