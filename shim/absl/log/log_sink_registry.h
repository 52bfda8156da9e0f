#pragma once
#include "absl/log/log_sink.h"
namespace absl {
inline void AddLogSink(LogSink*) {}
inline void RemoveLogSink(LogSink*) {}
inline void FlushLogSinks() {}
}
