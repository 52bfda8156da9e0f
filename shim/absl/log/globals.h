#pragma once
#include "absl/base/log_severity.h"
namespace absl {
inline void SetStderrThreshold(LogSeverityAtLeast) {}
inline void SetStderrThreshold(LogSeverity) {}
inline LogSeverityAtLeast StderrThreshold() { return LogSeverityAtLeast::kInfo; }
inline void SetMinLogLevel(LogSeverityAtLeast) {}
inline LogSeverityAtLeast MinLogLevel() { return LogSeverityAtLeast::kInfo; }
inline int SetGlobalVLogLevel(int n) { return n; }
struct ScopedStderrThreshold { explicit ScopedStderrThreshold(LogSeverityAtLeast) {} };
}
