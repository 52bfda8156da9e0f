#pragma once
#include <array>
namespace absl {
enum class LogSeverity : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
enum class LogSeverityAtLeast : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3, kInfinity = 1000 };
enum class LogSeverityAtMost : int { kNegativeInfinity = -1000, kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
constexpr std::array<LogSeverity, 4> LogSeverities() {
  return {{LogSeverity::kInfo, LogSeverity::kWarning, LogSeverity::kError, LogSeverity::kFatal}};
}
constexpr char const* LogSeverityName(LogSeverity) { return "SEVERITY"; }
}
