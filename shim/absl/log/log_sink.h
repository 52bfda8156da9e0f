#pragma once
#include <string_view>
#include "absl/time/time.h"
#include "absl/base/log_severity.h"
namespace absl {
struct LogEntry {
  LogSeverity log_severity() const { return LogSeverity::kInfo; }
  std::string_view text_message_with_prefix_and_newline() const { return ""; }
  std::string_view stacktrace() const { return ""; }
  absl::Time timestamp() const { return absl::Time(); }
  std::string_view text_message_with_prefix() const { return ""; }
};
class LogSink {
 public:
  virtual ~LogSink() = default;
  virtual void Send(LogEntry const& entry) = 0;
  virtual void Flush() {}
};
}
