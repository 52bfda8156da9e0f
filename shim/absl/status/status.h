// Stand-in for absl/status/status.h.
#pragma once
#include <ostream>
#include <string>
#include <string_view>
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3,
  kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16
};
inline std::string StatusCodeToString(StatusCode) { return "STATUS"; }
inline std::ostream& operator<<(std::ostream& os, StatusCode) { return os; }
class [[nodiscard]] Status {
 public:
  Status() = default;
  Status(StatusCode code, std::string_view msg)
      : code_(code), message_(code == StatusCode::kOk ? std::string_view() : msg) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return static_cast<int>(code_); }
  std::string_view message() const { return message_; }
  std::string ToString() const { return message_; }
  void Update(Status const& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  friend bool operator==(Status const& a, Status const& b) {
    return a.code_ == b.code_ && a.message_ == b.message_;
  }
 private:
  StatusCode code_ = StatusCode::kOk;
  std::string message_;
};
inline std::ostream& operator<<(std::ostream& os, Status const& s) { return os; }
inline Status OkStatus() { return Status(); }
#define VF_E(N) \
  inline Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); } \
  inline bool Is##N(Status const& s) { return s.code() == StatusCode::k##N; }
VF_E(Cancelled) VF_E(Unknown) VF_E(InvalidArgument) VF_E(DeadlineExceeded)
VF_E(NotFound) VF_E(AlreadyExists) VF_E(PermissionDenied) VF_E(ResourceExhausted)
VF_E(FailedPrecondition) VF_E(Aborted) VF_E(OutOfRange) VF_E(Unimplemented)
VF_E(Internal) VF_E(Unavailable) VF_E(DataLoss)
#undef VF_E
}
