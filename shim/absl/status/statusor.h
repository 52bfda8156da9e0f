#pragma once
#include <optional>
#include <utility>
#include "absl/log/check.h"
#include "absl/status/status.h"
namespace absl {
template<typename T>
class [[nodiscard]] StatusOr {
  template<typename U> friend class StatusOr;
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(Status const& s) : status_(s) { CHECK(!s.ok()); }
  template<typename U = T>
    requires(!std::is_same_v<std::remove_cvref_t<U>, StatusOr> &&
             !std::is_same_v<std::remove_cvref_t<U>, Status> &&
             std::is_constructible_v<T, U&&>)
  explicit(!std::is_convertible_v<U&&, T>) StatusOr(U&& u) : value_(std::forward<U>(u)) {}
  template<typename U>
    requires(!std::is_same_v<U, T> && std::is_constructible_v<T, U const&>)
  StatusOr(StatusOr<U> const& o) : status_(o.status_) { if (o.value_) value_.emplace(*o.value_); }
  template<typename U>
    requires(!std::is_same_v<U, T> && std::is_constructible_v<T, U&&>)
  StatusOr(StatusOr<U>&& o) : status_(o.status_) { if (o.value_) value_.emplace(std::move(*o.value_)); }
  StatusOr(StatusOr const&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(StatusOr const&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  bool ok() const { return status_.ok(); }
  Status const& status() const { return status_; }
  T& value() & { CHECK(ok()); return *value_; }
  T const& value() const& { CHECK(ok()); return *value_; }
  T&& value() && { CHECK(ok()); return std::move(*value_); }
  T& operator*() & { CHECK(ok()); return *value_; }
  T const& operator*() const& { CHECK(ok()); return *value_; }
  T&& operator*() && { CHECK(ok()); return std::move(*value_); }
  T* operator->() { CHECK(ok()); return &*value_; }
  T const* operator->() const { CHECK(ok()); return &*value_; }
  void IgnoreError() const {}
 private:
  Status status_;
  std::optional<T> value_;
};
}
