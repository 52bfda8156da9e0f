#pragma once
namespace absl { namespace log_internal {
template<typename T> char const* LogContainer(T const&) { return ""; }
} }
