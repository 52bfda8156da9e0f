#pragma once
#include "absl/time/time.h"
namespace absl {
inline Time Now() { return Time(); }
inline void SleepFor(Duration) {}
}
