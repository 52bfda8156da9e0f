#pragma once
#include "absl/log/check.h"
#define ABSL_DIE_IF_NULL(x) ::vf_log::CheckNotNull((x), #x, __FILE__, __LINE__)
