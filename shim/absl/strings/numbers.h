#pragma once
#include "absl/strings/vf_strings.h"
