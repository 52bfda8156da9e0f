#pragma once
#include "absl/container/vf_containers.h"
