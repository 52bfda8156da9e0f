#pragma once
#include "google/protobuf/vf_protobuf.h"
