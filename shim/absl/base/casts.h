#pragma once
#include <bit>
namespace absl { using std::bit_cast; }
