#pragma once
namespace absl { enum ConstInitType { kConstInit }; }
