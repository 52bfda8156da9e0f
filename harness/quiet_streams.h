// Messages are not modelled: the streams are empty.
#pragma once
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/cpp_int.hpp>
namespace std {
struct vf_quiet_stream {
  template<typename T>
  vf_quiet_stream& operator<<(T const&) { return *this; }
  string str() const { return {}; }
};
}
#define stringstream vf_quiet_stream
