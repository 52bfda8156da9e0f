// Compression of arrays with zfp: framing and padding.
//@ entry arrays mode=real max-seconds=100
//@ src base/zfp_compressor.cpp
//@ bound Three arrays of 0 to 9, 0 to 5 and 1 element, of any doubles, in the same string, in one to four dimensions, reversible or lossy.
//@ assume zfp is replaced with a stand-in which stores the values, with an arbitrary error within the accuracy that it is given if it is not zero.
#include "vf.h"
#include "base/zfp_compressor.hpp"
#include <string>
#include <vector>
using namespace principia::base::_zfp_compressor;

static double error(double const accuracy) { return accuracy * vf_real("error", -1, 1); }

template<int D>
static void arrays() {
  double const accuracy = vf_choose(2, "lossy") == 1 ? vf_real("accuracy", 1e-3, 10) : 0;
  vf_zfp_error = &error;
  int const sizes[3] = {(int)vf_choose(10, "size"), (int)vf_choose(6, "size"), 1};
  std::vector<double> values[3];
  std::string compressed;
  compressed.reserve(4096);
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < sizes[i]; ++j) values[i].push_back(vf_real("value", -100, 100));
    std::vector<double> copy = values[i];
    // The second array is always exact.
    ZfpCompressor const compressor(i == 1 ? 0 : accuracy);
    compressor.WriteToMessageMultidimensional<D>(copy, &compressed);
  }
  compressed += "suffix";
  std::string_view view = compressed;
  for (int i = 0; i < 3; ++i) {
    std::vector<double> read(sizes[i]);
    ZfpCompressor().ReadFromMessageMultidimensional<D>(read, view);
    vf_check((int)read.size() >= sizes[i], "size");
    for (int j = 0; j < sizes[i]; ++j) {
      double const a = i == 1 ? 0 : accuracy;
      vf_check(read[j] - values[i][j] <= a && read[j] - values[i][j] >= -a, "values");
    }
  }
  vf_check(view == "suffix", "rest of the message");
}

VF_HARNESS(arrays) {
  switch (vf_choose(4, "dimension")) {
    case 0: return arrays<1>();
    case 1: return arrays<2>();
    case 2: return arrays<3>();
    default: return arrays<4>();
  }
}
