#pragma once
#include <string>
#include "gipfeli/sinksource.h"
namespace google { namespace compression {
class Compressor {
 public:
  virtual ~Compressor() = default;
  virtual std::size_t Compress(std::string const&, std::string*) { return 0; }
  virtual bool Uncompress(std::string const&, std::string*) { return false; }
  virtual std::size_t CompressStream(Source* reader, Sink* writer) = 0;
  virtual bool UncompressStream(Source* reader, Sink* writer) = 0;
  virtual std::size_t MaxCompressedLength(std::size_t n) = 0;
  virtual bool GetUncompressedLength(std::string const&, std::size_t*) { return false; }
  virtual bool GetUncompressedLengthStream(Source*, std::size_t*) { return false; }
};
} }
