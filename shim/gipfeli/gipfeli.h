#pragma once
#include "gipfeli/compression.h"
namespace google { namespace compression { Compressor* NewGipfeliCompressor(); } }
