// Stand-in for zfp: a lossless codec that stores the values verbatim.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
typedef unsigned int uint;
#define ZFP_HEADER_MAGIC 1u
#define ZFP_HEADER_META 2u
#define ZFP_HEADER_MODE 4u
#define ZFP_HEADER_FULL 7u
#define ZFP_CODEC 5
#define ZFP_VERSION 0x0055
enum zfp_type { zfp_type_none = 0, zfp_type_int32, zfp_type_int64, zfp_type_float, zfp_type_double };
struct bitstream { char* p; std::size_t n; std::size_t pos; };
struct zfp_field { double* data; zfp_type type; std::size_t n; };
struct zfp_stream { bitstream* s = nullptr; double accuracy = 0; };
// If not null, the error on a value, given the accuracy.
inline double (*vf_zfp_error)(double accuracy) = nullptr;
inline zfp_stream* zfp_stream_open(bitstream* s) { return new zfp_stream{s, 0}; }
inline void zfp_stream_close(zfp_stream* z) { delete z; }
inline void zfp_stream_set_reversible(zfp_stream* z) { z->accuracy = 0; }
inline double zfp_stream_set_accuracy(zfp_stream* z, double a) { z->accuracy = a; return a; }
inline std::size_t zfp_stream_maximum_size(zfp_stream const*, zfp_field const* f) { return 16 + 8 * f->n; }
inline bitstream* stream_open(void* p, std::size_t n) { return new bitstream{static_cast<char*>(p), n, 0}; }
inline void stream_close(bitstream* s) { delete s; }
inline void* stream_data(bitstream const* s) { return s->p; }
inline std::size_t stream_size(bitstream const* s) { return s->pos; }
inline void zfp_stream_set_bit_stream(zfp_stream* z, bitstream* s) { z->s = s; }
inline std::size_t zfp_write_header(zfp_stream* z, zfp_field const*, uint) {
  std::memcpy(z->s->p + z->s->pos, "zfp", 4);
  z->s->pos += 4;
  return 32;
}
inline std::size_t zfp_read_header(zfp_stream* z, zfp_field*, uint) {
  if (z->s->n < 4 || std::memcmp(z->s->p, "zfp", 4) != 0) return 0;
  z->s->pos += 4;
  return 32;
}
inline std::size_t zfp_compress(zfp_stream* z, zfp_field const* f) {
  char* const p = z->s->p + z->s->pos;
  std::memcpy(p, f->data, 8 * f->n);
  if (vf_zfp_error != nullptr && z->accuracy != 0)
    for (std::size_t i = 0; i < f->n; ++i) {
      double d = f->data[i] + vf_zfp_error(z->accuracy);
      std::memcpy(p + 8 * i, &d, 8);
    }
  z->s->pos += 8 * f->n;
  return z->s->pos;
}
inline std::size_t zfp_decompress(zfp_stream* z, zfp_field* f) {
  if (z->s->n < z->s->pos + 8 * f->n) return 0;
  std::memcpy(f->data, z->s->p + z->s->pos, 8 * f->n);
  z->s->pos += 8 * f->n;
  return z->s->pos;
}
inline zfp_field* zfp_field_1d(void* p, zfp_type t, std::size_t a) { return new zfp_field{static_cast<double*>(p), t, a}; }
inline zfp_field* zfp_field_2d(void* p, zfp_type t, std::size_t a, std::size_t b) { return new zfp_field{static_cast<double*>(p), t, a * b}; }
inline zfp_field* zfp_field_3d(void* p, zfp_type t, std::size_t a, std::size_t b, std::size_t c) { return new zfp_field{static_cast<double*>(p), t, a * b * c}; }
inline zfp_field* zfp_field_4d(void* p, zfp_type t, std::size_t a, std::size_t b, std::size_t c, std::size_t d) { return new zfp_field{static_cast<double*>(p), t, a * b * c * d}; }
inline void zfp_field_free(zfp_field* f) { delete f; }
