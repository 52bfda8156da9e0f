// Base 32768 and base 64 encodings against reference encoders.
//@ entry base32768_encode max-seconds=150
//@ entry base32768_roundtrip max-seconds=150
//@ entry base32768_into_buffer
//@ entry base64_roundtrip
//@ bound Messages of 0, 1, 2, 3, 4, 7 and 12 to 17 bytes (base 32768; the encoding repeats after 15 bytes), the last pair of bytes and another one arbitrary for the alphabet and every byte arbitrary for the round trip of messages of at most 4 bytes; base 64: every message of at most 5 bytes.
//@ assume absl's base64 escaping functions are replaced by a reference implementation of RFC 4648.
#include "base/base32768.hpp"
#include "base/base64.hpp"
#include "base32768_table.h"
#include "vf.h"

using namespace principia::base::_array;
using namespace principia::base::_base32768;
using namespace principia::base::_base64;

// The bit string of the message.
static int Bit(std::uint8_t const* p, int n, int i) { return i < 8 * n ? (p[i / 8] >> (7 - i % 8)) & 1 : 1; }

static unsigned Bits(std::uint8_t const* p, int n, int from, int count) {
  unsigned r = 0;
  for (int i = 0; i < count; ++i) r = r << 1 | Bit(p, n, from + i);
  return r;
}

static int CodePoints(int n) { return (8 * n + 14) / 15; }

// The expected code point number i.
static char16_t Expected(std::uint8_t const* p, int n, int i) {
  int const left = 8 * n - 15 * i;
  static constexpr unsigned short seven[] = {0x0180, 0x0240, 0x0260, 0x0280};
  if (left <= 7) {
    unsigned const k = Bits(p, n, 15 * i, 7);
    return seven[k >> 5] + (k & 31);
  }
  unsigned const k = Bits(p, n, 15 * i, 15);
  return kBlocks[k >> 5] + (k & 31);
}

template<bool nt>
static void CheckEncode(int n) {
  std::uint8_t in[18];
  // The last pair, or another one.
  int const where = n > 2 ? (vf_choose(2, "where") == 0 ? n - 2 : (5 * n) % (n - 1)) : 0;
  for (int i = 0; i < n; ++i)
    in[i] = i == where || i == where + 1 ? vf::u8("byte") : static_cast<std::uint8_t>(37 * i + 11);
  Base32768Encoder<nt> e;
  Array<std::uint8_t const> const input(in, n);
  auto const text = e.Encode(input);
  vf_check(text.size == CodePoints(n) + nt && e.EncodedLength(input) == text.size, "length");
  for (int i = 0; i < CodePoints(n); ++i) {
    vf_check(text.data[i] == Expected(in, n, i), "code point");
    vf_observe("c", text.data[i]);
  }
  if (nt) vf_check(text.data[CodePoints(n)] == 0, "terminator");
  Array<char16_t const> const back(text.data.get(), CodePoints(n));
  auto const bytes = e.Decode(back);
  vf_check(bytes.size == n && e.DecodedLength(back) == n, "decoded length");
  for (int i = 0; i < n; ++i) vf_check(bytes.data[i] == in[i], "decoded byte");
}
VF_HARNESS(base32768_encode) {
  static constexpr int sizes[] = {0, 1, 2, 3, 4, 7, 12, 13, 14, 15, 16, 17};
  int const n = sizes[vf_choose(12, "n")];
  if (n % 2) CheckEncode<true>(n); else CheckEncode<false>(n);
}

VF_HARNESS(base32768_roundtrip) {
  int const n = vf_choose(5, "n");
  std::uint8_t in[5];
  for (int i = 0; i < n; ++i) in[i] = vf::u8("byte");
  Base32768Encoder<false> e;
  auto const text = e.Encode(Array<std::uint8_t const>(in, n));
  auto const bytes = e.Decode(Array<char16_t const>(text.data.get(), text.size));
  vf_check(bytes.size == n, "size");
  for (int i = 0; i < n; ++i) vf_check(bytes.data[i] == in[i], "byte");
}

VF_HARNESS(base32768_into_buffer) {
  // Encoding and decoding into caller-supplied storage touch nothing else.
  int const n = vf_choose(17, "n");
  std::uint8_t in[17];
  for (int i = 0; i < n; ++i) in[i] = static_cast<std::uint8_t>(91 * i + 5);
  if (n > 0) in[n - 1] = vf::u8("last");
  char16_t out[14];
  for (auto& c : out) c = 0x7E7E;
  Base32768Encoder<false> e;
  e.Encode(Array<std::uint8_t const>(in, n), Array<char16_t>(out + 1, 12));
  vf_check(out[0] == 0x7E7E, "before");
  for (int i = 1 + CodePoints(n); i < 14; ++i) vf_check(out[i] == 0x7E7E, "after");
  std::uint8_t back[24];
  for (auto& c : back) c = 0x5A;
  e.Decode(Array<char16_t const>(out + 1, CodePoints(n)), Array<std::uint8_t>(back + 2, n));
  for (int i = 0; i < n; ++i) vf_check(back[2 + i] == in[i], "byte");
  vf_check(back[1] == 0x5A && back[2 + n] == 0x5A && back[3 + n] == 0x5A, "around");
}

template<bool nt>
static void Base64(int n) {
  static char const alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  std::uint8_t in[6];
  for (int i = 0; i < n; ++i) in[i] = vf::u8("byte");
  Base64Encoder<nt> e;
  Array<std::uint8_t const> const input(in, n);
  auto const text = e.Encode(input);
  int const len = (8 * n + 5) / 6;
  vf_check(text.size == len + nt && e.EncodedLength(input) == text.size, "length");
  for (int i = 0; i < len; ++i) {
    unsigned k = 0;
    for (int j = 0; j < 6; ++j) k = k << 1 | (6 * i + j < 8 * n ? Bit(in, n, 6 * i + j) : 0);
    vf_check(text.data[i] == alphabet[k], "character");
    vf_observe("c", (unsigned char)text.data[i]);
  }
  if (nt) vf_check(text.data[len] == 0, "terminator");
  Array<char const> const back(text.data.get(), len);
  auto const bytes = e.Decode(back);
  vf_check(bytes.size == n && e.DecodedLength(back) == n, "decoded length");
  for (int i = 0; i < n; ++i) vf_check(bytes.data[i] == in[i], "byte");
}
VF_HARNESS(base64_roundtrip) {
  int const n = vf_choose(6, "n");
  if (vf_choose(2, "nt")) Base64<true>(n); else Base64<false>(n);
}
