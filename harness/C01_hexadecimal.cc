// Hexadecimal encoding: round trip, alphabet, lengths, in-place use.
//@ entry hex_roundtrip
//@ entry hex_inplace_encode
//@ entry hex_inplace_decode
//@ entry hex_decode_any
//@ bound Inputs of 0 to 4 bytes (encoding) and 0 to 5 characters (decoding), every byte and character value; every overlap distance allowed by the contract within those sizes.
#include "base/hexadecimal.hpp"
#include "vf.h"

using namespace principia::base::_array;
using namespace principia::base::_hexadecimal;

static char Digit(unsigned n) { return n < 10 ? '0' + n : 'A' + (n - 10); }
static unsigned Nibble(unsigned char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  return 0;
}

template<bool nt>
static void RoundTrip(int n) {
  HexadecimalEncoder<nt> e;
  std::uint8_t in[5];
  for (int i = 0; i < n; ++i) in[i] = vf::u8("byte");
  Array<std::uint8_t const> const input(in, n);
  UniqueArray<char> const text = e.Encode(input);
  vf_check(text.size == 2 * n + (nt ? 1 : 0), "length");
  vf_check(e.EncodedLength(input) == text.size, "encoded length");
  for (int i = 0; i < n; ++i) {
    vf_check(text.data[2 * i] == Digit(in[i] >> 4), "high digit");
    vf_check(text.data[2 * i + 1] == Digit(in[i] & 15), "low digit");
    vf_observe("d", (unsigned char)text.data[2 * i]);
  }
  if (nt) vf_check(text.data[2 * n] == 0, "terminator");
  Array<char const> const back(text.data.get(), text.size);
  UniqueArray<std::uint8_t> const bytes = e.Decode(back);
  vf_check(bytes.size == n && e.DecodedLength(back) == n, "decoded length");
  for (int i = 0; i < n; ++i) vf_check(bytes.data[i] == in[i], "round trip");
}
VF_HARNESS(hex_roundtrip) {
  int const n = vf_choose(5, "n");
  if (vf_choose(2, "nt")) RoundTrip<true>(n); else RoundTrip<false>(n);
}

VF_HARNESS(hex_inplace_encode) {
  // The input at any offset from the output allowed by the contract.
  int const n = 1 + vf_choose(4, "n");
  int const d = vf_choose(2, "before") ? -1 : vf_choose(2 * n + 2, "offset");
  char buffer[32];
  for (auto& c : buffer) c = 'z';
  char* const out = buffer + 8;
  std::uint8_t in[4];
  // Allowed: input <= output + 1, or no overlap at all.
  int const offset = d < 0 ? -(vf_choose(3, "back")) : d;
  if (offset > 1 && offset < 2 * n) return;
  auto* const p = reinterpret_cast<std::uint8_t*>(out + offset);
  for (int i = 0; i < n; ++i) p[i] = in[i] = vf::u8("byte");
  char before[32];
  std::memcpy(before, buffer, 32);
  HexadecimalEncoder<false> e;
  e.Encode(Array<std::uint8_t const>(p, n), Array<char>(out, 2 * n + 3));
  for (int i = 0; i < n; ++i) {
    vf_check(out[2 * i] == Digit(in[i] >> 4) && out[2 * i + 1] == Digit(in[i] & 15), "encoded in place");
    vf_observe("d", (unsigned char)out[2 * i]);
  }
  for (int i = 0; i < 32; ++i)
    if (i < 8 || i >= 8 + 2 * n) vf_check(buffer[i] == before[i], "outside of the result");
}

VF_HARNESS(hex_inplace_decode) {
  int const n = vf_choose(5, "n");
  // Output relative to the input.
  int const offset = vf_choose(n + 4, "offset") - 2;
  if (offset > 1 && offset < (n & ~1)) return;
  std::uint8_t buffer[32];
  for (auto& c : buffer) c = 0x55;
  char* const in = reinterpret_cast<char*>(buffer + 8);
  char copy[8];
  for (int i = 0; i < n; ++i) {
    std::uint8_t const c = vf::u8("char");
    copy[i] = in[i] = static_cast<char>(c);
  }
  std::uint8_t before[32];
  std::memcpy(before, buffer, 32);
  HexadecimalEncoder<false> e;
  std::uint8_t* const out = buffer + 8 + offset;
  e.Decode(Array<char const>(in, n), Array<std::uint8_t>(out, n / 2 + 2));
  for (int i = 0; i < n / 2; ++i)
    vf_check(out[i] == (Nibble(copy[2 * i]) << 4 | Nibble(copy[2 * i + 1])), "decoded in place");
  for (int i = 0; i < 32; ++i)
    if (i < 8 + offset || i >= 8 + offset + n / 2) vf_check(buffer[i] == before[i], "outside of the result");
}

template<bool nt>
static void DecodeAny(int n) {
  char in[6];
  for (int i = 0; i < n; ++i) in[i] = static_cast<char>(vf::u8("char"));
  HexadecimalEncoder<nt> e;
  auto const out = e.Decode(Array<char const>(in, n));
  vf_check(out.size == n / 2, "size");
  for (int i = 0; i < n / 2; ++i) {
    vf_check(out.data[i] == (Nibble(in[2 * i]) << 4 | Nibble(in[2 * i + 1])), "value, invalid digits read as 0");
    vf_observe("b", out.data[i]);
  }
}
VF_HARNESS(hex_decode_any) {
  int const n = vf_choose(6, "n");
  if (vf_choose(2, "nt")) DecodeAny<true>(n); else DecodeAny<false>(n);
}
