// Chunked serialization and deserialization: no byte lost, duplicated,
// reordered or overwritten, whatever the chunking and the schedule.
//@ entry pull_stream preemptions=2 switches=3 max-seconds=100
//@ entry pull_compressed preemptions=2 switches=3 max-seconds=100
//@ entry push_stream preemptions=2 switches=3 max-seconds=100
//@ entry push_compressed preemptions=2 switches=3 max-seconds=100
//@ entry output_stream
//@ entry input_stream
//@ bound Messages of at most 7 arbitrary bytes, chunks of 2 or 3 bytes, 3 to 5 chunks; every write size from 1 to 3; pushed blocks of every size from 1 to 5 (2 blocks); every schedule with at most 2 preemptions and 3 departures from the default choice when a thread blocks.
//@ assume The protobuf library writes by Next and BackUp, and obtains a further buffer when the message ends exactly at the end of one; the compressor is a reversible stand-in that expands its input by one byte.
#include <vector>
#include "base/pull_serializer.hpp"
#include "base/push_deserializer.hpp"
#include "vf.h"

using namespace principia::base::_array;
using namespace principia::base::_not_null;
using namespace principia::base::_pull_serializer;
using namespace principia::base::_push_deserializer;
using google::compression::Compressor;
using google::compression::Sink;
using google::compression::Source;
using principia::base::_pull_serializer::internal::DelegatingArrayOutputStream;
using principia::base::_push_deserializer::internal::DelegatingArrayInputStream;

struct Bytes : google::protobuf::Message {
  std::vector<std::uint8_t> bytes;
  bool SerializeToZeroCopyStream(google::protobuf::io::ZeroCopyOutputStream* out) const override {
    std::size_t i = 0;
    void* data;
    int size;
    do {
      if (!out->Next(&data, &size)) return false;
      vf_check(size > 0, "buffers are not empty");
      int j = 0;
      for (; j < size && i < bytes.size(); ++j, ++i) static_cast<std::uint8_t*>(data)[j] = bytes[i];
      if (j < size) {
        out->BackUp(size - j);
        vf_check(out->ByteCount() == (std::int64_t)bytes.size(), "byte count");
        return true;
      }
    } while (true);
  }
  bool ParseFromCodedStream(google::protobuf::io::CodedInputStream* in) override {
    auto* const s = in->vf_stream();
    void const* data;
    int size;
    std::int64_t total = 0;
    while (s->Next(&data, &size)) {
      total += size;
      vf_check(s->ByteCount() == total, "byte count");
      for (int j = 0; j < size; ++j) bytes.push_back(static_cast<std::uint8_t const*>(data)[j]);
    }
    return true;
  }
};

// Prepends the size and flips the bits.
struct Flip : Compressor {
  std::size_t MaxCompressedLength(std::size_t n) override { return n + 1; }
  std::size_t CompressStream(Source* r, Sink* w) override {
    std::size_t n;
    char const* p = r->Peek(&n);
    std::vector<char> b(n + 1);
    b[0] = static_cast<char>(n);
    for (std::size_t i = 0; i < n; ++i) b[i + 1] = static_cast<char>(p[i] ^ 0x5A);
    r->Skip(n);
    w->Append(b.data(), n + 1);
    return n + 1;
  }
  bool UncompressStream(Source* r, Sink* w) override {
    std::size_t n;
    char const* p = r->Peek(&n);
    if (n == 0 || static_cast<std::size_t>(p[0]) != n - 1) return false;
    std::vector<char> b(n - 1);
    for (std::size_t i = 0; i + 1 < n; ++i) b[i] = static_cast<char>(p[i + 1] ^ 0x5A);
    r->Skip(n);
    w->Append(b.data(), n - 1);
    return true;
  }
};

static void Pull(bool compressed) {
  int const n = vf_choose(8, "n");
  int const chunk = 2 + vf_choose(2, "chunk");
  int const chunks = (compressed ? 4 : 3) + vf_choose(2, "chunks");
  Bytes m;
  for (int i = 0; i < n; ++i) m.bytes.push_back(vf::u8("byte"));
  PullSerializer serializer(chunk, chunks, compressed ? std::make_unique<Flip>() : nullptr);
  serializer.Start(not_null<google::protobuf::Message const*>(&m));
  int got = 0;
  for (;;) {
    Array<std::uint8_t> const a = serializer.Pull();
    if (a.size == 0) break;
    std::uint8_t copy[8];
    vf_check(a.size <= chunk + compressed, "chunk size");
    for (int i = 0; i < a.size; ++i) copy[i] = a.data[i];
    vf_yield();
    for (int i = 0; i < a.size; ++i) vf_check(copy[i] == a.data[i], "chunk valid until the next one is obtained");
    if (compressed) {
      vf_check(a.data[0] == a.size - 1, "one compressed block per chunk");
      for (int i = 1; i < a.size; ++i, ++got) vf_check(got < n && a.data[i] == (m.bytes[got] ^ 0x5A), "bytes in order");
    } else {
      for (int i = 0; i < a.size; ++i, ++got) vf_check(got < n && a.data[i] == m.bytes[got], "bytes in order");
    }
  }
  vf_check(got == n, "all bytes");
}
VF_HARNESS(pull_stream) { Pull(false); }
VF_HARNESS(pull_compressed) { Pull(true); }

static void PushBlocks(bool compressed) {
  int const chunk = 2 + vf_choose(2, "chunk");
  int const chunks = 1 + vf_choose(2, "chunks");
  Bytes m;
  std::vector<std::uint8_t> expected;
  int done[3] = {}, final_done = 0, order = 0;
  std::vector<std::uint8_t> blocks[2];
  {
    PushDeserializer deserializer(chunk, chunks, compressed ? std::make_unique<Flip>() : nullptr);
    deserializer.Start(not_null<google::protobuf::Message*>(&m),
                       [&](google::protobuf::Message const& r) {
                         vf_check(&r == &m, "message");
                         ++final_done;
                       });
    for (int b = 0; b < 2; ++b) {
      int const n = 1 + vf_choose(compressed ? chunk : 5, "n");
      if (compressed) blocks[b].push_back(n);
      for (int i = 0; i < n; ++i) {
        std::uint8_t const x = vf::u8("byte");
        expected.push_back(x);
        blocks[b].push_back(compressed ? x ^ 0x5A : x);
      }
      // The storage is reclaimed in the callback.
      if (vf_choose(2, "owned")) {
        UniqueArray<std::uint8_t> u(blocks[b].size());
        for (std::size_t i = 0; i < blocks[b].size(); ++i) u.data[i] = blocks[b][i];
        deserializer.Push(std::move(u));
        done[b] = ++order;
      } else {
        deserializer.Push(Array<std::uint8_t>(blocks[b].data(), blocks[b].size()), [&, b] {
          ++done[b];
          ++order;
          for (auto& x : blocks[b]) x = 0xEE;
        });
      }
    }
    deserializer.Push(Array<std::uint8_t>(nullptr, 0), [&] { ++done[2]; ++order; });
  }
  vf_check(m.bytes.size() == expected.size(), "all bytes");
  for (std::size_t i = 0; i < expected.size(); ++i) vf_check(m.bytes[i] == expected[i], "bytes in order");
  vf_check(order == 3 && done[0] >= 1 && done[1] >= 1 && done[2] == 1, "each callback called once");
  vf_check(final_done == 1, "final callback called once");
}
VF_HARNESS(push_stream) { PushBlocks(false); }
VF_HARNESS(push_compressed) { PushBlocks(true); }

VF_HARNESS(output_stream) {
  // Arbitrary sequences of Next and BackUp.
  std::uint8_t storage[2][4];
  std::vector<std::uint8_t> sent, written;
  int which = 0;
  int const size0 = 1 + vf_choose(4, "size");
  DelegatingArrayOutputStream s(Array<std::uint8_t>(storage[0], size0), [&](Array<std::uint8_t> const b) {
    vf_check(b.data == storage[which], "current array");
    vf_check(b.size > 0, "never empty");
    for (int i = 0; i < b.size; ++i) sent.push_back(b.data[i]);
    which ^= 1;
    return Array<std::uint8_t>(storage[which], size0);
  });
  for (int k = 0; k < 3; ++k) {
    void* data;
    int size;
    vf_check(s.Next(&data, &size) && size >= 1 && size <= size0, "next");
    for (int i = 0; i < size; ++i) static_cast<std::uint8_t*>(data)[i] = vf::u8("byte");
    int const back = vf_choose(size + 2, "back") - 1;  // -1 for no call.
    int const kept = back < 0 ? size : size - back;
    for (int i = 0; i < kept; ++i) written.push_back(static_cast<std::uint8_t*>(data)[i]);
    if (back >= 0) {
      s.BackUp(back);
      if (kept > 0) vf_check(sent.size() == written.size(), "backing up sends the data");
    }
    vf_check(s.ByteCount() == (std::int64_t)written.size(), "byte count");
  }
  vf_check(sent.size() <= written.size(), "nothing more than written");
  for (std::size_t i = 0; i < sent.size(); ++i) vf_check(sent[i] == written[i], "bytes in order");
}

VF_HARNESS(input_stream) {
  std::uint8_t data[8];
  for (auto& x : data) x = vf::u8("byte");
  int given = 0;
  int const total = 6;
  DelegatingArrayInputStream s([&] {
    int const n = given == total ? 0 : 1 + vf_choose(total - given < 3 ? total - given : 3, "chunk");
    Array<std::uint8_t> const a(data + given, n);
    given += n;
    return a;
  });
  int at = 0;
  bool ended = false;
  for (int k = 0; k < 4 && !ended; ++k) {
    if (vf_choose(2, "skip")) {
      int const n = vf_choose(4, "count");
      bool const ok = s.Skip(n);
      vf_check(ok == (at + n <= total), "skip succeeds if there are enough bytes");
      at = ok ? at + n : total;
      ended = !ok;
    } else {
      void const* p;
      int size;
      bool const ok = s.Next(&p, &size);
      vf_check(ok == (at < total), "next succeeds if there are bytes");
      if (ok) {
        vf_check(p == data + at && size > 0 && at + size <= total, "next bytes");
        int const back = vf_choose(size + 1, "back");
        s.BackUp(back);
        at += size - back;
      } else {
        ended = true;
      }
    }
    vf_check(s.ByteCount() == at, "byte count");
  }
}
