// Stand-in for the protobuf runtime: message storage only, no wire format.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
extern "C" [[noreturn]] void vf_check_failed(char const*, char const*, int);
namespace google {
namespace protobuf {
using std::int32_t; using std::int64_t; using std::uint32_t; using std::uint64_t;
struct EnumDescriptor;
struct EnumValueDescriptor {
  char const* name_; int number_;
  struct EnumDescriptor const* (*type_)();
  struct EnumDescriptor const* type() const { return type_(); }
  std::string_view name() const { return name_; }
  int number() const { return number_; }
};
struct EnumDescriptor {
  char const* full_name_; char const* name_;
  EnumValueDescriptor const* values_; int n_;
  std::string_view full_name() const { return full_name_; }
  std::string_view name() const { return name_; }
  int value_count() const { return n_; }
  EnumValueDescriptor const* value(int i) const { return values_ + i; }
  EnumValueDescriptor const* FindValueByNumber(int k) const {
    for (int i = 0; i < n_; ++i) if (values_[i].number_ == k) return values_ + i;
    return nullptr;
  }
};
struct Descriptor {
  char const* full_name_; char const* name_;
  EnumDescriptor const* const* enums_; int n_;
  std::string_view full_name() const { return full_name_; }
  std::string_view name() const { return name_; }
  int enum_type_count() const { return n_; }
  EnumDescriptor const* enum_type(int i) const { return enums_[i]; }
};
template<typename T> struct is_proto_enum : std::false_type {};
template<typename T> EnumDescriptor const* GetEnumDescriptor();
namespace io {
class ZeroCopyOutputStream {
 public:
  virtual ~ZeroCopyOutputStream() = default;
  virtual bool Next(void** data, int* size) = 0;
  virtual void BackUp(int count) = 0;
  virtual std::int64_t ByteCount() const = 0;
};
class ZeroCopyInputStream {
 public:
  virtual ~ZeroCopyInputStream() = default;
  virtual bool Next(void const** data, int* size) = 0;
  virtual void BackUp(int count) = 0;
  virtual bool Skip(int count) = 0;
  virtual std::int64_t ByteCount() const = 0;
};
class CodedInputStream {
 public:
  explicit CodedInputStream(ZeroCopyInputStream* s) : s_(s) {}
  void SetTotalBytesLimit(int, int = 0) {}
  bool ConsumedEntireMessage() { return true; }
  ZeroCopyInputStream* vf_stream() { return s_; }
 private:
  ZeroCopyInputStream* s_;
};
class IstreamInputStream {
 public:
  template<typename T> explicit IstreamInputStream(T*) {}
};
}  // namespace io
class MessageLite {
 public:
  virtual ~MessageLite() = default;
  virtual bool SerializeToZeroCopyStream(io::ZeroCopyOutputStream*) const { return true; }
  virtual bool ParseFromCodedStream(io::CodedInputStream*) { return true; }
  virtual std::string SerializeAsString() const { return ""; }
  virtual std::size_t ByteSizeLong() const { return 0; }
  int ByteSize() const { return static_cast<int>(ByteSizeLong()); }
  bool SerializeToArray(void*, int) const { return true; }
  bool ParseFromArray(void const*, int) { return true; }
  bool ParseFromString(std::string_view) { return true; }
};
class Message : public MessageLite {
 public:
  std::string DebugString() const { return ""; }
  std::string ShortDebugString() const { return ""; }
  void CheckInitialized() const {}
  std::size_t SpaceUsedLong() const { return 0; }
};
struct ArenaOptions { std::size_t initial_block_size = 0, max_block_size = 0; char* initial_block = nullptr; };
class Arena {
 public:
  Arena() = default;
  template<typename O> explicit Arena(O const&) {}
  template<typename T> static T* CreateMessage(Arena*) { return new T; }
  template<typename T> static T* Create(Arena*) { return new T; }
  template<typename T> using UniquePtr = std::unique_ptr<T>;
  template<typename T, typename... A> static UniquePtr<T> MakeUnique(Arena*, A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }
  std::uint64_t Reset() { return 0; }
  std::uint64_t SpaceUsed() const { return 0; }
  std::uint64_t SpaceAllocated() const { return 0; }
};
template<typename T> class RepeatedField {
 public:
  using value_type = T; using iterator = typename std::vector<T>::iterator;
  using const_iterator = typename std::vector<T>::const_iterator;
  int size() const { return static_cast<int>(v_.size()); }
  bool empty() const { return v_.empty(); }
  T const& operator[](int i) const { return v_.at(i); }
  typename std::vector<T>::reference operator[](int i) { return v_.at(i); }
  T Get(int i) const { return v_.at(i); }
  void Set(int i, T const& t) { v_.at(i) = t; }
  void Add(T const& t) { v_.push_back(t); }
  void Reserve(int n) { v_.reserve(n); }
  void Resize(int n, T const& t) { v_.resize(n, t); }
  void Clear() { v_.clear(); }
  void RemoveLast() { v_.pop_back(); }
  void Truncate(int n) { v_.resize(n); }
  void MergeFrom(RepeatedField const& o) { v_.insert(v_.end(), o.v_.begin(), o.v_.end()); }
  auto begin() { return v_.begin(); } auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); } auto end() const { return v_.end(); }
  auto cbegin() const { return v_.begin(); } auto cend() const { return v_.end(); }
  auto rbegin() const { return v_.rbegin(); } auto rend() const { return v_.rend(); }
  bool vf_equals(RepeatedField const& o) const { return v_ == o.v_; }
 private:
  std::vector<T> v_;
};
template<typename T> class RepeatedPtrField {
  template<typename V, typename P> struct It {
    using value_type = T; using reference = V&; using pointer = V*;
    using difference_type = std::ptrdiff_t;
    using iterator_category = std::random_access_iterator_tag;
    P p_{};
    It() = default;
    explicit It(P p) : p_(p) {}
    template<typename W, typename Q> requires std::is_convertible_v<Q, P>
    It(It<W, Q> const& o) : p_(o.p_) {}
    V& operator*() const { return **p_; }
    V* operator->() const { return p_->get(); }
    V& operator[](difference_type n) const { return *p_[n]; }
    It& operator++() { ++p_; return *this; } It operator++(int) { It r = *this; ++p_; return r; }
    It& operator--() { --p_; return *this; } It operator--(int) { It r = *this; --p_; return r; }
    It& operator+=(difference_type n) { p_ += n; return *this; }
    It& operator-=(difference_type n) { p_ -= n; return *this; }
    friend It operator+(It a, difference_type n) { return It(a.p_ + n); }
    friend It operator+(difference_type n, It a) { return It(a.p_ + n); }
    friend It operator-(It a, difference_type n) { return It(a.p_ - n); }
    friend difference_type operator-(It a, It b) { return a.p_ - b.p_; }
    friend bool operator==(It a, It b) { return a.p_ == b.p_; }
    friend auto operator<=>(It a, It b) { return a.p_ <=> b.p_; }
  };
  using Vec = std::vector<std::unique_ptr<T>>;
 public:
  using value_type = T;
  using iterator = It<T, std::unique_ptr<T>*>;
  using const_iterator = It<T const, std::unique_ptr<T> const*>;
  RepeatedPtrField() = default;
  RepeatedPtrField(RepeatedPtrField const& o) { MergeFrom(o); }
  RepeatedPtrField(RepeatedPtrField&&) = default;
  RepeatedPtrField& operator=(RepeatedPtrField const& o) {
    if (this != &o) { v_.clear(); MergeFrom(o); }
    return *this;
  }
  RepeatedPtrField& operator=(RepeatedPtrField&&) = default;
  template<typename I> RepeatedPtrField(I a, I b) { for (; a != b; ++a) *Add() = *a; }
  int size() const { return static_cast<int>(v_.size()); }
  bool empty() const { return v_.empty(); }
  T const& operator[](int i) const { return *Check(i); }
  T& operator[](int i) { return *Check(i); }
  T const& at(int i) const { return *Check(i); }
  T const& Get(int i) const { return *Check(i); }
  T* Mutable(int i) { return Check(i); }
  T* Add() { v_.push_back(std::make_unique<T>()); return v_.back().get(); }
  void Add(T&& t) { *Add() = std::move(t); }
  void AddAllocated(T* t) { v_.emplace_back(t); }
  void Reserve(int n) { v_.reserve(n); }
  void Clear() { v_.clear(); }
  void RemoveLast() { v_.pop_back(); }
  T* ReleaseLast() { T* r = v_.back().release(); v_.pop_back(); return r; }
  void DeleteSubrange(int s, int n) { v_.erase(v_.begin() + s, v_.begin() + s + n); }
  iterator erase(const_iterator p) {
    auto i = p - begin_c();
    v_.erase(v_.begin() + i);
    return begin() + i;
  }
  iterator erase(const_iterator p, const_iterator q) {
    auto i = p - begin_c(), j = q - begin_c();
    v_.erase(v_.begin() + i, v_.begin() + j);
    return begin() + i;
  }
  void SwapElements(int i, int j) { v_[i].swap(v_[j]); }
  void Swap(RepeatedPtrField* o) { v_.swap(o->v_); }
  void CopyFrom(RepeatedPtrField const& o) { *this = o; }
  void MergeFrom(RepeatedPtrField const& o) {
    for (auto const& x : o.v_) v_.push_back(std::make_unique<T>(*x));
  }
  iterator begin() { return iterator(v_.data()); } iterator end() { return iterator(v_.data() + v_.size()); }
  const_iterator begin() const { return begin_c(); }
  const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  auto rbegin() const { return std::reverse_iterator(end()); }
  auto rend() const { return std::reverse_iterator(begin()); }
  auto rbegin() { return std::reverse_iterator(end()); }
  auto rend() { return std::reverse_iterator(begin()); }
  std::size_t SpaceUsedExcludingSelfLong() const { return 0; }
  bool vf_equals(RepeatedPtrField const& o) const {
    if (size() != o.size()) return false;
    for (int i = 0; i < size(); ++i) {
      if constexpr (requires { v_[i]->vf_equals(*o.v_[i]); }) {
        if (!v_[i]->vf_equals(*o.v_[i])) return false;
      } else {
        if (!(*v_[i] == *o.v_[i])) return false;
      }
    }
    return true;
  }
 private:
  const_iterator begin_c() const { return const_iterator(v_.data()); }
  T* Check(int i) const {
    if (i < 0 || i >= size()) vf_check_failed("protobuf: repeated field index out of range", __FILE__, __LINE__);
    return v_[i].get();
  }
  Vec v_;
};
template<typename K, typename V> class Map : public std::map<K, V> {
 public:
  using std::map<K, V>::map;
  bool contains(K const& k) const { return this->find(k) != this->end(); }
  V const& at(K const& k) const {
    auto it = this->find(k);
    if (it == this->end()) vf_check_failed("protobuf: map key not found", __FILE__, __LINE__);
    return it->second;
  }
  V& at(K const& k) { return const_cast<V&>(static_cast<Map const*>(this)->at(k)); }
  void MergeFrom(Map const& o) { for (auto const& [k, v] : o) (*this)[k] = v; }
};
template<typename K, typename V> struct MapPair : std::pair<K const, V> { using std::pair<K const, V>::pair; };
class TextFormat {
 public:
  template<typename S, typename M> static bool Parse(S*, M*) { return true; }
  template<typename M> static bool ParseFromString(std::string_view, M*) { return true; }
};
template<typename T> bool Parse_vf(T*) { return true; }
namespace util {
struct MessageDifferencer {
  void ReportDifferencesToString(std::string*) {}
  template<typename A> bool Compare(A const& a, A const& b) { return a.vf_equals(b); }
  template<typename A> static bool Equals(A const& a, A const& b) { return a.vf_equals(b); }
};
}
}  // namespace protobuf
}  // namespace google
namespace vfpb {
template<typename T> class Ptr {
 public:
  Ptr() = default;
  Ptr(Ptr const& o) : p_(o.p_ ? new T(*o.p_) : nullptr) {}
  Ptr(Ptr&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
  Ptr& operator=(Ptr const& o) {
    if (this != &o) { T* n = o.p_ ? new T(*o.p_) : nullptr; delete p_; p_ = n; }
    return *this;
  }
  Ptr& operator=(Ptr&& o) noexcept { std::swap(p_, o.p_); return *this; }
  ~Ptr() { delete p_; }
  void reset(T* t = nullptr) { delete p_; p_ = t; }
  T* release() { T* r = p_; p_ = nullptr; return r; }
  T* get() const { return p_; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(Ptr const& a, std::nullptr_t) { return a.p_ == nullptr; }
  friend void swap(Ptr& a, Ptr& b) { std::swap(a.p_, b.p_); }
 private:
  T* p_ = nullptr;
};
template<typename T> bool Eq(T const& a, T const& b) {
  if constexpr (requires { a.vf_equals(b); }) return a.vf_equals(b);
  else return a == b;
}
template<typename T> bool Eq(Ptr<T> const& a, Ptr<T> const& b) {
  if (!a || !b) return !a == !b;
  return Eq(*a, *b);
}
template<typename K, typename V>
bool Eq(google::protobuf::Map<K, V> const& a, google::protobuf::Map<K, V> const& b) {
  if (a.size() != b.size()) return false;
  auto i = a.begin();
  auto j = b.begin();
  for (; i != a.end(); ++i, ++j) if (!(i->first == j->first) || !Eq(i->second, j->second)) return false;
  return true;
}
template<typename T, int n> struct ExtensionIdentifier { static constexpr int number() { return n; } };
struct ExtBase {
  virtual ~ExtBase() = default;
  virtual ExtBase* clone() const = 0;
  virtual bool equals(ExtBase const& o) const = 0;
};
template<typename T> struct ExtHolder : ExtBase {
  T t;
  ExtBase* clone() const override { return new ExtHolder(*this); }
  bool equals(ExtBase const& o) const override { return t.vf_equals(static_cast<ExtHolder const&>(o).t); }
};
class Extendable {
 public:
  template<typename T, int n> bool HasExtension(ExtensionIdentifier<T, n> const&) const { return Find(n) != nullptr; }
  template<typename T, int n> T const& GetExtension(ExtensionIdentifier<T, n> const&) const {
    auto const* e = Find(n);
    return e ? static_cast<ExtHolder<T> const*>(e)->t : T::default_instance();
  }
  template<typename T, int n> T* MutableExtension(ExtensionIdentifier<T, n> const&) {
    if (ExtBase* e = Find(n)) return &static_cast<ExtHolder<T>*>(e)->t;
    auto* h = new ExtHolder<T>;
    ext_.push_back({n, PtrE(h)});
    return &h->t;
  }
  template<typename T, int n> void ClearExtension(ExtensionIdentifier<T, n> const&) {
    for (auto it = ext_.begin(); it != ext_.end(); ++it) if (it->first == n) { ext_.erase(it); return; }
  }
 protected:
  struct PtrE {
    ExtBase* p = nullptr;
    explicit PtrE(ExtBase* q) : p(q) {}
    PtrE(PtrE const& o) : p(o.p->clone()) {}
    PtrE(PtrE&& o) noexcept : p(o.p) { o.p = nullptr; }
    PtrE& operator=(PtrE o) noexcept { std::swap(p, o.p); return *this; }
    ~PtrE() { delete p; }
  };
  ExtBase* Find(int n) const {
    for (auto const& [k, v] : ext_) if (k == n) return v.p;
    return nullptr;
  }
  bool vf_ext_equals(Extendable const& o) const {
    if (ext_.size() != o.ext_.size()) return false;
    for (auto const& [k, v] : ext_) {
      ExtBase* e = o.Find(k);
      if (!e || !v.p->equals(*e)) return false;
    }
    return true;
  }
  void vf_ext_merge(Extendable const& o) {
    for (auto const& [k, v] : o.ext_) if (!Find(k)) ext_.push_back({k, PtrE(v.p->clone())});
  }
  std::vector<std::pair<int, PtrE>> ext_;
};
}  // namespace vfpb
