// Definitions of the out-of-line parts of the C++ library that the bitcode
// needs: red-black trees, lists, hashing, RTTI, threads.  Linked into the
// bitcode given to the symbolic executor.
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <ctime>
#include <future>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <string>
#include <system_error>
#include <thread>
#include <unordered_map>

#include "vf.h"

[[noreturn]] static void Throw(char const* what) { vf_check_failed(what, "exception", 0); }

extern "C" int strcmp(char const* a, char const* b) noexcept {
  for (; *a != 0 && *a == *b; ++a, ++b) {}
  return (unsigned char)*a - (unsigned char)*b;
}

namespace std {
void __throw_bad_alloc() { Throw("bad_alloc"); }
void __throw_bad_array_new_length() { Throw("bad_array_new_length"); }
void __throw_bad_cast() { Throw("bad_cast"); }
void __throw_bad_function_call() { Throw("bad_function_call"); }
void __throw_bad_exception() { Throw("bad_exception"); }
void __throw_logic_error(char const*) { Throw("logic_error"); }
void __throw_domain_error(char const*) { Throw("domain_error"); }
void __throw_invalid_argument(char const*) { Throw("invalid_argument"); }
void __throw_length_error(char const*) { Throw("length_error"); }
void __throw_out_of_range(char const*) { Throw("out_of_range"); }
void __throw_out_of_range_fmt(char const*, ...) { Throw("out_of_range"); }
void __throw_runtime_error(char const*) { Throw("runtime_error"); }
void __throw_range_error(char const*) { Throw("range_error"); }
void __throw_overflow_error(char const*) { Throw("overflow_error"); }
void __throw_underflow_error(char const*) { Throw("underflow_error"); }
void __throw_system_error(int) { Throw("system_error"); }
void __throw_future_error(int) { Throw("future_error"); }
void __glibcxx_assert_fail(char const*, int, char const*, char const* c) noexcept { Throw(c ? c : "assert"); }

// Red-black trees: plain (unbalanced) insertion and removal keep the order,
// which is all that is observable; the colours are maintained as black.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right != nullptr) {
    x = x->_M_right;
    while (x->_M_left != nullptr) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  // The header is red and its grandparent is itself.
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) {
    x = x->_M_right;
  } else if (x->_M_left != nullptr) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right != nullptr) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) throw() {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                                                 _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root = header._M_parent;
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = nullptr;
  if (y->_M_left == nullptr) {
    x = y->_M_right;
  } else if (y->_M_right == nullptr) {
    x = y->_M_left;
  } else {
    y = y->_M_right;
    while (y->_M_left != nullptr) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (header._M_left == z) {
      if (z->_M_right == nullptr) {
        header._M_left = z->_M_parent;
      } else {
        _Rb_tree_node_base* w = x;
        while (w->_M_left) w = w->_M_left;
        header._M_left = w;
      }
    }
    if (header._M_right == z) {
      if (z->_M_left == nullptr) {
        header._M_right = z->_M_parent;
      } else {
        _Rb_tree_node_base* w = x;
        while (w->_M_right) w = w->_M_right;
        header._M_right = w;
      }
    }
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  _M_next = p;
  _M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_prev->_M_next = _M_next;
  _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this;
  first->_M_prev->_M_next = last;
  _M_prev->_M_next = first;
  auto* const tmp = _M_prev;
  _M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = tmp;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  bool const ex = x._M_next == &x, ey = y._M_next == &y;
  std::swap(x._M_next, y._M_next);
  std::swap(x._M_prev, y._M_prev);
  if (ey) x._M_next = x._M_prev = &x;
  else x._M_next->_M_prev = x._M_prev->_M_next = &x;
  if (ex) y._M_next = y._M_prev = &y;
  else y._M_next->_M_prev = y._M_prev->_M_next = &y;
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  static std::size_t const primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727};
  for (auto p : primes) {
    if (p >= n) {
      _M_next_resize = static_cast<std::size_t>(p * _M_max_load_factor);
      return p;
    }
  }
  _M_next_resize = n;
  return n | 1;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(
    std::size_t nb, std::size_t ne, std::size_t ni) const {
  if (ne + ni > _M_next_resize) {
    std::size_t min = ne + ni;
    if (_M_next_resize == 0 && min < 11) min = 11;
    if (min >= nb) return {true, _M_next_bkt(min + 1 > nb * 2 ? min + 1 : nb * 2)};
    _M_next_resize = nb;
  }
  return {false, 0};
}
}  // namespace __detail
std::size_t _Hash_bytes(void const* p, std::size_t n, std::size_t seed) {
  auto const* c = static_cast<unsigned char const*>(p);
  std::size_t h = seed ^ 14695981039346656037ull;
  for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
nothrow_t const nothrow{};
}  // namespace std

// ---- RTTI (Itanium ABI).
extern "C" {
void* _ZTVN10__cxxabiv117__class_type_infoE[8];
void* _ZTVN10__cxxabiv120__si_class_type_infoE[8];
void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[8];
void* _ZTVN10__cxxabiv119__pointer_type_infoE[8];
void* _ZTVN10__cxxabiv120__function_type_infoE[8];
void* _ZTVN10__cxxabiv116__enum_type_infoE[8];
void* _ZTVN10__cxxabiv123__fundamental_type_infoE[8];
}
namespace {
struct TI { void** vptr; char const* name; };
struct SI : TI { TI const* base; };
struct BaseInfo { TI const* base; long offset_flags; };
struct VMI : TI { unsigned flags; unsigned count; BaseInfo bases[1]; };
// Finds the (first) subobject of type dst in the object at p of type t.
void const* Find(TI const* t, void const* p, TI const* dst) {
  if (t == dst) return p;
  if (t->vptr == _ZTVN10__cxxabiv120__si_class_type_infoE + 2)
    return Find(static_cast<SI const*>(t)->base, p, dst);
  if (t->vptr == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 2) {
    auto const* v = static_cast<VMI const*>(t);
    for (unsigned i = 0; i < v->count; ++i) {
      long off = v->bases[i].offset_flags >> 8;
      if (v->bases[i].offset_flags & 1) off = *reinterpret_cast<long const*>(*static_cast<char const* const*>(p) + off);
      if (void const* r = Find(v->bases[i].base, static_cast<char const*>(p) + off, dst)) return r;
    }
  }
  return nullptr;
}
}
extern "C" void* __dynamic_cast(void const* p, void const*, void const* dst, std::ptrdiff_t) {
  auto const* vt = *static_cast<long const* const*>(p);
  auto const* whole = static_cast<char const*>(p) + vt[-2];
  auto const* t = reinterpret_cast<TI const*>(vt[-1]);
  return const_cast<void*>(Find(t, whole, static_cast<TI const*>(dst)));
}
extern "C" {
int __cxa_guard_acquire(char* g) { return g[0] == 0; }
void __cxa_guard_release(char* g) { g[0] = 1; }
}

#include "threads.inc"
