// Threads, mutexes, condition variables on the executor's primitives.
extern "C" {
static int* W(void* p) { return static_cast<int*>(p); }
// The second word of a mutex holds the owner, for recursive ones the count is
// in the third.
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const*) noexcept { W(m)[0] = W(m)[1] = W(m)[2] = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  vf_yield();
  if (W(m)[0] != 0 && W(m)[1] == vf_thread_self()) {
    if (W(m)[4] == 1 /*PTHREAD_MUTEX_RECURSIVE_NP*/) { ++W(m)[2]; return 0; }
    vf_check_failed("std::mutex: self-deadlock", "mutex", 0);
  }
  while (W(m)[0] != 0) vf_block_on(W(m), 1);
  W(m)[0] = 1;
  W(m)[1] = vf_thread_self();
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  vf_yield();
  if (W(m)[0] != 0) return EBUSY;
  W(m)[0] = 1;
  W(m)[1] = vf_thread_self();
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (W(m)[0] == 0 || W(m)[1] != vf_thread_self()) vf_check_failed("std::mutex: unlock of a mutex not held", "mutex", 0);
  if (W(m)[2] > 0) { --W(m)[2]; return 0; }
  W(m)[0] = 0;
  vf_yield();
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const*) noexcept { W(c)[0] = 0; return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  int const g = W(c)[0];
  if (timed && vf_choose(2, "timeout")) {
    W(m)[0] = 0;
    vf_yield();
    pthread_mutex_lock(m);
    return ETIMEDOUT;
  }
  W(m)[0] = 0;
  int r = 0;
  if (timed) {
    vf_block_on_timed(W(c), g);
    if (W(c)[0] == g) r = ETIMEDOUT;
  } else {
    vf_block_on(W(c), g);
  }
  pthread_mutex_lock(m);
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return CondWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const*) { return CondWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const*) { return CondWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { ++W(c)[0]; return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { ++W(c)[0]; return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (*W(o) == 0) { *W(o) = 1; f(); *W(o) = 2; }
  return 0;
}
#ifndef VF_NATIVE
pthread_t pthread_self() noexcept { return static_cast<pthread_t>(vf_thread_self() + 1); }
void __once_proxy();
#endif
}
#ifndef VF_NATIVE
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
}
extern "C" void __once_proxy() { std::__once_call(); }
#endif
namespace {
struct ThreadRec {
  void* state;
  void (*run)(void*);
  int done = 0;
  static void Run(void* p) {
    auto* r = static_cast<ThreadRec*>(p);
    r->run(r->state);
    r->done = 1;
  }
};
}
namespace std {
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  auto* r = new ThreadRec{s.release(), [](void* p) {
    auto* t = static_cast<_State*>(p);
    t->_M_run();
    delete t;
  }};
  _M_id = id(reinterpret_cast<native_handle_type>(r));
  vf_thread_create(&ThreadRec::Run, r);
}
void thread::join() {
  auto* r = reinterpret_cast<ThreadRec*>(native_handle());
  vf_yield();
  while (r->done == 0) vf_block_on(&r->done, 0);
  delete r;
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept = default;
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
namespace chrono { inline namespace _V2 {
static long vf_clock = 0;
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vf_clock += 1000)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vf_clock += 1000)); }
} }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
bool __atomic_futex_unsigned_base::_M_futex_wait_until(
    unsigned* p, unsigned v, bool has_timeout, chrono::seconds, chrono::nanoseconds) {
  if (has_timeout) {
    if (vf_choose(2, "timeout")) { vf_yield(); return false; }
    vf_block_on_timed(reinterpret_cast<int*>(p), static_cast<int>(v));
    return *p != v;
  }
  vf_block_on(reinterpret_cast<int*>(p), static_cast<int>(v));
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
    unsigned* p, unsigned v, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
  return _M_futex_wait_until(p, v, has_timeout, s, ns);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { vf_yield(); }
}  // namespace std
extern "C" {
int nanosleep(timespec const*, timespec*) { vf_sleep(); return 0; }
int sched_yield() noexcept { vf_sleep(); return 0; }
}
