// Threads for the native replay: real threads, only one of which runs at a
// time, switched where and as the symbolic execution switched them.
#include <pthread.h>
#include <semaphore.h>
#include <cerrno>
#include <condition_variable>
#include <ctime>
#include <future>
#include <mutex>
#include <thread>

namespace {
struct NThread {
  sem_t sem;
  void (*f)(void*) = nullptr;
  void* arg = nullptr;
  bool done = false, blocked = false, timed = false;
  int const* addr = nullptr;
  int value = 0;
};
NThread* g_threads[64];
int g_nthreads = 0;
int g_cur = 0;
int g_sched = 0;
thread_local int t_self = 0;

void EnsureMain() {
  if (g_nthreads == 0) {
    g_threads[0] = new NThread;
    sem_init(&g_threads[0]->sem, 0, 0);
    g_nthreads = 1;
  }
}
bool Enabled(NThread const& t) { return !t.done && (!t.blocked || *t.addr != t.value); }

void Schedule(bool exiting, bool sleep) {
  int next = -1;
  auto it = g_in.find("sched#" + std::to_string(g_sched++));
  if (it != g_in.end()) {
    next = (int)it->second;
  } else {
    // Beyond the recorded schedule.
    if (!exiting && !sleep && Enabled(*g_threads[t_self])) next = t_self;
    for (int i = 1; i <= g_nthreads && next < 0; ++i) {
      int const j = (t_self + i) % g_nthreads;
      if (Enabled(*g_threads[j])) next = j;
    }
    for (int i = 0; i < g_nthreads && next < 0; ++i)
      if (!g_threads[i]->done && g_threads[i]->blocked && g_threads[i]->timed) next = i;
    if (next < 0) {
      std::printf("VF_VIOLATION deadlock\n");
      std::fflush(stdout);
      std::_Exit(1);
    }
  }
  if (next < 0 || next >= g_nthreads || g_threads[next]->done) {
    std::printf("VF_MISSING sched\n");
    std::fflush(stdout);
    std::_Exit(3);
  }
  int const self = t_self;
  g_threads[next]->blocked = false;
  if (next == self) return;
  g_cur = next;
  sem_post(&g_threads[next]->sem);
  if (exiting) return;
  while (sem_wait(&g_threads[self]->sem) != 0) {}
}

void* Trampoline(void* p) {
  auto* t = static_cast<NThread*>(p);
  for (int i = 0; i < g_nthreads; ++i) if (g_threads[i] == t) t_self = i;
  while (sem_wait(&t->sem) != 0) {}
  t->f(t->arg);
  t->done = true;
  Schedule(true, false);
  for (;;) { sem_t s; sem_init(&s, 0, 0); sem_wait(&s); }
  return nullptr;
}
}  // namespace

extern "C" {
int vf_thread_create(void (*f)(void*), void* arg) {
  EnsureMain();
  auto* t = new NThread;
  sem_init(&t->sem, 0, 0);
  t->f = f;
  t->arg = arg;
  int const id = g_nthreads;
  g_threads[g_nthreads++] = t;
  pthread_t h;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  pthread_create(&h, &a, &Trampoline, t);
  Schedule(false, false);
  return id;
}
int vf_thread_self() { return t_self; }
int vf_thread_done(int t) { EnsureMain(); return g_threads[t]->done; }
static void Block(int const* word, int v, bool timed) {
  EnsureMain();
  auto& t = *g_threads[t_self];
  t.blocked = true;
  t.addr = word;
  t.value = v;
  t.timed = timed;
  Schedule(false, false);
}
void vf_block_on(int const* word, int v) { Block(word, v, false); }
void vf_block_on_timed(int const* word, int v) { Block(word, v, true); }
void vf_yield() { if (g_nthreads > 1) Schedule(false, false); }
void vf_sleep() { if (g_nthreads > 1) Schedule(false, true); }
}
#define VF_NATIVE 1
#include "threads.inc"
