// Stand-ins for the hooks that the headers in shim/ need (single thread).
#include <cstdint>
#include <cstdio>
#include <cstdlib>
extern "C" {
[[noreturn]] void vf_check_failed(char const* what, char const* file, int line) {
  std::fprintf(stderr, "CHECK failed: %s %s:%d\n", what, file, line);
  std::_Exit(77);
}
[[noreturn]] void vf_silent_exit() { std::_Exit(78); }
void vf_block_on(int const*, int) {}
void vf_block_on_timed(int const*, int) {}
int vf_choose(int, char const*) { return 0; }
int vf_thread_self() { return 0; }
void vf_yield() {}
void vf_sleep() {}
}
