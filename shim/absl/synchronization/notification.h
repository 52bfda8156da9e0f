#pragma once
#include "absl/synchronization/mutex.h"
namespace absl {
class Notification {
 public:
  bool HasBeenNotified() const { vf_yield(); return n_ != 0; }
  void WaitForNotification() const { vf_yield(); while (n_ == 0) vf_block_on(&n_, 0); }
  bool WaitForNotificationWithTimeout(Duration) const {
    vf_yield();
    if (n_ == 0 && vf_choose(2, "timeout")) return false;
    if (n_ == 0) vf_block_on_timed(&n_, 0);
    return n_ != 0;
  }
  bool WaitForNotificationWithDeadline(Time) const { return WaitForNotificationWithTimeout(Duration()); }
  void Notify() {
    if (n_) vf_check_failed("Notify() method called more than once", __FILE__, __LINE__);
    n_ = 1;
    vf_yield();
  }
 private:
  int n_ = 0;
};
}
