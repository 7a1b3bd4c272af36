// A spin lock can be interrupted at every access to its flag. A thread that
// finds the flag set waits until it is cleared instead of spinning.
#pragma once
#include <atomic>
#include <mutex>

#include "sx.h"
namespace std {
class sx_flag {
  mutex m_;

 public:
  sx_flag(int = 0) {}
  bool test_and_set(memory_order = memory_order_seq_cst) {
    if (m_.try_lock()) return false;
    m_.lock();
    m_.unlock();
    return true;
  }
  void clear(memory_order = memory_order_seq_cst) { m_.unlock(); }
};
}  // namespace std
#define atomic_flag sx_flag
