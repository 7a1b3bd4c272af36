#pragma once
#include <pthread.h>
#include <cstdint>
struct Packet {
  uint32_t ndec, nmodel;
  // followed by ndec uint64_t, nmodel u128
};
struct Shared {
  pthread_mutex_t mu;
  volatile int nworkers, idle, stop, timeout, memout;
  volatile uint32_t viols;
  volatile int count;
  static const int SLOTS = 128;
  static const int SLOTSZ = 1 << 19;
  int order[SLOTS];
  int freeSlots[SLOTS];
  int nfree;
};
