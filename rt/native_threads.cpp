// Threads of a native replay: one thread runs at a time and the recorded
// schedule decides which. Mirrors the scheduling points of the engine
// (Exec::schedPoint, doSchedule, blockOn and the h_mutex_*, h_rw_*, h_cond_*
// handlers); pthread calls of the code under test arrive here via --wrap.
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <unistd.h>

#include <algorithm>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>
#include <vector>

#include "sx.h"

uint64_t sx_next(const char* name);

namespace {
enum class TS { Run, Mutex, Cond, Join, Done };
struct T {
  TS ts = TS::Run;
  const void* waitOn = nullptr;
  bool granted = false, signaled = false;
  sem_t sem;
  void (*f)(void*) = nullptr;
  void* arg = nullptr;
};
std::vector<T*> th;
int cur = 0;
uint64_t preempts = 0;
std::map<const void*, int> owner;
std::map<const void*, int> readers;
thread_local int self = 0;

void init() {
  if (th.empty()) {
    th.push_back(new T);
    sem_init(&th[0]->sem, 0, 0);
  }
}
T& me() {
  init();
  return *th[cur];
}
void fail(const char* m) {
  printf("REPLAY-ASSERT %s\n", m);
  fflush(stdout);
  _exit(99);
}
uint64_t choose(uint64_t n) {
  if (n == 1) return 0;
  uint64_t k = sx_next("sched");
  if (k >= n) {
    printf("REPLAY-MISMATCH sched\n");
    fflush(stdout);
    _exit(76);
  }
  return k;
}
void doSchedule() {
  std::vector<int> cand;
  int before = cur;
  bool run = th[cur]->ts == TS::Run;
  if (run) cand.push_back(cur);
  if (!run || preempts < symx_param("symx_preempt", 2))
    for (size_t i = 0; i < th.size(); i++)
      if ((int)i != cur && th[i]->ts == TS::Run) cand.push_back(i);
  if (cand.empty()) fail("no thread can make progress");
  bool delays = symx_param("symx_delays", 0);
  if (delays) {
    std::rotate(cand.begin() + run, std::find_if(cand.begin() + run, cand.end(), [](int i) { return i > cur; }),
                cand.end());
    if (preempts >= symx_param("symx_preempt", 2)) cand.resize(1);
  }
  uint64_t k = choose(cand.size());
  if (delays ? k > 0 : run && cand[k] != cur) preempts++;
  cur = cand[k];
  if (cur == before) return;
  bool done = th[before]->ts == TS::Done;
  sem_post(&th[cur]->sem);
  if (done) return;
  while (sem_wait(&th[self]->sem)) {
  }
}
bool schedPoint() {
  T& t = me();
  if (th.size() <= 1) return false;
  if (t.granted) {
    t.granted = false;
    return false;
  }
  t.granted = true;
  doSchedule();
  return true;
}
void blockOn(TS ts, const void* what) {
  T& t = me();
  t.ts = ts;
  t.waitOn = what;
  t.granted = true;
  doSchedule();
}
void wake(const void* m) {
  for (auto* t : th)
    if (t->ts == TS::Mutex && t->waitOn == m) t->ts = TS::Run;
}
void* threadStart(void* p) {
  self = (int)(intptr_t)p;
  while (sem_wait(&th[self]->sem)) {
  }
  T& t = *th[self];
  t.f(t.arg);
  t.ts = TS::Done;
  for (auto* o : th)
    if (o->ts == TS::Join && o->waitOn == (void*)(intptr_t)self) o->ts = TS::Run;
  doSchedule();
  return nullptr;
}
}  // namespace

extern "C" {
uint64_t symx_thread_create(void (*f)(void*), void* arg) {
  init();
  int id = th.size();
  T* t = new T;
  t->f = f;
  t->arg = arg;
  sem_init(&t->sem, 0, 0);
  th.push_back(t);
  pthread_t p;
  if (pthread_create(&p, nullptr, threadStart, (void*)(intptr_t)id)) _exit(2);
  pthread_detach(p);
  doSchedule();
  return id;
}
void symx_thread_join(uint64_t id) {
  init();
  while (th[id]->ts != TS::Done) blockOn(TS::Join, (void*)(intptr_t)id);
  me().granted = false;
}
void symx_yield() {
  while (schedPoint()) {
  }
}
int __wrap_sched_yield() {
  symx_yield();
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  for (;;) {
    if (schedPoint()) continue;
    init();
    auto it = owner.find(m);
    if (it == owner.end()) {
      owner[m] = cur + 1;
      return 0;
    }
    if (it->second == cur + 1) fail("mutex locked twice by one thread");
    blockOn(TS::Mutex, m);
  }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  while (schedPoint()) {
  }
  if (owner.count(m)) return 16;
  owner[m] = cur + 1;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  auto it = owner.find(m);
  if (it == owner.end() || it->second != cur + 1) fail("unlock of a mutex not held");
  owner.erase(it);
  wake(m);
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  for (;;) {
    if (schedPoint()) continue;
    init();
    if (owner.count(m)) {
      if (owner[m] == cur + 1) return 35;
      blockOn(TS::Mutex, m);
      continue;
    }
    readers[m]++;
    return 0;
  }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  for (;;) {
    if (schedPoint()) continue;
    init();
    if (owner.count(m) || readers[m]) {
      blockOn(TS::Mutex, m);
      continue;
    }
    owner[m] = cur + 1;
    return 0;
  }
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  auto it = owner.find(m);
  if (it != owner.end()) {
    if (it->second != cur + 1) fail("unlock of a lock not held");
    owner.erase(it);
  } else {
    if (!readers[m]) fail("unlock of a lock not held");
    readers[m]--;
  }
  wake(m);
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  auto it = owner.find(m);
  init();
  if (it == owner.end() || it->second != cur + 1) fail("condition wait without holding the mutex");
  owner.erase(it);
  wake(m);
  blockOn(TS::Cond, c);
  while (owner.count(m)) blockOn(TS::Mutex, m);
  me().signaled = false;
  me().granted = false;
  owner[m] = cur + 1;
  return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  while (schedPoint()) {
  }
  std::vector<int> w;
  for (size_t i = 0; i < th.size(); i++)
    if (th[i]->ts == TS::Cond && th[i]->waitOn == c) w.push_back(i);
  if (w.empty()) return 0;
  int k = w[choose(w.size())];
  th[k]->ts = TS::Run;
  th[k]->signaled = true;
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  while (schedPoint()) {
  }
  for (auto* t : th)
    if (t->ts == TS::Cond && t->waitOn == c) {
      t->ts = TS::Run;
      t->signaled = true;
    }
  return 0;
}
}

namespace std {
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  auto threadMain = [](void* s) {
    auto* st = (_State*)s;
    st->_M_run();
    delete st;
  };
  _M_id = id((__gthread_t)(symx_thread_create(threadMain, s.release()) + 1));
}
void thread::join() {
  symx_thread_join(*(unsigned long*)&_M_id - 1);
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { return 4; }
void condition_variable::wait(unique_lock<mutex>& l) {
  __wrap_pthread_cond_wait((pthread_cond_t*)this, l.mutex()->native_handle());
}
void condition_variable::notify_one() noexcept { __wrap_pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { __wrap_pthread_cond_broadcast((pthread_cond_t*)this); }
}  // namespace std
