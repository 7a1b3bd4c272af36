// Runtime library for symbolic execution: what libstdc++, libsupc++ and libc
// provide to the code under test, written so that it can be interpreted.
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeinfo>
#include <unordered_map>

#include "sx.h"

extern "C" {
void symx_unwind(void* hdr, void* obj, void* ti) __attribute__((noreturn));
void symx_abort() __attribute__((noreturn));
}

// ------------------------------------------------------------- allocation ----
void* operator new(size_t n) {
  void* p = symx_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return symx_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return symx_alloc(n); }
void* operator new(size_t n, std::align_val_t) { return operator new(n); }
void* operator new[](size_t n, std::align_val_t) { return operator new(n); }
void operator delete(void* p) noexcept { symx_free(p); }
void operator delete[](void* p) noexcept { symx_free(p); }
void operator delete(void* p, size_t) noexcept { symx_free(p); }
void operator delete[](void* p, size_t) noexcept { symx_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { symx_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { symx_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { symx_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { symx_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { symx_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { symx_free(p); }

// ------------------------------------------------------------- exceptions ----
struct Exc {  // 64 bytes in front of the thrown object (known to the engine)
  void* ti;
  void* adjusted;
  void (*dtor)(void*);
  long refs;
  Exc* nextCaught;
  long handlers;
  long pad[2];
};
static_assert(sizeof(Exc) == 64, "");
static thread_local Exc* caught = nullptr;
static Exc* hdr(void* o) { return (Exc*)((char*)o - sizeof(Exc)); }
static void excRelease(Exc* e) {
  if (--e->refs == 0) {
    if (e->dtor) e->dtor(e + 1);
    symx_free(e);
  }
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept {
  Exc* e = (Exc*)symx_alloc(n + sizeof(Exc));
  memset(e, 0, sizeof(Exc));
  e->refs = 1;
  return e + 1;
}
void __cxa_free_exception(void* o) noexcept { symx_free(hdr(o)); }
void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) {
  Exc* e = hdr(o);
  e->ti = ti;
  e->dtor = d;
  e->adjusted = o;
  symx_unwind(e, o, ti);
}
void* __cxa_begin_catch(void* o) noexcept {
  Exc* e = hdr(o);
  e->handlers++;
  if (caught != e) {
    e->nextCaught = caught;
    caught = e;
  }
  return e->adjusted ? e->adjusted : o;
}
void __cxa_end_catch() {
  Exc* e = caught;
  if (!e) return;
  if (e->handlers < 0) {  // rethrown
    if (++e->handlers == 0) caught = e->nextCaught;
    return;
  }
  if (--e->handlers == 0) {
    caught = e->nextCaught;
    excRelease(e);
  }
}
void __cxa_rethrow() {
  Exc* e = caught;
  if (!e) symx_fail("rethrow without exception");
  e->handlers = -e->handlers;
  symx_unwind(e, e + 1, e->ti);
}
void* __cxa_get_exception_ptr(void* o) noexcept { return hdr(o)->adjusted; }
void __cxa_pure_virtual() { symx_fail("pure virtual function called"); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_alloc(); }
void __cxa_call_unexpected(void*) { symx_fail("unexpected exception"); }
int __cxa_guard_acquire(uint64_t* g) { return *(char*)g == 0; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t*) {}
}

// exception_ptr members live in the library; defined here by mangled name
extern "C" {
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void** p) {
  if (*p) hdr(*p)->refs++;
}
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** p) {
  if (*p) {
    excRelease(hdr(*p));
    *p = nullptr;
  }
}
void _ZNSt15__exception_ptr13exception_ptrC1EPv(void** p, void* o) {
  *p = o;
  if (o) hdr(o)->refs++;
}
void _ZNSt15__exception_ptr13exception_ptrC1ERKS0_(void** p, void** o) {
  *p = *o;
  if (*p) hdr(*p)->refs++;
}
void _ZNSt15__exception_ptr13exception_ptrD1Ev(void** p) {
  if (*p) excRelease(hdr(*p));
  *p = nullptr;
}
}
namespace std {
void terminate() noexcept {
  symx_fail("std::terminate");
  symx_abort();
}
int uncaught_exceptions() noexcept { return 0; }
bool uncaught_exception() noexcept { return false; }
exception_ptr current_exception() noexcept {
  void* o = caught ? (void*)(caught + 1) : nullptr;
  if (o) hdr(o)->refs++;
  exception_ptr r;
  *(void**)&r = o;
  return r;
}
void rethrow_exception(exception_ptr p) {
  void* o = *(void**)&p;
  // rethrown by reference: the pointer keeps its own count
  Exc* e = hdr(o);
  e->refs++;
  e->adjusted = o;
  p.~exception_ptr();
  new (&p) exception_ptr();
  symx_unwind(e, o, e->ti);
}
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
}  // namespace std

static char* dupN(const char* s, size_t n) {
  char* p = (char*)symx_alloc(n + 1);
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
namespace std {
__cow_string::__cow_string() { _M_p = dupN("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = dupN(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dupN(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept {
  _M_p = dupN(o._M_p, strlen(o._M_p));
}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
  if (this != &o) {
    symx_free((void*)_M_p);
    _M_p = dupN(o._M_p, strlen(o._M_p));
  }
  return *this;
}
__cow_string::~__cow_string() { symx_free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept {
  _M_p = o._M_p;
  o._M_p = dupN("", 0);
}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept {
  const char* t = _M_p;
  _M_p = o._M_p;
  o._M_p = t;
  return *this;
}
#define EXC1(T)                                             \
  T::T(const string& s) : _M_msg(s) {}                      \
  T::T(const char* s) : _M_msg(s, strlen(s)) {}             \
  T::T(const T& o) noexcept : _M_msg(o._M_msg) {}           \
  T::T(T&& o) noexcept : _M_msg(std::move(o._M_msg)) {}     \
  T& T::operator=(const T& o) noexcept {                    \
    _M_msg = o._M_msg;                                      \
    return *this;                                           \
  }                                                         \
  T& T::operator=(T&& o) noexcept {                         \
    _M_msg = std::move(o._M_msg);                           \
    return *this;                                           \
  }                                                         \
  T::~T() noexcept {}                                       \
  const char* T::what() const noexcept { return _M_msg._M_p; }
EXC1(logic_error)
EXC1(runtime_error)
#define EXC2(T, B)                       \
  T::T(const string& s) : B(s) {}        \
  T::T(const char* s) : B(s) {}          \
  T::~T() noexcept {}
EXC2(domain_error, logic_error)
EXC2(invalid_argument, logic_error)
EXC2(length_error, logic_error)
EXC2(out_of_range, logic_error)
EXC2(range_error, runtime_error)
EXC2(overflow_error, runtime_error)
EXC2(underflow_error, runtime_error)

void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept {
  symx_fail("libstdc++ assertion");
  symx_abort();
}
}  // namespace std
extern "C" void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept {
  symx_fail(e);
  symx_abort();
}

// ------------------------------------------------------------- containers ----
template class std::basic_string<char>;

namespace std {
namespace __detail {
static const unsigned long primes[] = {2ul, 3ul, 5ul, 7ul, 11ul, 13ul, 17ul, 19ul, 23ul, 29ul, 31ul,
    37ul, 41ul, 43ul, 47ul, 53ul, 59ul, 67ul, 79ul, 97ul, 127ul, 157ul, 199ul, 257ul, 331ul, 409ul,
    541ul, 701ul, 907ul, 1171ul, 1511ul, 1949ul, 2503ul, 3229ul, 4157ul, 5347ul, 6869ul, 8821ul,
    11351ul, 14593ul, 18773ul};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (auto p : primes)
    if (p >= n) {
      _M_next_resize = p;
      return p;
    }
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) {
    size_t want = elt + ins;
    if (_M_next_resize == 0 && want < 11) want = 11;
    if (want >= bkt) {
      size_t w2 = bkt * 2;
      if (want + 1 > w2) w2 = want + 1;
      return {true, _M_next_bkt(w2)};
    }
    _M_next_resize = bkt;
    return {false, 0};
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* p) noexcept {
  _M_next = p;
  _M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_prev->_M_next = _M_next;
  _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this;
  f->_M_prev->_M_next = l;
  this->_M_prev->_M_next = f;
  auto* t = this->_M_prev;
  this->_M_prev = l->_M_prev;
  l->_M_prev = f->_M_prev;
  f->_M_prev = t;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  _List_node_base t = x;
  bool xe = x._M_next == &x, ye = y._M_next == &y;
  if (ye) x._M_next = x._M_prev = &x;
  else {
    x = y;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
  }
  if (xe) y._M_next = y._M_prev = &y;
  else {
    y = t;
    y._M_next->_M_prev = y._M_prev->_M_next = &y;
  }
}
}  // namespace __detail
// Depends on the length only: a valid hash function that keeps symbolic bytes
// out of the bucket numbers (and makes collisions the usual case).
size_t _Hash_bytes(const void*, size_t n, size_t seed) { return seed + n; }

// red-black tree: an unbalanced binary search tree behaves the same
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    auto* y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) {
    x = x->_M_right;
  } else if (x->_M_left) {
    auto* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    auto* y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left)
      h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z,
                                                 _Rb_tree_node_base& h) throw() {
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
    if (h._M_parent == a) h._M_parent = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    auto* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      repl(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    repl(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  auto* r = h._M_parent;
  if (!r) {
    h._M_left = h._M_right = &h;
  } else {
    auto* a = r;
    while (a->_M_left) a = a->_M_left;
    h._M_left = a;
    a = r;
    while (a->_M_right) a = a->_M_right;
    h._M_right = a;
  }
  return z;
}
}  // namespace std

// ---------------------------------------------------------------- threads ----
#include <pthread.h>
static void threadMain(void* s) {
  auto* st = (std::thread::_State*)s;
  st->_M_run();
  delete st;
}
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  _M_id = id((__gthread_t)(symx_thread_create(threadMain, s.release()) + 1));
}
void thread::join() {
  symx_thread_join(*(unsigned long*)&_M_id - 1);
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { return 4; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) {
  pthread_cond_wait((pthread_cond_t*)this, l.mutex()->native_handle());
}
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)this); }
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1000000)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000)); }
}  // namespace _V2
}  // namespace chrono
}  // namespace std
