H(h_symbolic)
H(h_range)
H(h_choice)
H(h_concretize)
H(h_assume)
H(h_assert)
H(h_cover)
H(h_observe)
H(h_param)
H(h_native)
H(h_unwind)
H(h_dyncast)
H(h_malloc)
H(h_calloc)
H(h_free)
H(h_memcpy)
H(h_memset)
H(h_memcmp)
H(h_abort)
H(h_nop)
H(h_zero)
H(h_typename)
H(h_thread_create)
H(h_thread_join)
H(h_mutex_lock)
H(h_mutex_trylock)
H(h_mutex_unlock)
H(h_rw_rdlock)
H(h_rw_wrlock)
H(h_rw_unlock)
H(h_cond_wait)
H(h_cond_signal)
H(h_cond_broadcast)
H(h_self)
H(h_yield)
H(h_futex_wait)
H(h_futex_wake)
H(h_print)
H(h_libm)
H(h_fail)
H(h_endpath)
H(h_is_symbolic)
H(h_is_valid)
H(h_heapcount)
H(h_unsupported)
H(h_fmtdouble)
