// Instrumentation callbacks: z5 is compiled with -fsanitize=thread, but linked against these
// functions instead of libtsan. Every memory access is a potential preemption point.
#include "internal.h"
using sim::memEvent;
typedef unsigned __int128 u128;
static inline void ev(void * p) { if(__builtin_expect(sim::guardChecks, 0)) sim::checkAccess(p); memEvent(); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define A(n) void __tsan_read##n(void * p) { ev(p); } void __tsan_write##n(void * p) { ev(p); } \
    void __tsan_unaligned_read##n(void * p) { ev(p); } void __tsan_unaligned_write##n(void * p) { ev(p); } \
    void __tsan_volatile_read##n(void * p) { ev(p); } void __tsan_volatile_write##n(void * p) { ev(p); } \
    void __tsan_unaligned_volatile_read##n(void * p) { ev(p); } void __tsan_unaligned_volatile_write##n(void * p) { ev(p); } \
    void __tsan_read_write##n(void * p) { ev(p); } void __tsan_unaligned_read_write##n(void * p) { ev(p); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *, long) { memEvent(); }
void __tsan_write_range(void *, long) { memEvent(); }
void __tsan_vptr_update(void **, void *) { memEvent(); }
void __tsan_vptr_read(void **) { memEvent(); }
// every atomic operation is a synchronisation point
static inline void sp() { sim::yieldPoint(2 - 2); }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T * a, int) { sp(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T * a, T v, int) { sp(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T * a, T v, int) { sp(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T * a, T v, int) { sp(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T * a, T v, int) { sp(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T * a, T v, int) { sp(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T * a, T v, int) { sp(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T * a, T v, int) { sp(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T * a, T v, int) { sp(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { sp(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { sp(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T * a, T c, T v, int, int) { sp(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { sp(); }
void __tsan_atomic_signal_fence(int) {}
}
