/* Schedule noise: every C11 atomic operation of the code under test first
 * calls hk_noise(), which randomly yields, spins or sleeps. Behaviour is
 * unchanged; interleavings get more diverse. */
#ifndef __cplusplus
#include <stdatomic.h>
extern void hk_noise(void) __attribute__((weak));
static __attribute__((always_inline)) inline void hk_noise__(void)
{
    if (hk_noise) {
        hk_noise();
    }
}
#undef atomic_load
#define atomic_load(o) \
    (hk_noise__(), __c11_atomic_load(o, __ATOMIC_SEQ_CST))
#undef atomic_load_explicit
#define atomic_load_explicit(o, m) \
    (hk_noise__(), __c11_atomic_load(o, m))
#undef atomic_store
#define atomic_store(o, d) \
    (hk_noise__(), __c11_atomic_store(o, d, __ATOMIC_SEQ_CST))
#undef atomic_store_explicit
#define atomic_store_explicit(o, d, m) \
    (hk_noise__(), __c11_atomic_store(o, d, m))
#undef atomic_exchange
#define atomic_exchange(o, d) \
    (hk_noise__(), __c11_atomic_exchange(o, d, __ATOMIC_SEQ_CST))
#undef atomic_exchange_explicit
#define atomic_exchange_explicit(o, d, m) \
    (hk_noise__(), __c11_atomic_exchange(o, d, m))
#undef atomic_compare_exchange_strong
#define atomic_compare_exchange_strong(o, e, d) \
    (hk_noise__(), __c11_atomic_compare_exchange_strong(o, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
#undef atomic_compare_exchange_strong_explicit
#define atomic_compare_exchange_strong_explicit(o, e, d, s, f) \
    (hk_noise__(), __c11_atomic_compare_exchange_strong(o, e, d, s, f))
#undef atomic_compare_exchange_weak
#define atomic_compare_exchange_weak(o, e, d) \
    (hk_noise__(), __c11_atomic_compare_exchange_weak(o, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
#undef atomic_compare_exchange_weak_explicit
#define atomic_compare_exchange_weak_explicit(o, e, d, s, f) \
    (hk_noise__(), __c11_atomic_compare_exchange_weak(o, e, d, s, f))
#undef atomic_fetch_add
#define atomic_fetch_add(o, d) \
    (hk_noise__(), __c11_atomic_fetch_add(o, d, __ATOMIC_SEQ_CST))
#undef atomic_fetch_add_explicit
#define atomic_fetch_add_explicit(o, d, m) \
    (hk_noise__(), __c11_atomic_fetch_add(o, d, m))
#undef atomic_fetch_sub
#define atomic_fetch_sub(o, d) \
    (hk_noise__(), __c11_atomic_fetch_sub(o, d, __ATOMIC_SEQ_CST))
#undef atomic_fetch_sub_explicit
#define atomic_fetch_sub_explicit(o, d, m) \
    (hk_noise__(), __c11_atomic_fetch_sub(o, d, m))
#undef atomic_fetch_or
#define atomic_fetch_or(o, d) \
    (hk_noise__(), __c11_atomic_fetch_or(o, d, __ATOMIC_SEQ_CST))
#undef atomic_fetch_or_explicit
#define atomic_fetch_or_explicit(o, d, m) \
    (hk_noise__(), __c11_atomic_fetch_or(o, d, m))
#undef atomic_fetch_and
#define atomic_fetch_and(o, d) \
    (hk_noise__(), __c11_atomic_fetch_and(o, d, __ATOMIC_SEQ_CST))
#undef atomic_fetch_and_explicit
#define atomic_fetch_and_explicit(o, d, m) \
    (hk_noise__(), __c11_atomic_fetch_and(o, d, m))
#undef atomic_fetch_xor
#define atomic_fetch_xor(o, d) \
    (hk_noise__(), __c11_atomic_fetch_xor(o, d, __ATOMIC_SEQ_CST))
#undef atomic_fetch_xor_explicit
#define atomic_fetch_xor_explicit(o, d, m) \
    (hk_noise__(), __c11_atomic_fetch_xor(o, d, m))
#endif
