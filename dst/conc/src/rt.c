// What the compiler's thread instrumentation calls. In the library, on a simulated thread,
// every atomic operation and memory access goes to the simulator; everywhere else the
// operation is simply done.
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <time.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define TLS static __thread __attribute__((tls_model("initial-exec")))
TLS int on;               // in the library, on a simulated thread
TLS int sim;              // this is a simulated thread
TLS uintptr_t lo, hi;     // its stack

extern void dst_access(uintptr_t a, size_t n, int write);
extern uint64_t dst_atomic(int kind, uintptr_t a, int size, uint64_t x, uint64_t y, int mo, int fmo, uintptr_t pc);
extern void dst_fence_at(int mo);
extern int dst_futex_wait(uintptr_t a, uint32_t val, int timed);
extern int dst_futex_wake(uintptr_t a, uint32_t n);
extern void dst_yield(uint64_t ns);
extern uint64_t dst_clock(void);

void dst_thread(int s, uintptr_t l, uintptr_t h) { sim = s; lo = l; hi = h; on = 0; }
void dst_in_lib(int v) { on = sim && v; }
int dst_is_sim(void) { return sim; }
// Harness code entered without a change of owner (the allocator).
int dst_off(void) { int was = on; on = 0; return was; }
void dst_back(int was) { on = was; }

static inline void acc(uintptr_t a, size_t n, int w) {
    if (!on || (a >= lo && a < hi) || n == 0) return;
    on = 0;
    dst_access(a, n, w);
    on = 1;
}

#define ACC(n) \
    void __tsan_read##n(void *p) { acc((uintptr_t)p, n, 0); } \
    void __tsan_write##n(void *p) { acc((uintptr_t)p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { acc((uintptr_t)p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { acc((uintptr_t)p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { acc((uintptr_t)p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { acc((uintptr_t)p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { acc((uintptr_t)p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { acc((uintptr_t)p, n, 1); } \
    void __tsan_read_write##n(void *p) { acc((uintptr_t)p, n, 0); acc((uintptr_t)p, n, 1); } \
    void __tsan_unaligned_read_write##n(void *p) { acc((uintptr_t)p, n, 0); acc((uintptr_t)p, n, 1); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)

void __tsan_read_range(void *p, long n) { acc((uintptr_t)p, n, 0); }
void __tsan_write_range(void *p, long n) { acc((uintptr_t)p, n, 1); }
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_read(void *p) { acc((uintptr_t)p, 8, 0); }
void __tsan_vptr_update(void *p, void *v) { (void)v; acc((uintptr_t)p, 8, 1); }

void *__tsan_memcpy(void *d, const void *s, size_t n) {
    acc((uintptr_t)s, n, 0);
    acc((uintptr_t)d, n, 1);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    acc((uintptr_t)s, n, 0);
    acc((uintptr_t)d, n, 1);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    acc((uintptr_t)d, n, 1);
    return memset(d, c, n);
}

enum { LOAD, STORE, XCHG, ADD, SUB, AND, OR, XOR, NAND, CAS };

static inline int mine(const volatile void *p) {
    return on && !((uintptr_t)p >= lo && (uintptr_t)p < hi);
}
#define PC ((uintptr_t)__builtin_return_address(0))

static uint64_t go(int kind, const volatile void *p, int size, uint64_t x, uint64_t y, int mo, int fmo, uintptr_t pc) {
    on = 0;
    uint64_t r = dst_atomic(kind, (uintptr_t)p, size, x, y, mo, fmo, pc);
    on = 1;
    return r;
}

#define RMW(b, t, name, kind, builtin) \
    t __tsan_atomic##b##_##name(volatile t *p, t v, int mo) { \
        if (mine(p)) return (t)go(kind, p, b / 8, v, 0, mo, 0, PC); \
        return builtin(p, v, __ATOMIC_SEQ_CST); }

#define ATOMIC(b, t) \
    t __tsan_atomic##b##_load(const volatile t *p, int mo) { \
        if (mine(p)) return (t)go(LOAD, p, b / 8, 0, 0, mo, 0, PC); \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile t *p, t v, int mo) { \
        if (mine(p)) { go(STORE, p, b / 8, v, 0, mo, 0, PC); return; } \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    RMW(b, t, exchange, XCHG, __atomic_exchange_n) \
    RMW(b, t, fetch_add, ADD, __atomic_fetch_add) \
    RMW(b, t, fetch_sub, SUB, __atomic_fetch_sub) \
    RMW(b, t, fetch_and, AND, __atomic_fetch_and) \
    RMW(b, t, fetch_or, OR, __atomic_fetch_or) \
    RMW(b, t, fetch_xor, XOR, __atomic_fetch_xor) \
    RMW(b, t, fetch_nand, NAND, __atomic_fetch_nand) \
    t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t c, t v, int mo, int fmo) { \
        if (mine(p)) return (t)go(CAS, p, b / 8, c, v, mo, fmo, PC); \
        __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *c, t v, int mo, int fmo) { \
        if (mine(p)) { t o = (t)go(CAS, p, b / 8, *c, v, mo, fmo, PC); if (o == *c) return 1; *c = o; return 0; } \
        return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *c, t v, int mo, int fmo) { \
        return __tsan_atomic##b##_compare_exchange_strong(p, c, v, mo, fmo); }

ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
    if (on) {
        on = 0;
        dst_fence_at(mo);
        on = 1;
    } else {
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
    }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---------------------------------------------------------------- what the C library is asked

long dst_raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long r;
    if (sim && n == SYS_futex) {
        int was = on;
        on = 0;
        int op = (int)b & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            r = dst_futex_wait((uintptr_t)a, (uint32_t)c, d != 0);
        else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            r = dst_futex_wake((uintptr_t)a, (uint32_t)c);
        else
            r = -ENOSYS;
        on = was;
    } else {
        r = dst_raw(n, a, b, c, d, e, f);
    }
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

static long ret(long r) {
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

int sched_yield(void) {
    if (sim) {
        int was = on;
        on = 0;
        dst_yield(0);
        on = was;
        return 0;
    }
    return (int)ret(dst_raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}

int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (sim) {
        int was = on;
        on = 0;
        dst_yield((uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec);
        on = was;
        return 0;
    }
    return (int)ret(dst_raw(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0));
}

int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
    if (sim) {
        int was = on;
        on = 0;
        dst_yield(1000000);
        on = was;
        return 0;
    }
    return (int)-dst_raw(SYS_clock_nanosleep, c, flags, (long)t, (long)rem, 0, 0);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    if (sim) {
        int was = on;
        on = 0;
        uint64_t x = dst_clock();
        on = was;
        t->tv_sec = (time_t)(1000000 + x / 1000000000ull);
        t->tv_nsec = (long)(x % 1000000000ull);
        return 0;
    }
    return (int)ret(dst_raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
}

void dst_wait(volatile uint32_t *p, uint32_t v) { dst_raw(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
void dst_wake(volatile uint32_t *p) { dst_raw(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }
long dst_pin(int cpu) {
    unsigned long m[16];
    memset(m, 0, sizeof m);
    long n = dst_raw(SYS_sched_getaffinity, 0, sizeof m, (long)m, 0, 0, 0);
    if (n <= 0) return -1;
    int have = 0;
    for (int i = 0; i < 1024; i++) if (m[i / 64] >> (i % 64) & 1) have++;
    if (!have) return -1;
    int want = cpu % have, k = 0;
    unsigned long s[16];
    memset(s, 0, sizeof s);
    for (int i = 0; i < 1024; i++)
        if (m[i / 64] >> (i % 64) & 1) {
            if (k == want) s[i / 64] = 1ul << (i % 64);
            k++;
        }
    return dst_raw(SYS_sched_setaffinity, 0, sizeof s, (long)s, 0, 0, 0);
}
