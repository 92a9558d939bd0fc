// Per-rank runtime seam: OpenMP, the compiler's memory-access instrumentation (-fsanitize=thread ABI),
// files, clocks, entropy, locks and process exit, all forwarded to the simulator host.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

#define X extern "C" __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

extern "C" {
const SimApi *A = nullptr;
int g_rank = -1;
SimHot g_hot = {0, -1, (int64_t)1 << 62, 0};
}
extern "C" void *__cxa_get_globals(void);
X void *sim_attach(const SimApi *api, int rank, SimHot **hot, void **eh, int **err) {
    A = api; g_rank = rank; *hot = &g_hot; *eh = (void *)&__cxa_get_globals; *err = &errno; return nullptr;
}

// ------------------------------------------------------------------ OpenMP
typedef void (*Fn)(void *);
X void GOMP_parallel(Fn f, void *d, unsigned n, unsigned) { A->par(f, d, n); }
struct WS { Fn f; void *d; long s, e, i, c; int k; };
static void wsTramp(void *p) { WS *w = (WS *)p; A->ws_start(w->s, w->e, w->i, w->c, w->k, nullptr, nullptr, nullptr, 0); w->f(w->d); }
#define PARLOOP(name, kind)                                                                                             \
    X void name(Fn f, void *d, unsigned n, long s, long e, long i, long c, unsigned) { WS w = {f, d, s, e, i, c, kind}; A->par(wsTramp, &w, n); }
PARLOOP(GOMP_parallel_loop_static, 0) PARLOOP(GOMP_parallel_loop_dynamic, 1) PARLOOP(GOMP_parallel_loop_guided, 1)
PARLOOP(GOMP_parallel_loop_nonmonotonic_dynamic, 1) PARLOOP(GOMP_parallel_loop_nonmonotonic_guided, 1)
X void GOMP_parallel_loop_runtime(Fn f, void *d, unsigned n, long s, long e, long i, unsigned) { WS w = {f, d, s, e, i, 1, 1}; A->par(wsTramp, &w, n); }
X void GOMP_parallel_loop_maybe_nonmonotonic_runtime(Fn f, void *d, unsigned n, long s, long e, long i, unsigned) { WS w = {f, d, s, e, i, 1, 1}; A->par(wsTramp, &w, n); }
X void GOMP_parallel_loop_nonmonotonic_runtime(Fn f, void *d, unsigned n, long s, long e, long i, unsigned) { WS w = {f, d, s, e, i, 1, 1}; A->par(wsTramp, &w, n); }
#define LOOP(pre, kind)                                                                                                 \
    X bool pre##_start(long s, long e, long i, long c, long *lo, long *hi) { return A->ws_start(s, e, i, c, kind, lo, hi, nullptr, 0); } \
    X bool pre##_next(long *lo, long *hi) { return A->ws_next(lo, hi); }
LOOP(GOMP_loop_static, 0) LOOP(GOMP_loop_dynamic, 1) LOOP(GOMP_loop_guided, 1) LOOP(GOMP_loop_nonmonotonic_dynamic, 1)
LOOP(GOMP_loop_nonmonotonic_guided, 1) LOOP(GOMP_loop_ordered_static, 2) LOOP(GOMP_loop_ordered_dynamic, 2) LOOP(GOMP_loop_ordered_guided, 2)
#define RLOOP(pre)                                                                                                      \
    X bool pre##_start(long s, long e, long i, long *lo, long *hi) { return A->ws_start(s, e, i, 1, 1, lo, hi, nullptr, 0); } \
    X bool pre##_next(long *lo, long *hi) { return A->ws_next(lo, hi); }
RLOOP(GOMP_loop_runtime) RLOOP(GOMP_loop_maybe_nonmonotonic_runtime) RLOOP(GOMP_loop_nonmonotonic_runtime)
#define ULOOP(pre)                                                                                                      \
    X bool pre##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *lo, unsigned long long *hi) { return A->ws_start((long)s, (long)e, (long)i, (long)c, 1, (long *)lo, (long *)hi, nullptr, 0); } \
    X bool pre##_next(unsigned long long *lo, unsigned long long *hi) { return A->ws_next((long *)lo, (long *)hi); }
ULOOP(GOMP_loop_ull_static) ULOOP(GOMP_loop_ull_dynamic) ULOOP(GOMP_loop_ull_guided) ULOOP(GOMP_loop_ull_nonmonotonic_dynamic) ULOOP(GOMP_loop_ull_nonmonotonic_guided)
X bool GOMP_loop_start(long s, long e, long i, long, long c, long *lo, long *hi, uintptr_t *, void **mem) { return A->ws_start(s, e, i, c, 1, lo, hi, nullptr, 0); }
X void GOMP_loop_end(void) { A->ws_end(0); }
X void GOMP_loop_end_nowait(void) { A->ws_end(1); }
X unsigned GOMP_sections_start(unsigned n) { long lo, hi; return A->ws_start(1, (long)n + 1, 1, 1, 1, &lo, &hi, nullptr, 0) ? (unsigned)lo : 0; }
X unsigned GOMP_sections_next(void) { long lo, hi; return A->ws_next(&lo, &hi) ? (unsigned)lo : 0; }
X void GOMP_sections_end(void) { A->ws_end(0); }
X void GOMP_sections_end_nowait(void) { A->ws_end(1); }
X void GOMP_parallel_sections(Fn f, void *d, unsigned n, unsigned cnt, unsigned) { WS w = {f, d, 1, (long)cnt + 1, 1, 1, 1}; A->par(wsTramp, &w, n); }
X void GOMP_barrier(void) { A->barrier(); }
X bool GOMP_single_start(void) { return A->single_start(); }
static char crit0, atom0;
static void *copyData;
X void GOMP_critical_start(void) { A->crit_enter(&crit0); }
X void GOMP_critical_end(void) { A->crit_leave(&crit0); }
X void GOMP_critical_name_start(void **p) { A->crit_enter((void *)p); }
X void GOMP_critical_name_end(void **p) { A->crit_leave((void *)p); }
X void GOMP_atomic_start(void) { A->crit_enter(&atom0); }
X void GOMP_atomic_end(void) { A->crit_leave(&atom0); }
X void GOMP_ordered_start(void) { A->ordered_start(); }
X void GOMP_ordered_end(void) { A->ordered_end(); }
X void GOMP_task(Fn f, void *d, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int) {
    if (cpy) { char *b = (char *)malloc(sz + al); char *q = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(q, d); f(q); free(b); } else f(d);
}
X void GOMP_taskwait(void) {}
X void GOMP_taskyield(void) {}
X void GOMP_taskgroup_start(void) {}
X void GOMP_taskgroup_end(void) {}
X void *GOMP_single_copy_start(void) { if (A->single_start()) return nullptr; A->barrier(); return copyData; }
X void GOMP_single_copy_end(void *d) { copyData = d; A->barrier(); }
X int omp_test_lock(void *l) { A->crit_enter(l); return 1; }
X int omp_get_ancestor_thread_num(int l) { return l <= 0 ? 0 : A ? A->tid() : 0; }
X int omp_get_team_size(int l) { return l <= 0 ? 1 : A ? A->team_size() : 1; }
X void omp_get_schedule(int *k, int *c) { *k = 1; *c = 0; }
X void omp_set_schedule(int, int) {}
X int omp_get_max_threads(void) { return A ? A->omp_threads() : 1; }
X int omp_get_num_threads(void) { return A ? A->team_size() : 1; }
X int omp_get_thread_num(void) { return A ? A->tid() : 0; }
X int omp_in_parallel(void) { return A ? A->team_size() > 1 : 0; }
X int omp_get_num_procs(void) { return A ? A->omp_threads() : 1; }
X int omp_get_level(void) { return A ? A->level() : 0; }
X int omp_get_active_level(void) { return A ? A->team_size() > 1 : 0; }
X int omp_get_thread_limit(void) { return 64; }
X int omp_get_dynamic(void) { return 0; }
X int omp_get_nested(void) { return 0; }
X int omp_get_max_active_levels(void) { return 1; }
X void omp_set_num_threads(int n) { if (A) A->set_threads(n); }
X void omp_set_dynamic(int) {}
X void omp_set_nested(int) {}
X void omp_set_max_active_levels(int) {}
X int omp_get_cancellation(void) { return 0; }
X double omp_get_wtime(void) { return A ? A->now_ns() * 1e-9 : 0; }
X double omp_get_wtick(void) { return 1e-9; }
X void omp_init_lock(void *l) { *(char *)l = 0; }
X void omp_destroy_lock(void *) {}
X void omp_set_lock(void *l) { A->crit_enter(l); }
X void omp_unset_lock(void *l) { A->crit_leave(l); }
X void omp_init_nest_lock(void *l) { *(char *)l = 0; }
X void omp_destroy_nest_lock(void *) {}

// ------------------------------------------------------------------ memory-access instrumentation
#define ACC(p, n, w) do { if (unlikely(g_hot.in_par)) A->access((const void *)(p), n, w, __builtin_return_address(0)); } while (0)
X void __tsan_init(void) {}
X void __tsan_func_entry(void *) { if (unlikely(--g_hot.fuel < 0)) { if (A) A->budget(); else g_hot.fuel = (int64_t)1 << 60; } }
X void __tsan_func_exit(void) {}
#define RW(n) X void __tsan_read##n(void *p) { ACC(p, n, 0); } X void __tsan_write##n(void *p) { ACC(p, n, 1); } \
    X void __tsan_unaligned_read##n(void *p) { ACC(p, n, 0); } X void __tsan_unaligned_write##n(void *p) { ACC(p, n, 1); } \
    X void __tsan_volatile_read##n(void *p) { ACC(p, n, 0); } X void __tsan_volatile_write##n(void *p) { ACC(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
X void __tsan_read_range(void *p, unsigned long n) { ACC(p, n, 0); }
X void __tsan_write_range(void *p, unsigned long n) { ACC(p, n, 1); }
X void __tsan_vptr_update(void **p, void *) { ACC(p, 8, 1); }
X void __tsan_vptr_read(void **p) { ACC(p, 8, 0); }
#define AT(p, n) do { if (unlikely(g_hot.in_par)) A->atomic((const void *)(p), n, __builtin_return_address(0)); } while (0)
#define ATOM(bits, T)                                                                                                    \
    X T __tsan_atomic##bits##_load(const volatile T *a, int) { AT(a, bits / 8); return __atomic_load_n(a, 5); }            \
    X void __tsan_atomic##bits##_store(volatile T *a, T v, int) { AT(a, bits / 8); __atomic_store_n(a, v, 5); }            \
    X T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { AT(a, bits / 8); return __atomic_exchange_n(a, v, 5); }  \
    X T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { AT(a, bits / 8); return __atomic_fetch_add(a, v, 5); }  \
    X T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { AT(a, bits / 8); return __atomic_fetch_sub(a, v, 5); }  \
    X T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { AT(a, bits / 8); return __atomic_fetch_and(a, v, 5); }  \
    X T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { AT(a, bits / 8); return __atomic_fetch_or(a, v, 5); }    \
    X T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { AT(a, bits / 8); return __atomic_fetch_xor(a, v, 5); }  \
    X T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { AT(a, bits / 8); return __atomic_fetch_nand(a, v, 5); }\
    X int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { AT(a, bits / 8); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    X int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { AT(a, bits / 8); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }   \
    X T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { AT(a, bits / 8); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
X void __tsan_atomic_thread_fence(int) {}
X void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ heap
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
X void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (p) {
        if (g_hot.poison >= 0 && n <= (1u << 20)) memset(p, g_hot.poison, n);
        if (unlikely(g_hot.in_par)) A->fresh(p, n);
    }
    return p;
}
X void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p && unlikely(g_hot.in_par)) A->fresh(p, a * b); return p; }
X void *realloc(void *o, size_t n) { void *p = __libc_realloc(o, n); if (p && unlikely(g_hot.in_par)) A->fresh(p, n); return p; }
X void free(void *p) { __libc_free(p); }
X void *memalign(size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (p) { if (g_hot.poison >= 0 && n <= (1u << 20)) memset(p, g_hot.poison, n); if (unlikely(g_hot.in_par)) A->fresh(p, n); }
    return p;
}
X void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
X int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }

// ------------------------------------------------------------------ locks, once, static-init guards
X int __cxa_guard_acquire(unsigned char *g) {
    for (;;) {
        if (g[0]) { if (g_hot.in_par) A->acq(g); return 0; }
        if (!g[1]) { g[1] = 1; return 1; }
        A->wait_word(g + 1, 1);
    }
}
X void __cxa_guard_release(unsigned char *g) { if (g_hot.in_par) A->rel(g); g[0] = 1; g[1] = 0; }
X void __cxa_guard_abort(unsigned char *g) { g[1] = 0; }
struct Mx { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static int me() { return A ? A->tid() + 1 : 1; }
X int pthread_mutex_lock(pthread_mutex_t *m_) {
    Mx *m = (Mx *)m_;
    if (m->lock && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->owner == me()) { m->count++; return 0; }
    while (m->lock) { if (!A) abort(); A->wait_word((const volatile unsigned char *)&m->lock, 1); }
    m->lock = 1; m->owner = me(); m->count = 1; if (g_hot.in_par) A->acq(m); return 0;
}
X int pthread_mutex_trylock(pthread_mutex_t *m_) {
    Mx *m = (Mx *)m_;
    if (m->lock) { if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->owner == me()) { m->count++; return 0; } return EBUSY; }
    m->lock = 1; m->owner = me(); m->count = 1; if (g_hot.in_par) A->acq(m); return 0;
}
X int pthread_mutex_unlock(pthread_mutex_t *m_) {
    Mx *m = (Mx *)m_; if (m->count > 1) { m->count--; return 0; }
    if (g_hot.in_par) A->rel(m); m->count = 0; m->owner = 0; m->lock = 0; return 0;
}
X int pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) {
    if (A) A->mpi_error("HARNESS uncontrolled thread creation"); return EAGAIN;
}

// ------------------------------------------------------------------ clocks, entropy
X int clock_gettime(clockid_t, struct timespec *t) noexcept { uint64_t n = A ? A->now_ns() : 0; t->tv_sec = 1600000000 + n / 1000000000u; t->tv_nsec = n % 1000000000u; return 0; }
X int gettimeofday(struct timeval *t, void *) noexcept { uint64_t n = A ? A->now_ns() : 0; t->tv_sec = 1600000000 + n / 1000000000u; t->tv_usec = n / 1000 % 1000000u; return 0; }
X time_t time(time_t *o) noexcept { time_t v = 1600000000 + (A ? A->now_ns() : 0) / 1000000000u; if (o) *o = v; return v; }
X clock_t clock(void) noexcept { return (A ? A->now_ns() : 0) / 1000; }
X int nanosleep(const struct timespec *t, struct timespec *) { if (A) { A->advance_ns(t->tv_sec * 1000000000ull + t->tv_nsec); A->yield(9); } return 0; }
X int clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { return nanosleep(t, nullptr); }
X int usleep(useconds_t u) { if (A) { A->advance_ns(u * 1000ull); A->yield(9); } return 0; }
X unsigned sleep(unsigned s) { if (A) { A->advance_ns(s * 1000000000ull); A->yield(9); } return 0; }
X int sched_yield(void) noexcept { if (A) A->yield(9); return 0; }
X ssize_t getrandom(void *b, size_t n, unsigned) { unsigned char *p = (unsigned char *)b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(A ? A->entropy() : i); return (ssize_t)n; }
X unsigned arc4random(void) noexcept { return A ? (unsigned)A->entropy() : 4; }
// std::random_device
X void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {}
X void _ZNSt13random_device7_M_initERKSs(void *, const void *) {}
X void _ZNSt13random_device16_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {}
X void _ZNSt13random_device7_M_finiEv(void *) {}
X unsigned _ZNSt13random_device9_M_getvalEv(void *) { return A ? (unsigned)A->entropy() : 5; }
X unsigned _ZNSt13random_device16_M_getval_pretr1Ev(void *) { return A ? (unsigned)A->entropy() : 5; }

// ------------------------------------------------------------------ process
X void exit(int c) noexcept { if (A) A->proc_exit(c, "exit"); _exit(c); __builtin_unreachable(); }
X void abort(void) noexcept { if (A) A->proc_exit(134, "abort"); syscall(SYS_exit_group, 134); __builtin_unreachable(); }
X void quick_exit(int c) noexcept { if (A) A->proc_exit(c, "quick_exit"); _exit(c); __builtin_unreachable(); }
X void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept {
    char b[512]; snprintf(b, sizeof b, "assert(%s) at %s:%u", e, f, l); if (A) A->proc_exit(134, b); syscall(SYS_exit_group, 134); __builtin_unreachable();
}

// ------------------------------------------------------------------ files
static char g_cwd[512];
static const char *simpath(const char *p) { // nullptr: a real path
    if (!A || !p) return nullptr;
    if (p[0] != '/') return p;
    if (!g_cwd[0] && syscall(SYS_getcwd, g_cwd, sizeof g_cwd) < 0) return nullptr;
    size_t n = strlen(g_cwd);
    if (n > 1 && !strncmp(p, g_cwd, n) && (p[n] == '/' || !p[n])) return p[n] ? p + n + 1 : ".";
    return nullptr;
}
static int oflags(const char *m) {
    int f = (m[0] == 'r') ? O_RDONLY : (m[0] == 'w') ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
    if (strchr(m, '+')) f = (f & ~(O_WRONLY | O_RDONLY)) | O_RDWR;
    if (strchr(m, 'x')) f |= O_EXCL;
    return f;
}
static struct { FILE *f; int fd; } g_files[256];
struct Ck { int fd; };
static ssize_t ckRead(void *c, char *b, size_t n) { ssize_t k = A->f_read(((Ck *)c)->fd, b, n); if (k < 0) { errno = (int)-k; return -1; } return k; }
static ssize_t ckWrite(void *c, const char *b, size_t n) { // the kernel-facing loop stdio runs
    size_t done = 0;
    while (done < n) { ssize_t k = A->f_write(((Ck *)c)->fd, b + done, n - done); if (k < 0) { errno = (int)-k; return (ssize_t)done; } done += k; }
    return (ssize_t)done;
}
static int ckSeek(void *c, off64_t *o, int wh) { off_t r = A->f_seek(((Ck *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void *c) {
    int fd = ((Ck *)c)->fd; free(c); for (auto &e : g_files) if (e.f && e.fd == fd) e.f = nullptr; return A->f_close(fd);
}
static FILE *fopenImpl(const char *p, const char *m) {
    const char *s = simpath(p);
    if (!s) {
        if (A && (m[0] != 'r' || strchr(m, '+'))) { errno = EACCES; return nullptr; }
        int fd = (int)syscall(SYS_openat, AT_FDCWD, p, A ? O_RDONLY : oflags(m), 0644); return fd < 0 ? nullptr : fdopen(fd, m);
    }
    int fd = A->f_open(s, oflags(m), 0644); if (fd < 0) { errno = -fd; return nullptr; }
    Ck *c = (Ck *)malloc(sizeof(Ck)); c->fd = fd;
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    FILE *f = fopencookie(c, m, io);
    for (auto &e : g_files) if (!e.f) { e.f = f; e.fd = fd; break; }
    return f;
}
X FILE *fopen(const char *p, const char *m) { return fopenImpl(p, m); }
X FILE *fopen64(const char *p, const char *m) { return fopenImpl(p, m); }
X int fileno(FILE *f) noexcept { for (auto &e : g_files) if (e.f == f) return e.fd; return f->_fileno; }
static int openImpl(const char *p, int fl, int mode) {
    const char *s = simpath(p);
    if (!s) { if (A && (fl & O_ACCMODE) != O_RDONLY) { errno = EACCES; return -1; } return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode); }
    int fd = A->f_open(s, fl, mode); if (fd < 0) { errno = -fd; return -1; } return fd;
}
X int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return openImpl(p, fl, m); }
X int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return openImpl(p, fl, m); }
X int creat(const char *p, mode_t m) { return openImpl(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
#define SIMFD(fd) (A && (fd) >= SIM_FD_BASE)
static ssize_t rc(ssize_t r) { if (r < 0) { errno = (int)-r; return -1; } return r; }
X int close(int fd) { return SIMFD(fd) ? A->f_close(fd) : (int)syscall(SYS_close, fd); }
X ssize_t read(int fd, void *b, size_t n) { return SIMFD(fd) ? rc(A->f_read(fd, b, n)) : syscall(SYS_read, fd, b, n); }
X ssize_t write(int fd, const void *b, size_t n) { return SIMFD(fd) ? rc(A->f_write(fd, b, n)) : syscall(SYS_write, fd, b, n); }
X ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!SIMFD(fd)) return syscall(SYS_writev, fd, v, n);
    size_t tot = 0; for (int i = 0; i < n; i++) tot += v[i].iov_len;
    char *t = (char *)malloc(tot + 1), *q = t; for (int i = 0; i < n; i++) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
    ssize_t r = A->f_write(fd, t, tot); free(t); return rc(r);
}
X ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!SIMFD(fd)) return syscall(SYS_readv, fd, v, n);
    ssize_t tot = 0; for (int i = 0; i < n; i++) { ssize_t k = A->f_read(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return tot ? tot : rc(k); tot += k; if ((size_t)k < v[i].iov_len) break; } return tot;
}
X off_t lseek(int fd, off_t o, int w) noexcept { return SIMFD(fd) ? rc(A->f_seek(fd, o, w)) : syscall(SYS_lseek, fd, o, w); }
X off64_t lseek64(int fd, off64_t o, int w) noexcept { return SIMFD(fd) ? rc(A->f_seek(fd, o, w)) : syscall(SYS_lseek, fd, o, w); }
X int stat(const char *p, struct stat *st) noexcept { const char *s = simpath(p); return s ? (int)rc(A->f_stat(s, st)) : (int)syscall(SYS_stat, p, st); }
X int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
X int lstat(const char *p, struct stat *st) noexcept { return stat(p, st); }
X int lstat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
X int fstat(int fd, struct stat *st) noexcept { return SIMFD(fd) ? (int)rc(A->f_fstat(fd, st)) : (int)syscall(SYS_fstat, fd, st); }
X int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
X int access(const char *p, int m) noexcept { const char *s = simpath(p); struct stat st; return s ? (int)rc(A->f_stat(s, &st)) : (int)syscall(SYS_access, p, m); }
X int mkdir(const char *p, mode_t) noexcept { const char *s = simpath(p); if (!s) { errno = EACCES; return -1; } return (int)rc(A->f_mkdir(s)); }
X int rename(const char *a, const char *b) noexcept { const char *s = simpath(a), *t = simpath(b); if (!s || !t) { errno = EACCES; return -1; } return (int)rc(A->f_rename(s, t)); }
X int unlink(const char *p) noexcept { const char *s = simpath(p); if (!s) { errno = EACCES; return -1; } return (int)rc(A->f_unlink(s, 0)); }
X int rmdir(const char *p) noexcept { const char *s = simpath(p); if (!s) { errno = EACCES; return -1; } return (int)rc(A->f_unlink(s, 1)); }
X int remove(const char *p) noexcept { const char *s = simpath(p); if (!s) { errno = EACCES; return -1; } int r = (int)rc(A->f_unlink(s, 0)); return r < 0 && errno == EISDIR ? (int)rc(A->f_unlink(s, 1)) : r; }
X int fsync(int fd) { return SIMFD(fd) ? (int)rc(A->f_sync(fd)) : 0; }
X int fdatasync(int fd) { return SIMFD(fd) ? (int)rc(A->f_sync(fd)) : 0; }
X int ftruncate(int fd, off_t n) noexcept { return SIMFD(fd) ? (int)rc(A->f_trunc(fd, n)) : (int)syscall(SYS_ftruncate, fd, n); }
X int system(const char *) { if (A) A->mpi_error("HARNESS system() called"); return -1; }
X pid_t fork(void) noexcept { if (A) A->mpi_error("HARNESS fork() called"); errno = EAGAIN; return -1; }
X int kill(pid_t, int) noexcept { if (A) A->proc_exit(137, "kill"); return -1; }
