/*
 * Runs operations of several "threads" one step at a time. These are contexts
 * of one real thread, only one of which is running.
 *
 * The library is compiled with -fsanitize=thread but linked with the functions
 * below and not with the sanitizer's run-time. Each access of the library to
 * memory becomes a point where the thread running the operation stops and
 * somebody else may go on, as the test decides. That makes interleavings
 * reproducible and allows to enumerate them.
 *
 * Memory freed by an operation isn't given back until the run is over, and
 * any access to it, as well as freeing it once again, is noticed.
 */
#ifndef VF_SCHED_H
#define VF_SCHED_H
#include <pthread.h>
#include <ucontext.h>
#include <malloc.h>
#include <dlfcn.h>
#include <sched.h>

#define SC_MAXT 4
typedef struct { int op, arg; } ScOp;
typedef struct {
    ucontext_t uc; char* stack;
    int busy;               /* there's an operation to do, or in progress */
    int blocked;            /* waits for another thread */
    int rmw;                /* atomic updates done by the operation in progress */
    void (*fn)(int th, void* arg); void* arg;
} ScThread;
static ScThread sc_thread[SC_MAXT];
static ucontext_t sc_main;
static int sc_me;               /* 1.. in the threads being scheduled */
static int sc_on;

/* ---- memory ---- */
extern void* __libc_malloc(size_t); extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t); extern void __libc_free(void*);
static long sc_live;
#define SC_MAXQ 4096
static struct { char* p; size_t n; } sc_q[SC_MAXQ];
static int sc_nq, sc_keep;      /* keep what is freed */
static void (*sc_freed)(void* p);       /* told about each block */
static void (*sc_bad)(const char* what); /* access after free, double free */

size_t __sanitizer_get_current_allocated_bytes(void) { return __atomic_load_n(&sc_live, __ATOMIC_SEQ_CST); }
static void* sc_acc(void* p) { if (p) __atomic_fetch_add(&sc_live, malloc_usable_size(p), __ATOMIC_SEQ_CST); return p; }
void* malloc(size_t n) { return sc_acc(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return sc_acc(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n)
{
    long was = p ? malloc_usable_size(p) : 0; void* q = __libc_realloc(p, n);
    if (q || !n) __atomic_fetch_sub(&sc_live, was, __ATOMIC_SEQ_CST);
    return sc_acc(q);
}
static int sc_gone(const void* p, size_t n)
{
    int i;
    for (i = 0; i < sc_nq; i++) if ((char*)p < sc_q[i].p + sc_q[i].n && (char*)p + n > sc_q[i].p) return 1;
    return 0;
}
void free(void* p)
{
    if (!p) return;
    if (sc_keep) {
        if (sc_gone(p, 1)) { if (sc_bad) sc_bad("dfree"); return; }
        if (sc_nq < SC_MAXQ) {
            sc_q[sc_nq].p = p; sc_q[sc_nq++].n = malloc_usable_size(p);
            if (sc_freed) sc_freed(p);
            return;
        }
    }
    __atomic_fetch_sub(&sc_live, malloc_usable_size(p), __ATOMIC_SEQ_CST);
    __libc_free(p);
}
static void sc_release(void)
{
    int i, n = sc_nq;
    sc_keep = sc_nq = 0;
    for (i = 0; i < n; i++) free(sc_q[i].p);
}

/* ---- scheduling ---- */
static void sc_point(void);
static void sc_pause(void) { swapcontext(&sc_thread[sc_me].uc, &sc_main); }
static void sc_switch(int th) { sc_me = th; swapcontext(&sc_main, &sc_thread[th].uc); sc_me = 0; }
/* Takes a lock: lets the others run while it isn't available */
static void sc_lock(int (*try)(void*), void* lock)
{
    while (!try(lock)) { sc_thread[sc_me].blocked = 1; sc_pause(); }
}
static int sc_try_g(void* l) { return g_mutex_trylock(l); }
static int sc_try_p(void* l) { return !pthread_mutex_trylock(l); }
void g_mutex_lock(GMutex* m)
{
    if (sc_me && sc_on) { sc_point(); sc_lock(sc_try_g, m); }
    else while (!g_mutex_trylock(m)) sched_yield();
}
static int (*sc_real_lock)(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (sc_me && sc_on) { sc_point(); sc_lock(sc_try_p, m); return 0; }
    if (!sc_real_lock) sc_real_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return sc_real_lock(m);
}
static void sc_point(void) { if (sc_me && sc_on) sc_pause(); }
static void sc_access(const void* p, size_t n)
{
    sc_point();
    if (sc_nq && sc_keep && sc_gone(p, n) && sc_bad) sc_bad("uaf");
}
static void sc_loop(int th)
{
    ScThread* t = sc_thread + th;
    for (;;) {
        t->fn(th, t->arg);
        t->busy = 0;
        sc_pause();
    }
}
static void sc_init(void)
{
    int i;
    for (i = 1; i < SC_MAXT; i++) {
        ScThread* t = sc_thread + i;
        getcontext(&t->uc);
        t->uc.uc_stack.ss_sp = t->stack = malloc(1 << 18);
        t->uc.uc_stack.ss_size = 1 << 18;
        makecontext(&t->uc, (void (*)(void))sc_loop, 1, i);
    }
}
/* Starts an operation; it runs until its first access to memory */
static void sc_start(int th, void (*fn)(int, void*), void* arg)
{
    ScThread* t = sc_thread + th;
    t->fn = fn; t->arg = arg; t->busy = 1; t->rmw = 0;
    sc_switch(th);
}
/* Runs it until the next point, or to the end */
static void sc_step(int th)
{
    int i;
    for (i = 1; i < SC_MAXT; i++) sc_thread[i].blocked = 0;
    sc_switch(th);
}
/* Runs it to the end, along with those it waits for */
static void sc_finish(int th)
{
    while (sc_thread[th].busy) {
        int i, k = th;
        if (sc_thread[th].blocked) for (i = 1; i < SC_MAXT; i++) if (sc_thread[i].busy && !sc_thread[i].blocked) k = i;
        if (k == th && sc_thread[th].blocked) { fprintf(stderr, "deadlock\n"); _exit(97); }
        sc_step(k);
    }
}

/* ---- what the compiler calls ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void* pc) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** a, void* b) {}
void __tsan_vptr_read(void** a) {}
#define SC_RW(n) \
    void __tsan_read##n(void* p) { sc_access(p, n); } \
    void __tsan_write##n(void* p) { sc_access(p, n); } \
    void __tsan_volatile_read##n(void* p) { sc_access(p, n); } \
    void __tsan_volatile_write##n(void* p) { sc_access(p, n); } \
    void __tsan_unaligned_read##n(void* p) { sc_access(p, n); } \
    void __tsan_unaligned_write##n(void* p) { sc_access(p, n); }
SC_RW(1) SC_RW(2) SC_RW(4) SC_RW(8) SC_RW(16)
void __tsan_read_range(void* p, size_t n) { sc_access(p, n); }
void __tsan_write_range(void* p, size_t n) { sc_access(p, n); }
#define SC_UPD(b, T, f) \
    T __tsan_atomic##b##_##f(volatile T* p, T v, int mo) \
    { T r; sc_access((void*)p, sizeof(T)); r = __atomic_##f(p, v, __ATOMIC_SEQ_CST); if (sc_me) sc_thread[sc_me].rmw++; return r; }
#define SC_ATOMIC(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int mo) { sc_access((void*)p, sizeof(T)); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int mo) { sc_access((void*)p, sizeof(T)); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    SC_UPD(b, T, exchange_n) \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int mo) { return __tsan_atomic##b##_exchange_n(p, v, mo); } \
    SC_UPD(b, T, fetch_add) SC_UPD(b, T, fetch_sub) SC_UPD(b, T, fetch_and) SC_UPD(b, T, fetch_or) SC_UPD(b, T, fetch_xor) SC_UPD(b, T, fetch_nand) \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) \
    { int r; sc_access((void*)p, sizeof(T)); r = __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (sc_me && r) sc_thread[sc_me].rmw++; return r; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, mo, fmo); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { __tsan_atomic##b##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
SC_ATOMIC(8, guint8) SC_ATOMIC(16, guint16) SC_ATOMIC(32, guint32) SC_ATOMIC(64, guint64)
void __tsan_atomic_thread_fence(int mo) { sc_point(); }
void __tsan_atomic_signal_fence(int mo) {}
/* These are not instrumented by the compiler; the linker sends them here */
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (sc_me) { sc_access(s, n); sc_access(d, n); } return __real_memcpy(d, s, n); }
#endif
