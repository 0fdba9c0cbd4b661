// Deterministic simulator runtime: scheduler, race detector, allocator,
// interposed system services.  Compiled without instrumentation.
#include "rt.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

using namespace simrt;
#define SEARCH_SCHED (!(R->mode & 2))

namespace simrt {
    RunState* R = nullptr;
    bool in_run = false;
    uint32_t armed = 0;
    int quiet = 0;

    static const uintptr_t RS_BASE = 0x100000000000ull;
    static const uintptr_t ARENA = 0x200000000000ull;
    static const size_t ARENA_SZ = 1ull << 30;
    static const size_t STACKS_SZ = 64ull << 20;
    static const uintptr_t SH_ARENA = 0x300000000000ull; // 48 bytes per granule
    static const uintptr_t SH_EXE = 0x380000000000ull;
    static const uintptr_t EXE_LO = 0x400000;
    static const size_t EXE_SZ = 64ull << 20;

    uint64_t mix(uint64_t z)
    {
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    std::vector<ScenarioDef>& scenarios()
    {
        static std::vector<ScenarioDef> v;
        return v;
    }

    RunState* map_state()
    {
        // NOREPLACE keeps an earlier mapping of this very process out of the way
        munmap((void*)RS_BASE, sizeof(RunState));
        void* p = mmap((void*)RS_BASE, sizeof(RunState), PROT_READ | PROT_WRITE,
            MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        if (p != (void*)RS_BASE) {
            perror("mmap state");
            _exit(2);
        }
        R = (RunState*)p;
        return R;
    }
    void reset_plan(RunState* r)
    {
        r->tape_n = r->dec_n = r->pre_n = r->flt_n = 0;
    }
    void reset_run(RunState* r)
    {
        r->tape_pos = r->dec_pos = r->pre_pos = 0;
        r->step = 0;
        r->choice_idx = 0;
        r->status = ST_NONE;
        r->vclass[0] = r->vmsg[0] = 0;
        r->pc1 = r->pc2 = 0;
        r->hash = 1469598103934665603ull;
        r->nev = 0;
        r->sched_hash = 1469598103934665603ull;
        r->switches = r->races_checked = 0;
        memset(r->hits, 0, sizeof r->hits);
        memset(r->injected, 0, sizeof r->injected);
        r->nontrivial = 0;
        r->nprobe = 0;
        r->log_n = 0;
        r->log[0] = 0;
        r->clock_ns = 1700000000ll * 1000000000ll;
        r->clock_total = 0;
        r->clock_ticks = 1;
        r->pid = 4242;
        strcpy(r->hostname, "simhost");
        r->incarnations = 0;
        r->budget = 400000000ull;
        r->user_n = 0;
        disk_reset();
    }
}

// ------------------------------------------------------------------ hashing / log
static inline void hfold(uint64_t& h, uint64_t v)
{
    h = mix(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2)));
}
static uint64_t hbytes(const char* p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++)
        h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
    return h;
}
namespace simrt {
    static void vlog(const char* fmt, va_list ap)
    {
        char buf[1024];
        int n = vsnprintf(buf, sizeof buf - 2, fmt, ap);
        if (n < 0)
            return;
        if (n > (int)sizeof buf - 3)
            n = sizeof buf - 3;
        hfold(R->hash, hbytes(buf, n));
        R->nev++;
        if (R->log_n + n + 40 < LOG_MAX) {
            R->log_n += snprintf(R->log + R->log_n, 40, "[%llu] ", (unsigned long long)R->step);
            memcpy(R->log + R->log_n, buf, n);
            R->log_n += n;
            R->log[R->log_n++] = '\n';
            R->log[R->log_n] = 0;
        }
    }
    void logf(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vlog(fmt, ap);
        va_end(ap);
    }
}

// ------------------------------------------------------------------ threads
typedef uint32_t VC[MAXT];

struct Th {
    int id;
    volatile int baton, gone;
    bool used, finished, started;
    char label[32];
    VC vc;
    std::function<void()>* fn;
    // blocking predicate: runnable iff pred==null or pred(arg)
    bool (*pred)(void*);
    void* arg;
    bool timed;
    bool is_worker, joined;
    VC fin_vc;
    uint32_t ent_count;
    void* (*start)(void*);
    void* start_arg;
    void* retval;
    pthread_t tid;
    uint64_t ev_in_slice;
};
static Th T[MAXT];
static int nT = 0, created = 0;
static int cur = 0;
static bool g_multi = false, ever_multi = false;
static int par_regions = 0;
static int pool_ids[MAXT], pool_n = 0;
static int max_par = -1;

static void set_multi()
{
    int clients = 0;
    for (int i = 0; i < nT; i++)
        if (T[i].used && !T[i].joined && !T[i].is_worker)
            clients++;
    g_multi = in_run && (clients > 1 || par_regions > 0);
    if (g_multi)
        ever_multi = true;
}

static inline long raw_syscall6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static inline void raw_futex(volatile int* w, int op, int v) { raw_syscall6(SYS_futex, (long)w, op, v, 0, 0, 0); }
static void futex_wait(volatile int* w)
{
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        raw_futex(w, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void futex_wake(volatile int* w)
{
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    raw_futex(w, FUTEX_WAKE_PRIVATE, 1);
}

[[noreturn]] static void die(int st)
{
    R->status = st;
    _exit(st == ST_OK ? 0 : 10);
}

static bool failing = false;
static void vfail(const char* cls, const char* fmt, va_list ap)
{
    if (failing)
        _exit(11);
    failing = true;
    snprintf(R->vclass, sizeof R->vclass, "%s", cls);
    vsnprintf(R->vmsg, sizeof R->vmsg, fmt, ap);
    logf("VIOLATION %s: %s", R->vclass, R->vmsg);
    die(ST_VIOLATION);
}
[[noreturn]] static void rfail(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfail(cls, fmt, ap);
    __builtin_unreachable();
}

static bool runnable(int i)
{
    Th& t = T[i];
    if (!t.used || t.finished)
        return false;
    return !t.pred || t.pred(t.arg);
}

static void switch_to(int n)
{
    if (n == cur)
        return;
    int me = cur;
    R->switches++;
    cur = n;
    futex_wake(&T[n].baton);
    if (T[me].finished) { // until its slot is needed (new_thread)
        futex_wait(&T[me].gone);
        return;
    }
    futex_wait(&T[me].baton);
}

// sched rng helpers
static double geometric_gap()
{
    if (R->mean_gap > 1e8)
        return 1e15;
    double u = u01(R->rng_sched);
    if (u < 1e-12)
        u = 1e-12;
    double g = -__builtin_log(u) * R->mean_gap;
    return g < 1 ? 1 : g;
}
static void plan_next()
{
    if (SEARCH_SCHED)
        R->next_sp = R->step + (uint64_t)geometric_gap();
    else {
        while (R->pre_pos < R->pre_n && R->pre[R->pre_pos].step <= R->step)
            R->pre_pos++;
        R->next_sp = R->pre_pos < R->pre_n ? R->pre[R->pre_pos].step : ~0ull;
    }
    if (R->next_sp > R->budget)
        R->next_sp = R->budget;
}

static bool trace_switches = getenv("SIM_TRACE") != nullptr;
static void do_switch_logged(int n, uint64_t why)
{
    if (trace_switches) {
        char b[100];
        int l = snprintf(b, sizeof b, "step %llu: %d -> %d why %llx\n", (unsigned long long)R->step, cur, n, (unsigned long long)why);
        raw_syscall6(SYS_write, 2, (long)b, l, 0, 0, 0);
    }
    hfold(R->sched_hash, ((uint64_t)cur << 40) ^ ((uint64_t)n << 32) ^ why);
    hfold(R->hash, R->step * 64 + n);
    switch_to(n);
}

// A choice among n alternatives made by the scheduler; default is 0.
extern "C" uint32_t simrt_sched_choice(uint32_t n)
{
    if (n <= 1 || !in_run)
        return 0;
    uint32_t idx = R->choice_idx++;
    uint32_t v = 0;
    if (SEARCH_SCHED) {
        if (R->p_choice > 0 && u01(R->rng_sched) < R->p_choice)
            v = (uint32_t)(next(R->rng_sched) % n);
        if (v && R->dec_n < DEC_MAX)
            R->dec[R->dec_n++] = Dec{idx, v};
        else
            v = (R->dec_n < DEC_MAX) ? v : 0;
    }
    else {
        while (R->dec_pos < R->dec_n && R->dec[R->dec_pos].idx < idx)
            R->dec_pos++;
        if (R->dec_pos < R->dec_n && R->dec[R->dec_pos].idx == idx)
            v = R->dec[R->dec_pos].val % n;
    }
    if (v)
        hfold(R->sched_hash, 0x1234 + idx * 977 + v);
    return v;
}

// Voluntary preemption at the current step (search: choose; replay: look up).
static void preempt(uint64_t why, bool forced_in_search)
{
    if (!g_multi || quiet) {
        if (R->step >= R->next_sp)
            plan_next();
        return;
    }
    if (SEARCH_SCHED) {
        int cand[MAXT], c = 0;
        for (int i = 0; i < nT; i++)
            if (i != cur && runnable(i))
                cand[c++] = i;
        int n = -1;
        if (c && (forced_in_search || R->step >= R->next_sp))
            n = cand[next(R->rng_sched) % c];
        if (R->step >= R->next_sp)
            plan_next();
        if (n >= 0 && R->pre_n < PRE_MAX) {
            R->pre[R->pre_n++] = Pre{R->step, (uint32_t)n, 0};
            do_switch_logged(n, why);
        }
    }
    else {
        if (R->step < R->next_sp)
            return;
        int n = -1;
        if (R->pre_pos < R->pre_n && R->pre[R->pre_pos].step == R->step)
            n = (int)R->pre[R->pre_pos].target;
        plan_next();
        if (n >= 0 && n < nT && n != cur && runnable(n))
            do_switch_logged(n, why);
    }
}

static __attribute__((noinline)) void slow_step(uint64_t why)
{
    if (R->step >= R->budget) {
        R->budget = ~0ull;
        rfail("no-progress", "step budget exhausted: the execution does not terminate");
    }
    preempt(why, false);
}

// the scheduling point taken at every instrumented access
static inline __attribute__((always_inline)) void step_point(uint64_t pc)
{
    if (__builtin_expect(!in_run, 0))
        return;
    if (__builtin_expect(++R->step >= R->next_sp, 0))
        slow_step(pc);
}

static void sync_point_pc(uint64_t pc, double p)
{
    if (!in_run)
        return;
    ++R->step;
    if (R->step >= R->budget)
        slow_step(pc);
    bool f = false;
    if (SEARCH_SCHED && g_multi && !quiet && p > 0)
        f = u01(R->rng_sched) < p;
    if (f || R->step >= R->next_sp)
        preempt(pc, f);
}
extern "C" void simrt_sync_point() { sync_point_pc((uint64_t)__builtin_return_address(0), in_run ? R->p_sync : 0); }

// Block the current thread until pred(arg) holds.
static void block_until(bool (*pred)(void*), void* arg, bool timed = false)
{
    Th& me = T[cur];
    me.pred = pred;
    me.arg = arg;
    me.timed = timed;
    while (!pred(arg)) {
        int cand[MAXT], c = 0;
        for (int k = 1; k <= nT; k++) {
            int i = (cur + k) % nT;
            if (i != me.id && runnable(i))
                cand[c++] = i;
        }
        if (c == 0) {
            // jump the clock to a timed waiter
            int tw = -1;
            for (int i = 0; i < nT; i++)
                if (T[i].used && !T[i].finished && T[i].timed && T[i].pred) {
                    tw = i;
                    break;
                }
            if (tw >= 0) {
                R->clock_ns += 1000000000;
                R->clock_total += 1000000000;
                T[tw].timed = false;
                T[tw].pred = nullptr;
                if (tw == me.id)
                    break;
                do_switch_logged(tw, 3);
                if (!me.pred)
                    break;
                continue;
            }
            rfail("deadlock", "no simulated thread can make progress (blocked: %s)", me.label);
        }
        ++R->step;
        int n = cand[simrt_sched_choice(c)];
        do_switch_logged(n, 2);
        if (!me.pred)
            break;
    }
    me.pred = nullptr;
    me.timed = false;
}

// ------------------------------------------------------------------ vector clocks
static inline void vc_join(VC a, const VC b)
{
    for (int i = 0; i < MAXT; i++)
        if (b[i] > a[i])
            a[i] = b[i];
}
struct SyncVar {
    uintptr_t addr;
    VC vc;
};
static const uint32_t SYNC_N = 1u << 15;
static SyncVar* syncv = nullptr;
static SyncVar* sync_get(const void* p)
{
    if (!syncv)
        syncv = (SyncVar*)mmap(nullptr, sizeof(SyncVar) * SYNC_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uintptr_t a = (uintptr_t)p;
    uint32_t h = (uint32_t)mix(a) & (SYNC_N - 1);
    for (uint32_t i = 0; i < SYNC_N; i++) {
        SyncVar& s = syncv[(h + i) & (SYNC_N - 1)];
        if (s.addr == a)
            return &s;
        if (!s.addr) {
            s.addr = a;
            return &s;
        }
    }
    rfail("internal", "sync table full");
}
extern "C" void simrt_release(const void* p)
{
    if (!in_run)
        return;
    SyncVar* s = sync_get(p);
    vc_join(s->vc, T[cur].vc);
    T[cur].vc[cur]++;
}
extern "C" void simrt_acquire(const void* p)
{
    if (!in_run)
        return;
    vc_join(T[cur].vc, sync_get(p)->vc);
}

// ------------------------------------------------------------------ race detector
struct Shadow {
    uint64_t s[4]; // clk<<32 | tid<<16 | mask<<8 | flags (1 write, 2 atomic, 4 valid)
    uint32_t pc[4];
};
static int race_off = 0;

static inline Shadow* shadow_of(uintptr_t a)
{
    if (a - ARENA < ARENA_SZ)
        return (Shadow*)(SH_ARENA + ((a - ARENA) >> 3) * sizeof(Shadow));
    if (a - EXE_LO < EXE_SZ)
        return (Shadow*)(SH_EXE + ((a - EXE_LO) >> 3) * sizeof(Shadow));
    return nullptr;
}

static __attribute__((noinline)) void report_race(uintptr_t a, uint64_t old, uint32_t opc, bool w, uint64_t pc)
{
    R->pc1 = pc;
    R->pc2 = opc;
    // the message is completed with source lines by the driver
    uint64_t lo = pc < opc ? pc : opc, hi = pc < opc ? opc : pc;
    (void)a;
    char lab1[32], lab2[32];
    snprintf(lab1, 32, "%s", T[cur].label);
    int ot = (int)((old >> 16) & 0xff);
    snprintf(lab2, 32, "%s", T[ot].label);
    rfail("data-race", "unsynchronised %s by thread %s and %s by thread %s pcs %#llx %#llx", w ? "write" : "read", lab1, (old & 1) ? "write" : "read", lab2,
        (unsigned long long)lo, (unsigned long long)hi);
}

static void race_granule(uintptr_t ga, uint8_t mask, bool w, bool atomic, uint64_t pc)
{
    Shadow* sh = shadow_of(ga);
    if (!sh)
        return;
    uint32_t* vc = T[cur].vc;
    R->races_checked++;
    uint64_t flags = (w ? 1 : 0) | (atomic ? 2 : 0) | 4;
    uint64_t me = ((uint64_t)vc[cur] << 32) | ((uint64_t)cur << 16) | ((uint64_t)mask << 8) | flags;
    int place = -1;
    bool conflict = false;
    for (int i = 0; i < 4; i++) {
        uint64_t s = sh->s[i];
        if (!s) {
            if (place < 0)
                place = i;
            continue;
        }
        int t = (int)((s >> 16) & 0xff);
        uint8_t m = (uint8_t)(s >> 8);
        if (t == cur) {
            // replace when the new access subsumes it
            if ((m & ~mask) == 0 && (w || !(s & 1)) && ((s & 2) || !atomic))
                place = i;
            continue;
        }
        if (!(m & mask))
            continue;
        bool hb = vc[t] >= (uint32_t)(s >> 32);
        if (hb) {
            if (w && (m & ~mask) == 0) {
                sh->s[i] = 0;
                if (place < 0)
                    place = i;
            }
            continue;
        }
        conflict = true;
        if ((w || (s & 1)) && !((s & 2) && atomic))
            report_race(ga, s, sh->pc[i], w, pc);
    }
    if (place < 0)
        place = (int)((ga >> 3) + R->races_checked) & 3;
    sh->s[place] = me;
    sh->pc[place] = (uint32_t)pc;
    if (conflict)
        sync_point_pc(pc, R->p_conf);
}

static inline void race_check(uintptr_t a, size_t n, bool w, bool atomic, uint64_t pc)
{
    if (!g_multi || quiet || race_off)
        return;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t g = a & ~7ull;
        uintptr_t ge = g + 8 < e ? g + 8 : e;
        uint8_t mask = (uint8_t)(((1u << (ge - g)) - 1) & ~((1u << (a - g)) - 1));
        race_granule(g, mask, w, atomic, pc);
        a = ge;
    }
}
namespace simrt {
    void race_access(const void* p, size_t n, bool w)
    {
        if (in_run)
            race_check((uintptr_t)p, n, w, false, (uint64_t)__builtin_return_address(0));
    }
}
static void shadow_clear(uintptr_t a, size_t n)
{
    uintptr_t g = a & ~7ull;
    Shadow* sh = shadow_of(g);
    if (!sh)
        return;
    size_t cnt = (a + n - g + 7) / 8;
    memset(sh, 0, cnt * sizeof(Shadow));
}

namespace simrt {
    void race_forget(const void* p, size_t n) { shadow_clear((uintptr_t)p, n); }
}

#define PC ((uint64_t)__builtin_return_address(0))
#define ACC(name, n, w)                                \
    extern "C" void __tsan_##name(void* p)             \
    {                                                  \
        step_point(PC);                                \
        if (g_multi)                                   \
            race_check((uintptr_t)p, n, w, false, PC); \
    }
ACC(read1, 1, false)
ACC(read2, 2, false)
ACC(read4, 4, false)
ACC(read8, 8, false)
ACC(read16, 16, false)
ACC(write1, 1, true)
ACC(write2, 2, true)
ACC(write4, 4, true)
ACC(write8, 8, true)
ACC(write16, 16, true)
ACC(unaligned_read2, 2, false)
ACC(unaligned_read4, 4, false)
ACC(unaligned_read8, 8, false)
ACC(unaligned_read16, 16, false)
ACC(unaligned_write2, 2, true)
ACC(unaligned_write4, 4, true)
ACC(unaligned_write8, 8, true)
ACC(unaligned_write16, 16, true)
ACC(volatile_read1, 1, false)
ACC(volatile_read2, 2, false)
ACC(volatile_read4, 4, false)
ACC(volatile_read8, 8, false)
ACC(volatile_read16, 16, false)
ACC(volatile_write1, 1, true)
ACC(volatile_write2, 2, true)
ACC(volatile_write4, 4, true)
ACC(volatile_write8, 8, true)
ACC(volatile_write16, 16, true)
ACC(vptr_read, 8, false)
extern "C" void __tsan_vptr_update(void** p, void* v)
{
    step_point(PC);
    if (g_multi)
        race_check((uintptr_t)p, 8, *p != v, false, PC);
}
extern "C" void __tsan_read_range(void* p, size_t n)
{
    step_point(PC);
    if (g_multi)
        race_check((uintptr_t)p, n, false, false, PC);
}
extern "C" void __tsan_write_range(void* p, size_t n)
{
    step_point(PC);
    if (g_multi)
        race_check((uintptr_t)p, n, true, false, PC);
}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_init() {}

// block copies made by instrumented code
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (in_run && n) {
        step_point(PC);
        if (g_multi) {
            race_check((uintptr_t)s, n, false, false, PC);
            race_check((uintptr_t)d, n, true, false, PC);
        }
    }
    return __real_memcpy(d, s, n);
}
extern "C" void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (in_run && n) {
        step_point(PC);
        if (g_multi) {
            race_check((uintptr_t)s, n, false, false, PC);
            race_check((uintptr_t)d, n, true, false, PC);
        }
    }
    return __real_memmove(d, s, n);
}
extern "C" void* __wrap_memset(void* d, int c, size_t n)
{
    if (in_run && n) {
        step_point(PC);
        if (g_multi)
            race_check((uintptr_t)d, n, true, false, PC);
    }
    return __real_memset(d, c, n);
}

// atomics
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_pre(const volatile void* p, size_t n, bool w, int mo, uint64_t pc)
{
    if (!in_run)
        return;
    sync_point_pc(pc, R->p_sync);
    race_check((uintptr_t)p, n, w, true, pc);
    if (is_acq(mo))
        simrt_acquire((const void*)p);
    if (w && is_rel(mo))
        simrt_release((const void*)p);
}
#define ATOMICS(bits, T_)                                                                                    \
    extern "C" T_ __tsan_atomic##bits##_load(const volatile T_* a, int mo)                                   \
    {                                                                                                        \
        at_pre(a, sizeof(T_), false, mo, PC);                                                                \
        return *a;                                                                                           \
    }                                                                                                        \
    extern "C" void __tsan_atomic##bits##_store(volatile T_* a, T_ v, int mo)                                \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        *a = v;                                                                                              \
    }                                                                                                        \
    extern "C" T_ __tsan_atomic##bits##_exchange(volatile T_* a, T_ v, int mo)                               \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        T_ o = *a;                                                                                           \
        *a = v;                                                                                              \
        return o;                                                                                            \
    }                                                                                                        \
    extern "C" T_ __tsan_atomic##bits##_fetch_add(volatile T_* a, T_ v, int mo)                              \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        T_ o = *a;                                                                                           \
        *a = (T_)(o + v);                                                                                    \
        return o;                                                                                            \
    }                                                                                                        \
    extern "C" T_ __tsan_atomic##bits##_fetch_sub(volatile T_* a, T_ v, int mo)                              \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        T_ o = *a;                                                                                           \
        *a = (T_)(o - v);                                                                                    \
        return o;                                                                                            \
    }                                                                                                        \
    extern "C" T_ __tsan_atomic##bits##_fetch_and(volatile T_* a, T_ v, int mo)                              \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        T_ o = *a;                                                                                           \
        *a = (T_)(o & v);                                                                                    \
        return o;                                                                                            \
    }                                                                                                        \
    extern "C" T_ __tsan_atomic##bits##_fetch_or(volatile T_* a, T_ v, int mo)                               \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        T_ o = *a;                                                                                           \
        *a = (T_)(o | v);                                                                                    \
        return o;                                                                                            \
    }                                                                                                        \
    extern "C" T_ __tsan_atomic##bits##_fetch_xor(volatile T_* a, T_ v, int mo)                              \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        T_ o = *a;                                                                                           \
        *a = (T_)(o ^ v);                                                                                    \
        return o;                                                                                            \
    }                                                                                                        \
    extern "C" T_ __tsan_atomic##bits##_fetch_nand(volatile T_* a, T_ v, int mo)                             \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        T_ o = *a;                                                                                           \
        *a = (T_) ~(o & v);                                                                                  \
        return o;                                                                                            \
    }                                                                                                        \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* a, T_* c, T_ v, int mo, int)   \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        if (*a == *c) {                                                                                      \
            *a = v;                                                                                          \
            return 1;                                                                                        \
        }                                                                                                    \
        *c = *a;                                                                                             \
        return 0;                                                                                            \
    }                                                                                                        \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* a, T_* c, T_ v, int mo, int)     \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        if (*a == *c) {                                                                                      \
            *a = v;                                                                                          \
            return 1;                                                                                        \
        }                                                                                                    \
        *c = *a;                                                                                             \
        return 0;                                                                                            \
    }                                                                                                        \
    extern "C" T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* a, T_ c, T_ v, int mo, int)        \
    {                                                                                                        \
        at_pre(a, sizeof(T_), true, mo, PC);                                                                 \
        T_ o = *a;                                                                                           \
        if (o == c)                                                                                          \
            *a = v;                                                                                          \
        return o;                                                                                            \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
static char fence_var;
extern "C" void __tsan_atomic_thread_fence(int mo)
{
    if (!in_run)
        return;
    sync_point_pc(PC, R->p_sync);
    if (is_acq(mo))
        simrt_acquire(&fence_var);
    if (is_rel(mo))
        simrt_release(&fence_var);
}
extern "C" void __tsan_atomic_signal_fence(int) {}

extern "C" void simrt_ignore_begin()
{
    if (in_run)
        race_off++;
}
extern "C" void simrt_ignore_end()
{
    if (in_run)
        race_off--;
}

// ------------------------------------------------------------------ allocator
namespace {
    struct Hdr {
        uint32_t cls;
        uint32_t magic;
        uint64_t size;
    };
    const uint32_t LIVE = 0xA110C8ED, FREE = 0xF4EEF4EE;
    const int NCLS = 64 + 40;
    struct FreeList {
        uintptr_t head, tail;
        uint32_t n;
    } fl[NCLS];
    uintptr_t bump = 0;
    size_t cls_size(int c)
    {
        if (c < 64)
            return (size_t)(c + 1) * 16;
        int k = c - 64;
        return (size_t)(1024 + 512 * (k & 1)) << (k >> 1); // 1024,1536,2048,3072,...
    }
    int size_cls(size_t n)
    {
        if (n <= 1024)
            return n ? (int)((n + 15) / 16) - 1 : 0;
        for (int c = 64; c < NCLS; c++)
            if (cls_size(c) >= n)
                return c;
        return -1;
    }
    void arena_init()
    {
        void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        void* q = mmap((void*)SH_ARENA, ARENA_SZ / 8 * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        void* r = mmap((void*)SH_EXE, EXE_SZ / 8 * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED || q == MAP_FAILED || r == MAP_FAILED) {
            static const char m[] = "simulator: cannot map the arena\n";
            (void)!write(2, m, sizeof m - 1);
            _exit(2);
        }
        bump = ARENA + STACKS_SZ;
    }
    // Every run starts from the same heap state, whatever the driver allocated.
    uintptr_t run_base = 0;
    void heap_for_run()
    {
        if (!bump)
            arena_init();
        run_base = bump = ARENA + ARENA_SZ / 2;
        for (auto& f : fl)
            f = FreeList{0, 0, 0};
    }
    void fill_mem(void* p, size_t n)
    {
        if (!in_run)
            return;
        __real_memset(p, R->fill, n > 65536 ? 65536 : n);
    }
    void* raw_alloc(size_t n)
    {
        if (!bump)
            arena_init();
        int c = size_cls(n);
        if (c < 0)
            return nullptr;
        FreeList& f = fl[c];
        uintptr_t b;
        if (f.n > 3) { // small quarantine
            b = f.head;
            f.head = *(uintptr_t*)(b + 16);
            f.n--;
        }
        else {
            size_t sz = cls_size(c) + 16;
            if (bump + sz > ARENA + ARENA_SZ)
                return nullptr;
            b = bump;
            bump += sz;
        }
        Hdr* h = (Hdr*)b;
        h->cls = (uint32_t)c;
        h->magic = LIVE;
        h->size = n;
        return (void*)(b + 16);
    }
    void raw_free(void* p)
    {
        Hdr* h = (Hdr*)((uintptr_t)p - 16);
        if (h->magic != LIVE) {
            if (in_run)
                rfail("heap-corruption", h->magic == FREE ? "double free" : "free of a pointer that was never allocated");
            abort();
        }
        h->magic = FREE;
        if (in_run) {
            size_t n = h->size;
            __real_memset(p, 0xDD, n > 4096 ? 4096 : n);
        }
        FreeList& f = fl[h->cls];
        *(uintptr_t*)p = 0;
        uintptr_t b = (uintptr_t)h;
        if (f.n == 0)
            f.head = f.tail = b;
        else {
            *(uintptr_t*)(f.tail + 16) = b;
            f.tail = b;
        }
        f.n++;
    }
}
// Allocations made inside libc (time zones, stdio) happen under locks the
// simulator does not see: no scheduling point, no fault there.
static uintptr_t libc_lo = 0, libc_hi = 0;
namespace simrt {
    void find_libc()
    {
        dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) {
            if (!i->dlpi_name || !strstr(i->dlpi_name, "/libc.so"))
                return 0;
            for (int k = 0; k < i->dlpi_phnum; k++)
                if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
                    libc_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                    libc_hi = libc_lo + i->dlpi_phdr[k].p_memsz;
                }
            return 1;
        },
            nullptr);
    }
}
static inline bool from_libc(uint64_t pc) { return pc - libc_lo < libc_hi - libc_lo; }
extern "C" void* malloc(size_t n)
{
    if (in_run && !from_libc(PC)) {
        step_point(PC);
        if (n > (1ull << 28)) {
            errno = ENOMEM;
            return nullptr;
        }
        if ((armed >> sim::F_ALLOC & 1) && !quiet && sim::fault(sim::F_ALLOC)) {
            errno = ENOMEM;
            return nullptr;
        }
    }
    void* p = raw_alloc(n);
    if (!p) {
        errno = ENOMEM;
        return nullptr;
    }
    if (in_run) {
        if (ever_multi)
            shadow_clear((uintptr_t)p, n);
        fill_mem(p, n);
    }
    return p;
}
extern "C" void free(void* p)
{
    if (!p)
        return;
    if ((uintptr_t)p - ARENA >= ARENA_SZ || (uintptr_t)p < run_base)
        return; // allocated before the arena existed, or before this run
    if (in_run && g_multi && !quiet && !from_libc(PC)) {
        step_point(PC);
        size_t n = ((Hdr*)((uintptr_t)p - 16))->size;
        race_check((uintptr_t)p, n > 1024 ? 1024 : n, true, false, PC);
    }
    raw_free(p);
}
extern "C" void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
        return nullptr;
    void* p = malloc(n);
    if (p)
        __real_memset(p, 0, n);
    return p;
}
extern "C" void* realloc(void* p, size_t n)
{
    struct Hush {
        bool on;
        ~Hush() { quiet -= on; }
    } hush{in_run && from_libc(PC)};
    quiet += hush.on;
    if (!p)
        return malloc(n);
    if (n == 0) {
        free(p);
        return nullptr;
    }
    size_t o = ((Hdr*)((uintptr_t)p - 16))->size;
    void* q = malloc(n);
    if (!q)
        return nullptr;
    if (in_run && g_multi)
        race_check((uintptr_t)p, o < n ? o : n, false, false, PC);
    __real_memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
extern "C" void* memalign(size_t al, size_t n)
{
    if (al <= 16)
        return malloc(n);
    // over-allocate; the header must precede the block: bump a fresh region
    if (!bump)
        arena_init();
    uintptr_t b = (bump + 16 + al - 1) / al * al;
    if (b + n > ARENA + ARENA_SZ)
        return nullptr;
    Hdr* h = (Hdr*)(b - 16);
    h->cls = (uint32_t)size_cls(16);
    h->magic = LIVE;
    h->size = n;
    bump = (b + n + 15) & ~15ull;
    // such blocks are rare (never reused at full size)
    return (void*)b;
}
extern "C" int posix_memalign(void** o, size_t al, size_t n)
{
    void* p = memalign(al, n);
    if (!p)
        return ENOMEM;
    *o = p;
    return 0;
}
extern "C" void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
extern "C" void* valloc(size_t n) { return memalign(4096, n); }
extern "C" size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uintptr_t)p - 16))->size : 0; }

// ------------------------------------------------------------------ mutexes, once, guards, condition variables
struct MState {
    uintptr_t addr;
    int owner; // -1 free
    int rec;
    int readers;
    VC vc;
};
static const uint32_t MTX_N = 1u << 14;
static MState* mtx = nullptr;
static MState* m_get(const void* p)
{
    if (!mtx)
        mtx = (MState*)mmap(nullptr, sizeof(MState) * MTX_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uintptr_t a = (uintptr_t)p;
    uint32_t h = (uint32_t)mix(a) & (MTX_N - 1);
    for (uint32_t i = 0; i < MTX_N; i++) {
        MState& s = mtx[(h + i) & (MTX_N - 1)];
        if (s.addr == a)
            return &s;
        if (!s.addr) {
            s.addr = a;
            s.owner = -1;
            return &s;
        }
    }
    rfail("internal", "mutex table full");
}
static bool m_free(void* p) { return ((MState*)p)->owner < 0 && ((MState*)p)->readers == 0; }
static bool m_nowriter(void* p) { return ((MState*)p)->owner < 0; }

static int m_lock(MState* m, bool recursive, uint64_t pc)
{
    sync_point_pc(pc, R->p_sync);
    if (m->owner == cur) {
        if (recursive) {
            m->rec++;
            return 0;
        }
        rfail("deadlock", "a thread locks a mutex it already holds");
    }
    if (!m_free(m))
        block_until(m_free, m);
    m->owner = cur;
    m->rec = 1;
    vc_join(T[cur].vc, m->vc);
    return 0;
}
static int m_unlock(MState* m, uint64_t pc)
{
    if (m->owner != cur) {
        rfail("mutex-misuse", "a mutex is unlocked by a thread that does not hold it");
    }
    if (--m->rec > 0)
        return 0;
    vc_join(m->vc, T[cur].vc);
    T[cur].vc[cur]++;
    m->owner = -1;
    sync_point_pc(pc, R->p_sync);
    return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* p)
{
    if (!in_run)
        return 0;
    return m_lock(m_get(p), (p->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, PC);
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* p)
{
    if (!in_run)
        return 0;
    sync_point_pc(PC, R->p_sync);
    MState* m = m_get(p);
    if (m->owner == cur && (p->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        m->rec++;
        return 0;
    }
    if (!m_free(m))
        return EBUSY;
    m->owner = cur;
    m->rec = 1;
    vc_join(T[cur].vc, m->vc);
    return 0;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* p, const struct timespec*) { return pthread_mutex_lock(p); }
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* p, clockid_t, const struct timespec*) { return pthread_mutex_lock(p); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* p)
{
    if (!in_run)
        return 0;
    return m_unlock(m_get(p), PC);
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t* p)
{
    if (in_run) {
        MState* m = m_get(p);
        m->owner = -1;
        m->readers = 0;
    }
    return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* p)
{
    if (!in_run)
        return 0;
    sync_point_pc(PC, R->p_sync);
    MState* m = m_get(p);
    if (!m_nowriter(m))
        block_until(m_nowriter, m);
    m->readers++;
    vc_join(T[cur].vc, m->vc);
    return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* p)
{
    if (!in_run)
        return 0;
    return m_lock(m_get(p), false, PC);
}
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* p)
{
    if (!in_run)
        return 0;
    MState* m = m_get(p);
    if (!m_nowriter(m))
        return EBUSY;
    return pthread_rwlock_rdlock(p);
}
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* p)
{
    if (!in_run)
        return 0;
    MState* m = m_get(p);
    if (!m_free(m))
        return EBUSY;
    return m_lock(m, false, PC);
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* p)
{
    if (!in_run)
        return 0;
    MState* m = m_get(p);
    if (m->readers > 0) {
        m->readers--;
        vc_join(m->vc, T[cur].vc);
        T[cur].vc[cur]++;
        sync_point_pc(PC, R->p_sync);
        return 0;
    }
    return m_unlock(m, PC);
}
extern "C" int pthread_spin_init(pthread_spinlock_t*, int) { return 0; }
extern "C" int pthread_spin_lock(pthread_spinlock_t* p)
{
    if (!in_run)
        return 0;
    return m_lock(m_get((const void*)p), false, PC);
}
extern "C" int pthread_spin_unlock(pthread_spinlock_t* p)
{
    if (!in_run)
        return 0;
    return m_unlock(m_get((const void*)p), PC);
}

struct CondW {
    pthread_cond_t* c;
    bool signalled;
    CondW* next;
};
static CondW* cwaiters = nullptr;
static bool c_sig(void* p) { return ((CondW*)p)->signalled; }
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    CondW w{c, false, nullptr};
    CondW** e = &cwaiters;
    while (*e)
        e = &(*e)->next;
    *e = &w;
    m_unlock(m_get(m), 5);
    if (!w.signalled)
        block_until(c_sig, &w, timed);
    for (CondW** q = &cwaiters; *q; q = &(*q)->next)
        if (*q == &w) {
            *q = w.next;
            break;
        }
    m_lock(m_get(m), false, 5);
    return w.signalled ? 0 : ETIMEDOUT;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return in_run ? c_wait(c, m, false) : 0; }
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return in_run ? c_wait(c, m, true) : 0; }
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return in_run ? c_wait(c, m, true) : 0; }
extern "C" int pthread_cond_signal(pthread_cond_t* c)
{
    if (!in_run)
        return 0;
    int n = 0;
    for (CondW* w = cwaiters; w; w = w->next)
        if (w->c == c && !w->signalled)
            n++;
    if (n) {
        int k = (int)simrt_sched_choice(n);
        for (CondW* w = cwaiters; w; w = w->next)
            if (w->c == c && !w->signalled && k-- == 0)
                w->signalled = true;
    }
    sync_point_pc(PC, R->p_sync);
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!in_run)
        return 0;
    for (CondW* w = cwaiters; w; w = w->next)
        if (w->c == c)
            w->signalled = true;
    sync_point_pc(PC, R->p_sync);
    return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t*) { return 0; }

static bool once_done(void* p) { return *(volatile int*)p != 1; }
extern "C" int pthread_once(pthread_once_t* o, void (*f)())
{
    volatile int* st = (volatile int*)o;
    for (;;) {
        if (in_run)
            sync_point_pc(PC, R->p_sync);
        if (*st == 2) {
            simrt_acquire((const void*)o);
            return 0;
        }
        if (*st == 0) {
            *st = 1;
            try {
                f();
            }
            catch (...) {
                *st = 0;
                throw;
            }
            simrt_release((const void*)o);
            *st = 2;
            return 0;
        }
        if (in_run)
            block_until(once_done, (void*)o);
    }
}
static bool guard_ready(void* p) { return ((volatile uint8_t*)p)[1] == 0; }
extern "C" int __cxa_guard_acquire(long long* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (in_run)
        sync_point_pc(PC, R->p_sync);
    for (;;) {
        if (b[0]) {
            simrt_acquire(g);
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        if (in_run)
            block_until(guard_ready, g);
        else
            abort();
    }
}
extern "C" void __cxa_guard_release(long long* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    simrt_release(g);
    b[0] = 1;
    b[1] = 0;
    if (in_run)
        sync_point_pc(PC, R->p_sync);
}
extern "C" void __cxa_guard_abort(long long* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    b[1] = 0;
}

// ------------------------------------------------------------------ thread creation
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;

static int (*real_pthread_join)(pthread_t, void**) = nullptr;

static uintptr_t stack_base(int id) { return ARENA + (uintptr_t)id * (2ull << 20); }

static void thread_finish();
static void* trampoline(void* a)
{
    Th* t = (Th*)a;
    futex_wait(&t->baton);
    try {
        if (t->fn)
            (*t->fn)();
        else
            t->retval = t->start(t->start_arg);
    }
    catch (abi::__forced_unwind&) {
        throw;
    }
    catch (std::exception& e) {
        rfail("uncaught-exception", "an exception escapes thread %s: %s", t->label, e.what());
    }
    catch (...) {
        rfail("uncaught-exception", "an exception escapes thread %s", t->label);
    }
    thread_finish();
    return nullptr;
}
static int new_thread(const char* label)
{
    int id = nT;
    uint32_t clock = 0;
    if (nT < MAXT)
        nT++;
    else {
        // the slot of a thread that is over, and that this thread knows to be over
        for (id = MAXT - 1; id > 0; id--)
            if (T[id].finished && T[id].joined && T[id].fn == nullptr && T[cur].vc[id] >= T[id].fin_vc[id])
                break;
        if (id == 0)
            rfail("internal", "too many simulated threads");
        if (!real_pthread_join)
            real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
        clock = T[id].fin_vc[id];
        int q = quiet;
        quiet = 1, race_off++;
        futex_wake(&T[id].gone);
        real_pthread_join(T[id].tid, nullptr);
        quiet = q, race_off--;
    }
    created++;
    Th& t = T[id];
    __real_memset((void*)&t, 0, sizeof t);
    t.id = id;
    t.used = true;
    snprintf(t.label, sizeof t.label, "%s", label);
    if (id > 0) {
        memcpy(t.vc, T[cur].vc, sizeof(VC));
        T[cur].vc[cur]++;
    }
    t.vc[id] = clock + 1;
    return id;
}
static void start_thread_real(int id)
{
    if (!real_pthread_create)
        real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    pthread_attr_t at;
    pthread_attr_init(&at);
    mprotect((void*)stack_base(id), 4096, PROT_NONE);
    pthread_attr_setstack(&at, (void*)(stack_base(id) + 4096), (2ull << 20) - 4096);
    int q = quiet;
    quiet = 1;
    bool ir = in_run;
    in_run = false;
    int rc = real_pthread_create(&T[id].tid, &at, trampoline, &T[id]);
    in_run = ir;
    quiet = q;
    if (rc)
        rfail("internal", "pthread_create failed %d", rc);
}
static void thread_finish()
{
    Th& me = T[cur];
    memcpy(me.fin_vc, me.vc, sizeof(VC));
    me.finished = true;
    set_multi();
    // hand the baton to somebody
    int cand[MAXT], c = 0;
    for (int k = 1; k <= nT; k++) {
        int i = (cur + k) % nT;
        if (i != cur && runnable(i))
            cand[c++] = i;
    }
    if (!c)
        rfail("deadlock", "no simulated thread can make progress (all blocked)");
    int n = cand[simrt_sched_choice(c)];
    do_switch_logged(n, 4);
}
static bool th_done(void* p) { return ((Th*)p)->finished; }
static void join_th(int id)
{
    Th& t = T[id];
    simrt_sync_point();
    if (!t.finished)
        block_until(th_done, &t);
    vc_join(T[cur].vc, t.fin_vc);
    t.joined = true;
    set_multi();
}
extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*f)(void*), void* arg)
{
    if (!in_run) {
        if (!real_pthread_create)
            real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
        return real_pthread_create(out, at, f, arg);
    }
    char lab[32];
    snprintf(lab, sizeof lab, "thread%d", created);
    int id = new_thread(lab);
    T[id].start = f;
    T[id].start_arg = arg;
    start_thread_real(id);
    *out = T[id].tid;
    set_multi();
    simrt_sync_point();
    return 0;
}
extern "C" int pthread_join(pthread_t t, void** rv)
{
    if (!in_run)
        return 0;
    for (int i = 0; i < nT; i++)
        if (T[i].used && T[i].tid == t) {
            join_th(i);
            if (rv)
                *rv = T[i].retval;
            return 0;
        }
    return ESRCH;
}
extern "C" int pthread_detach(pthread_t) { return 0; }
extern "C" int sched_yield()
{
    simrt_sync_point();
    return 0;
}
extern "C" int nanosleep(const struct timespec* ts, struct timespec*)
{
    if (in_run) {
        sim::advance_clock(ts->tv_sec * 1000000000ll + ts->tv_nsec);
        simrt_sync_point();
    }
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* ts, struct timespec* r) { return nanosleep(ts, r); }
extern "C" int usleep(useconds_t u)
{
    struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}

// ------------------------------------------------------------------ task pool (the simulated TBB scheduler)
struct Region;
struct Task {
    Region* reg;
    size_t i;
};
struct Region {
    void (*fn)(void*, size_t);
    void* ctx;
    size_t pending, queued;
    bool cancelled;
    std::exception_ptr ex;
    VC vc, done;
};
static Task* ready = nullptr;
static size_t ready_n = 0, ready_cap = 0;

static bool ready_any(void*) { return ready_n > 0; }
static void run_task(size_t k)
{
    Task t = ready[k];
    ready[k] = ready[--ready_n];
    Region* r = t.reg;
    r->queued--;
    vc_join(T[cur].vc, r->vc);
    if (!r->cancelled) {
        try {
            r->fn(r->ctx, t.i);
        }
        catch (...) {
            if (!r->cancelled) {
                r->cancelled = true;
                r->ex = std::current_exception();
            }
        }
    }
    vc_join(r->done, T[cur].vc);
    T[cur].vc[cur]++;
    r->pending--;
    simrt_sync_point();
}
static void worker_main()
{
    for (;;) {
        if (ready_n == 0)
            block_until(ready_any, nullptr);
        T[cur].pred = nullptr;
        if (ready_n == 0)
            continue;
        run_task(simrt_sched_choice((uint32_t)ready_n));
    }
}
struct WaitArg {
    Region* r;
};
static bool region_ready(void* a)
{
    Region* r = ((WaitArg*)a)->r;
    return r->pending == 0 || ready_n > 0;
}
static bool region_done(void* a) { return ((WaitArg*)a)->r->pending == 0; }

extern "C" int simrt_max_parallelism() { return in_run ? (max_par > 0 && max_par < R->nworkers + 1 ? max_par : R->nworkers + 1) : 1; }
extern "C" void simrt_set_parallelism(int n) { max_par = n; }

extern "C" void simrt_par_run(size_t n, void (*fn)(void*, size_t), void* ctx)
{
    if (n == 0)
        return;
    if (!in_run) {
        for (size_t i = 0; i < n; i++)
            fn(ctx, i);
        return;
    }
    // lazily created workers
    while (pool_n < simrt_max_parallelism() - 1) {
        sim::Quiet q;
        char lab[32];
        snprintf(lab, sizeof lab, "worker%d", pool_n);
        int id = new_thread(lab);
        T[id].fn = new std::function<void()>(worker_main);
        T[id].pred = ready_any;
        T[id].is_worker = true;
        pool_ids[pool_n++] = id;
        start_thread_real(id);
    }
    Region r;
    r.fn = fn;
    r.ctx = ctx;
    r.pending = r.queued = n;
    r.cancelled = false;
    memcpy(r.vc, T[cur].vc, sizeof(VC));
    T[cur].vc[cur]++;
    __real_memset(r.done, 0, sizeof(VC));
    if (ready_n + n > ready_cap) {
        size_t c = (ready_n + n) * 2 + 64;
        int sv = quiet;
        quiet = 1;
        Task* q = (Task*)malloc(c * sizeof(Task));
        if (ready_n)
            __real_memcpy(q, ready, ready_n * sizeof(Task));
        free(ready);
        ready = q;
        ready_cap = c;
        quiet = sv;
    }
    for (size_t i = 0; i < n; i++)
        ready[ready_n++] = Task{&r, i};
    par_regions++;
    set_multi();
    simrt_sync_point();
    while (r.pending) {
        // own tasks first; while waiting the thread may execute unrelated tasks
        size_t own = 0;
        for (size_t i = 0; i < ready_n; i++)
            if (ready[i].reg == &r)
                own++;
        if (own) {
            size_t k = simrt_sched_choice((uint32_t)own);
            for (size_t i = 0; i < ready_n; i++)
                if (ready[i].reg == &r && k-- == 0) {
                    run_task(i);
                    break;
                }
            continue;
        }
        if (ready_n && simrt_sched_choice(3) == 1) {
            run_task(simrt_sched_choice((uint32_t)ready_n));
            continue;
        }
        WaitArg w{&r};
        block_until(region_done, &w);
    }
    par_regions--;
    vc_join(T[cur].vc, r.done);
    set_multi();
    (void)region_ready;
    if (r.ex) {
        std::rethrow_exception(r.ex);
    }
}

// ------------------------------------------------------------------ public API
namespace sim {
    Reg::Reg(const char* prop, const char* name, void (*fn)(), int weight) { scenarios().push_back(ScenarioDef{prop, name, fn, weight}); }

    uint32_t draw(uint32_t n)
    {
        if (n <= 1) {
            return 0;
        }
        uint32_t v;
        if (!(R->mode & 1)) {
            v = (uint32_t)(next(R->rng_tape) >> 32);
            v = (uint32_t)(((uint64_t)v * n) >> 32);
            if (R->tape_n < TAPE_MAX)
                R->tape[R->tape_n++] = v;
            else
                v = 0;
            R->tape_pos++;
        }
        else {
            v = R->tape_pos < R->tape_n ? R->tape[R->tape_pos] % n : 0;
            R->tape_pos++;
        }
        hfold(R->hash, v);
        return v;
    }
    bool flip(double p) { return draw(1u << 20) >= (uint32_t)((1.0 - p) * (1u << 20)); }
    double unit() { return draw(1u << 30) / (double)(1u << 30); }

    void ev(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vlog(fmt, ap);
        va_end(ap);
    }
    void evd(double v)
    {
        uint64_t u;
        memcpy(&u, &v, 8);
        hfold(R->hash, u);
    }
    void evu(uint64_t v) { hfold(R->hash, v); }

    void fail(const char* cls, const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vfail(cls, fmt, ap);
        __builtin_unreachable();
    }
    void discard() { die(ST_DISCARD); }
    void nontrivial() { R->nontrivial = 1; }
    void probe(const char* name)
    {
        for (uint32_t i = 0; i < R->nprobe; i++)
            if (!strncmp(R->probe[i], name, 47))
                return;
        if (R->nprobe < PROBE_MAX)
            snprintf(R->probe[R->nprobe++], 48, "%s", name);
    }
    int spawn(const char* label, std::function<void()> f)
    {
        Quiet q;
        int id = new_thread(label);
        T[id].fn = new std::function<void()>(std::move(f));
        start_thread_real(id);
        set_multi();
        return id;
    }
    void join(int id) { join_th(id); }
    void join_all(const std::vector<int>& ids)
    {
        for (int i : ids)
            join_th(i);
    }
    void yield() { simrt_sync_point(); }
    int self() { return cur; }
    uint64_t now() { return R->step; }
    uint64_t steps() { return R->step; }
    int workers() { return R->nworkers; }
    void step_budget(uint64_t s)
    {
        R->budget = R->step + s;
        plan_next();
    }

    static const char* fnames[] = {"alloc_fail", "open_fail", "mkdir_fail", "write_short", "write_eintr", "write_enospc", "write_eio",
        "read_short", "read_eintr", "read_eio", "close_eio", "process_crash", "eval_throw", "eval_nan", "eval_inf", "hostname", "clock_jump",
        "weak_entropy", "user1", "user2", "user3"};
    const char* fault_name(int c) { return fnames[c]; }

    bool fault(Fault c, uint32_t* param)
    {
        if (!in_run || quiet || !(armed >> c & 1))
            return false;
        uint32_t hit = R->hits[c]++;
        bool yes = false;
        uint32_t p = 0;
        if (!(R->mode & 4)) {
            if (R->p_fault[c] > 0 && R->flt_n < FLT_MAX_N && u01(R->rng_fault) < R->p_fault[c]) {
                yes = true;
                p = (uint32_t)(next(R->rng_fault) >> 32);
                R->flt[R->flt_n++] = Flt{(uint32_t)c, hit, p};
            }
        }
        else {
            for (uint32_t i = 0; i < R->flt_n; i++)
                if (R->flt[i].cls == (uint32_t)c && R->flt[i].hit == hit) {
                    yes = true;
                    p = R->flt[i].param;
                    break;
                }
        }
        if (yes) {
            R->injected[c]++;
            logf("FAULT %s #%u", fnames[c], hit);
            if (param)
                *param = p;
        }
        return yes;
    }
    Arm::Arm(std::initializer_list<Fault> l) : mask(0), saved(armed)
    {
        for (Fault f : l)
            mask |= 1u << f;
        armed |= mask;
    }
    Arm::~Arm() { armed = saved; }
    Disarm::Disarm() : saved(armed) { armed = 0; }
    Disarm::~Disarm() { armed = saved; }
    void fault_again(Fault c) { R->injected[c]++; }
    uint32_t injected(Fault c) { return R->injected[c]; }
    bool any_injected()
    {
        for (int i = 0; i < F_NCLASSES; i++)
            if (R->injected[i])
                return true;
        return false;
    }
    Quiet::Quiet() { quiet++; }
    Quiet::~Quiet() { quiet--; }

    void* persistent(size_t n)
    {
        n = (n + 15) & ~15ull;
        if (R->user_n + n > sizeof R->user)
            rfail("internal", "persistent area full");
        void* p = R->user + R->user_n;
        R->user_n += n;
        __real_memset(p, 0, n);
        return p;
    }

    Exit incarnation(const std::function<void()>& f)
    {
        R->incarnations++;
        logf("incarnation %d starts", R->incarnations);
        pid_t p = fork();
        if (p < 0)
            rfail("internal", "fork failed");
        if (p == 0) {
            // a fresh process: only this thread exists
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (int i = 0; i < nT; i++)
                if (i != cur)
                    T[i].finished = true;
            pool_n = 0;
            ready_n = 0;
            proc_reset_fds();
            set_multi();
            try {
                f();
            }
            catch (std::exception& e) {
                rfail("uncaught-exception", "an exception terminates the process: %s", e.what());
            }
            catch (...) {
                rfail("uncaught-exception", "an exception terminates the process");
            }
            _exit(42);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
            logf("incarnation %d ends normally", R->incarnations);
            return EXIT_OK;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
            logf("incarnation %d crashed", R->incarnations);
            return EXIT_CRASH;
        }
        if (R->status != ST_NONE)
            _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 10);
        rfail("crash", "the process died (status %#x)", st);
    }

    void crash_point() { simrt::sys_point("user"); }
    void set_hostname(const std::string& n) { snprintf(R->hostname, sizeof R->hostname, "%s", n.c_str()); }
    void set_clock(int64_t ns) { R->clock_ns = ns; }
    int64_t clock_ns() { return R->clock_ns; }
    void advance_clock(int64_t ns)
    {
        R->clock_ns += ns;
        if (ns > 0)
            R->clock_total += ns;
    }
    void clock_ticks(bool v) { R->clock_ticks = v; }
    void set_pid(int p) { R->pid = p; }
    uint32_t entropy32()
    {
        if (!in_run)
            return 1;
        Th& t = T[cur];
        uint64_t s = R->ent_seed * 0x9e3779b97f4a7c15ull ^ hbytes(t.label, strlen(t.label)) ^ ((uint64_t)(t.ent_count++) << 20) ^ ((uint64_t)R->incarnations << 52);
        return (uint32_t)(mix(mix(s)) >> 16);
    }
}

namespace simrt {
    void crash_now()
    {
        logf("process killed");
        _exit(77);
    }
    void sys_point(const char* what)
    {
        if (!in_run || quiet)
            return;
        (void)what;
        if (sim::fault(sim::F_CRASH))
            crash_now();
        simrt_sync_point();
    }

    static void on_signal(int sig, siginfo_t* si, void*)
    {
        if (R->status == ST_NONE && !failing) {
            snprintf(R->vclass, sizeof R->vclass, "crash-signal-%d", sig);
            snprintf(R->vmsg, sizeof R->vmsg, "the process receives signal %d (%s)%s", sig, strsignal(sig),
                (sig == SIGSEGV && (uintptr_t)si->si_addr - ARENA < STACKS_SZ) ? " on a stack" : "");
            R->status = ST_VIOLATION;
        }
        _exit(12);
    }
    static void on_terminate()
    {
        const char* w = "";
        try {
            if (std::current_exception())
                std::rethrow_exception(std::current_exception());
        }
        catch (std::exception& e) {
            w = e.what();
            rfail("terminate", "std::terminate called after an exception: %s", w);
        }
        catch (...) {
        }
        rfail("terminate", "std::terminate called");
    }

    static double pick(uint64_t& s, std::initializer_list<double> l) { return l.begin()[next(s) % l.size()]; }

    static void run_scenario()
    {
        ScenarioDef& d = scenarios()[R->scenario];
        // environment knobs: first entries of the tape, so that they replay and shrink
        R->nworkers = (int)sim::draw(5);
        static const uint8_t fills[] = {0x00, 0xff, 0x41, 0xA5, 0x3f};
        R->fill = fills[sim::draw(5)];
        R->ent_seed = sim::draw(1u << 30);
        logf("run scenario=%s workers=%d fill=%02x entropy=%u", d.name, R->nworkers, R->fill, R->ent_seed);
        d.fn();
        logf("end");
        die(ST_OK);
    }

    void child_main()
    {
        heap_for_run();
        int dn = open("/dev/null", O_RDWR);
        if (dn >= 0) {
            dup2(dn, 1);
            if (!getenv("SIM_STDERR"))
                dup2(dn, 2);
        }
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        static char alt[65536];
        stack_t ss;
        memset(&ss, 0, sizeof ss);
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        (void)ss;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
            sigaction(s, &sa, nullptr);
        std::set_terminate(on_terminate);

        uint64_t s = R->seed;
        R->rng_tape = mix(s ^ 0x1111);
        R->rng_sched = mix(s ^ 0x2222);
        R->rng_fault = mix(s ^ 0x3333);
        uint64_t pol = mix(s ^ 0x4444);
        R->mean_gap = pick(pol, {30, 200, 1000, 5000, 30000, 1e9, 1e9});
        R->p_sync = pick(pol, {0, 0.02, 0.1, 0.4, 0.8});
        R->p_conf = pick(pol, {0, 0, 0.02, 0.2});
        R->p_choice = pick(pol, {0, 0.3, 1, 1, 1});
        bool faults = next(pol) % 4 != 0; // a quarter of the runs is fault free
        for (int c = 0; c < sim::F_NCLASSES; c++) {
            double p = pick(pol, {0, 0, 0.3, 0.1, 0.05, 0.02, 0.005});
            if (c == sim::F_ALLOC)
                p = pick(pol, {0, 0.1, 0.03, 0.01, 0.003, 0.001});
            if (c == sim::F_CRASH)
                p = pick(pol, {0, 0.2, 0.08, 0.03, 0.01, 0.004});
            R->p_fault[c] = faults ? p : 0;
        }
        failing = false;
        nT = created = 0;
        cur = 0;
        quiet = 0;
        armed = 0;
        race_off = 0;
        int id = new_thread("main");
        T[id].fn = new std::function<void()>(run_scenario);
        in_run = true;
        R->next_sp = 0;
        plan_next();
        start_thread_real(id);
        cur = id;
        futex_wake(&T[id].baton);
        for (;;)
            pause();
    }
}

extern "C" void __assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
    if (in_run) {
        const char* b = strrchr(file, '/');
        (void)fn;
        rfail("assertion", "assertion '%s' fails in %s", e, b ? b + 1 : file);
    }
    fprintf(stderr, "%s:%u: assert %s\n", file, line, e);
    _exit(2);
}

// ------------------------------------------------------------------ time, host, entropy
extern "C" int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!in_run)
        return (int)raw_syscall6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
    simrt_sync_point();
    uint32_t p;
    if (sim::fault(sim::F_CLOCK, &p))
        R->clock_ns += ((int64_t)(p % 20000) - 10000) * 1000000ll;
    else if (R->clock_ticks) {
        R->clock_ns += 100;
        R->clock_total += 100;
    }
    ts->tv_sec = R->clock_ns / 1000000000;
    ts->tv_nsec = R->clock_ns % 1000000000;
    return 0;
}
extern "C" time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" clock_t clock()
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return (clock_t)(ts.tv_sec % 100000 * 1000000 + ts.tv_nsec / 1000);
}
static struct tm static_tm;
extern "C" struct tm* localtime(const time_t* t)
{
    simrt_sync_point();
    race_access(&static_tm, sizeof static_tm, true);
    struct tm* r = gmtime_r(t, &static_tm);
    simrt_sync_point();
    return r;
}
extern "C" struct tm* gmtime(const time_t* t) { return localtime(t); }
extern "C" struct tm* localtime_r(const time_t* t, struct tm* o) { return gmtime_r(t, o); }
extern "C" size_t __real_strftime(char*, size_t, const char*, const struct tm*);
extern "C" size_t __wrap_strftime(char* b, size_t n, const char* f, const struct tm* t)
{
    race_access(t, sizeof *t, false);
    size_t r = __real_strftime(b, n, f, t);
    race_access(b, r ? r + 1 : n, true);
    simrt_sync_point();
    return r;
}
extern "C" int gethostname(char* b, size_t n)
{
    if (!in_run)
        return (int)-1;
    sys_point("gethostname");
    if (sim::fault(sim::F_HOST)) {
        errno = EPERM;
        return -1;
    }
    size_t l = strlen(R->hostname);
    race_access(b, l + 1 > n ? n : l + 1, true);
    if (l + 1 > n) {
        __real_memcpy(b, R->hostname, n); // truncated, not terminated, like glibc
        errno = ENAMETOOLONG;
        return -1;
    }
    __real_memcpy(b, R->hostname, l + 1);
    return 0;
}
extern "C" pid_t getpid()
{
    if (!in_run)
        return (pid_t)raw_syscall6(SYS_getpid, 0, 0, 0, 0, 0, 0);
    return R->pid;
}
extern "C" uint64_t sim_tsc()
{
    if (!in_run)
        return 1;
    if (armed >> sim::F_ENTROPY & 1 && sim::fault(sim::F_ENTROPY))
        return 7;
    return R->step * 3;
}
// std::random_device
extern "C" unsigned int sim_rd_getval(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
extern "C" unsigned int sim_rd_getval(void*)
{
    if (!in_run)
        return 1;
    simrt_sync_point();
    if (sim::fault(sim::F_ENTROPY))
        return 7;
    return sim::entropy32();
}
extern "C" void sim_rd_init(void*, const void*) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
extern "C" void sim_rd_init(void*, const void*) {}
extern "C" void sim_rd_fini(void*) __asm__("_ZNSt13random_device7_M_finiEv");
extern "C" void sim_rd_fini(void*) {}
extern "C" ssize_t getrandom(void* b, size_t n, unsigned)
{
    for (size_t i = 0; i < n; i++)
        ((char*)b)[i] = (char)sim::entropy32();
    return (ssize_t)n;
}
// futures of libstdc++ go through syscall(SYS_futex)
struct FutexArg {
    volatile int* p;
    int v;
};
static bool futex_changed(void* a) { return *((FutexArg*)a)->p != ((FutexArg*)a)->v; }
extern "C" long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (in_run && n == SYS_futex) {
        int op = (int)a[1] & 0x7f;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            FutexArg f{(volatile int*)a[0], (int)a[2]};
            simrt_sync_point();
            if (!futex_changed(&f)) {
                block_until(futex_changed, &f, a[3] != 0);
                if (!futex_changed(&f)) {
                    errno = ETIMEDOUT;
                    return -1;
                }
            }
            return 0;
        }
        simrt_sync_point();
        return 0;
    }
    long r = raw_syscall6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
