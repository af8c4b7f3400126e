// Deterministic simulator runtime. Compiled WITHOUT instrumentation; the code
// under test is compiled with -fsanitize=thread and linked against this file
// instead of the sanitizer's runtime, so every memory access, atomic, lock,
// allocation, file operation and entropy read of the code under test lands here.
#include <ucontext.h>
#include "sim.h"
#include <link.h>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <dlfcn.h>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <cxxabi.h>
#include <unistd.h>
#include <unwind.h>
#include <typeinfo>

using sim::u64;
typedef std::uint32_t u32;
typedef std::uint8_t u8;

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define RT_EXPORT extern "C" __attribute__((visibility("default")))

// ===========================================================================
// Shared structures
// ===========================================================================
namespace
{
    constexpr int MAXT = 48;            // simulated threads
    constexpr int N_OFF_PRE = 4096;

    struct Config
    {
        char scenario[64];
        u64 seed;
        int faults;
        int max_workers;                // 0: seeded
        double scale;
        u64 off_ops[8], off_faults[8], off_pre[N_OFF_PRE / 64];
    };

    struct Counter { char key[48]; u64 n; };

    enum Status { S_RUN = 0, S_OK = 1, S_VIOL = 2, S_ERR = 3 };

    struct Result
    {
        volatile int status;
        char cls[64];
        char msg[3072];
        u64 hash, ileave, steps, switches, regions, mt_regions, leaves, preempts, allocs, sim_ns;
        u64 pc[2];
        int ops_seen, faults_seen, pre_seen;
        u32 n_cover, n_count;
        u64 cover[512];
        Counter counters[64];
        u32 trace_len;
        char trace[24576];
    };

    Config *g_cfg = nullptr;
    Result *g_res = nullptr;
    bool g_on = false;                  // inside a simulated run
    int g_rt = 0;                       // inside the runtime: no preemption
    u64 g_hash = 0xcbf29ce484222325ull;

    inline void hash_in(u64 v) { g_hash = (g_hash ^ v) * 0x100000001b3ull; g_hash ^= g_hash >> 29; }

    // fixed registry of scenarios
    sim::Scenario g_scen[64];
    int g_nscen = 0;
}

void sim::add_scenario(const Scenario &s) { if (g_nscen < 64) g_scen[g_nscen++] = s; }

// ===========================================================================
// Raw helpers
// ===========================================================================
static long raw_futex(int *addr, int op, int val)
{
    long r;
    register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(addr), "S"((long)op), "d"((long)val), "r"(r10) : "rcx", "r11", "memory");
    return r;
}

static void die_result(int status, const char *cls, const char *msg)
{
    if (g_res)
    {
        snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
        snprintf(g_res->msg, sizeof g_res->msg, "%s", msg);
        hash_in(0xdead);
        for (const char *c = cls; *c; ++c) hash_in((u8)*c);
        for (const char *c = g_res->msg; *c; ++c) hash_in((u8)*c);
        g_res->hash = g_hash;
        __sync_synchronize();
        g_res->status = status;
    }
    else fprintf(stderr, "sim: %s: %s\n", cls, msg);
    _exit(status == S_OK ? 0 : 40 + status);
}

void sim::violation(const char *cls, const char *fmt, ...)
{
    g_rt++;
    char b[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    die_result(S_VIOL, cls, b);
    __builtin_unreachable();
}

void sim::note(const char *fmt, ...)
{
    if (!g_res) return;
    g_rt++;
    u32 l = g_res->trace_len;
    if (l < sizeof g_res->trace - 256)
    {
        va_list ap;
        va_start(ap, fmt);
        int k = vsnprintf(g_res->trace + l, 255, fmt, ap);
        va_end(ap);
        if (k > 254) k = 254;
        g_res->trace[l + k] = '\n';
        g_res->trace[l + k + 1] = 0;
        g_res->trace_len = l + k + 1;
    }
    g_rt--;
}

void sim::observe(u64 h) { hash_in(h); }
void sim::observe_bytes(const void *p, std::size_t n)
{
    const u8 *b = (const u8 *)p;
    u64 h = n;
    while (n >= 8) { u64 w; memcpy(&w, b, 8); h = mix(h, w); b += 8; n -= 8; }
    u64 w = 0; memcpy(&w, b, n); h = mix(h, w);
    hash_in(h);
}
void sim::cover(u64 h)
{
    if (g_res && g_res->n_cover < 512) g_res->cover[g_res->n_cover++] = h | 1;
}
void sim::count(const char *key, u64 n)
{
    if (!g_res) return;
    for (u32 i = 0; i < g_res->n_count; ++i)
        if (!strcmp(g_res->counters[i].key, key)) { g_res->counters[i].n += n; return; }
    if (g_res->n_count < 64)
    {
        auto &c = g_res->counters[g_res->n_count++];
        snprintf(c.key, sizeof c.key, "%s", key);
        c.n = n;
    }
}

sim::Rng sim::stream(const char *name, u64 k)
{
    u64 h = 1469598103934665603ull;
    for (; *name; ++name) h = (h ^ (u8)*name) * 1099511628211ull;
    return Rng(mix(mix(g_cfg ? g_cfg->seed : 0, h), k));
}
static inline bool bit(const u64 *m, int i) { return (m[i >> 6] >> (i & 63)) & 1; }
bool sim::op_on(int i)
{
    if (i < 0 || i >= 512) return true;
    if (g_res && i + 1 > g_res->ops_seen) g_res->ops_seen = i + 1;
    return !bit(g_cfg->off_ops, i);
}
bool sim::fault_on(int i)
{
    if (i < 0 || i >= 512) return true;
    if (g_res && i + 1 > g_res->faults_seen) g_res->faults_seen = i + 1;
    return !bit(g_cfg->off_faults, i);
}
double sim::size_scale() { return g_cfg ? g_cfg->scale : 1.0; }
bool sim::faults_enabled() { return g_cfg && g_cfg->faults; }
static bool g_serial_mode = false;
bool sim::active() { return g_on && !g_serial_mode; }
void sim::serial(bool on) { g_serial_mode = on; }

// ===========================================================================
// Threads, baton, vector clocks
// ===========================================================================
namespace
{
    enum TState : u8 { T_UNUSED, T_IDLE, T_RUN, T_BLOCK, T_DONE };
    struct Region;
    struct SimThread
    {
        std::atomic<int> go{0};
        TState st{T_UNUSED};
        const void *key{nullptr};       // what it is blocked on
        bool timed{false}, timed_out{false};
        pthread_t th{};
        Region *job{nullptr};
        bool is_pool{false};
        void *(*entry)(void *){nullptr};
        void *arg{nullptr};
        void *ret{nullptr};
        bool detached{false};
        u32 vc[MAXT]{};
    };
    SimThread T[MAXT];
    int g_cur = 0;                      // who holds the baton
    int g_nthr = 1;
    int g_live = 1;                     // threads in T_RUN/T_BLOCK
    bool g_mt = false;                  // more than one runnable thread: preemption makes sense
    int g_track = 0;                    // open regions with helpers, threads ever created: accesses may conflict
    u64 g_acc = 0;                      // accesses
    u64 g_next_event = ~0ull, g_next_pre = ~0ull, g_budget = ~0ull;
    int g_pre_left = 0;
    int g_pre_kind = 0;
    sim::Rng g_sched, g_split, g_block;
    int g_force_workers = 0;
    u64 g_vclock_ns = 1600000000ull * 1000000000ull;

    inline void set_event() { g_next_event = g_next_pre < g_budget ? g_next_pre : g_budget; }

    inline void refresh_mt()
    {
        g_mt = g_live > 1;
        if (!g_mt) { g_next_pre = ~0ull; set_event(); }
    }

    void draw_preempt()
    {
        if (!g_mt || g_pre_left <= 0) { g_next_pre = ~0ull; set_event(); return; }
        u64 gap;
        switch (g_pre_kind)
        {
        case 0: gap = ~0ull; break;                                   // none
        case 1: gap = 1 + g_sched.below(1ull << g_sched.below(15)); break; // log-uniform
        case 2: gap = 1 + g_sched.below(12); break;                   // dense
        default: gap = 1 + g_sched.below(400); break;
        }
        g_next_pre = gap == ~0ull ? gap : g_acc + gap;
        set_event();
    }

    void baton_wait(int me)
    {
        SimThread &t = T[me];
        while (!t.go.load(std::memory_order_acquire))
            raw_futex((int *)&t.go, FUTEX_WAIT_PRIVATE, 0);
        t.go.store(0, std::memory_order_relaxed);
    }
    void baton_give(int to)
    {
        g_cur = to;
        T[to].go.store(1, std::memory_order_release);
        raw_futex((int *)&T[to].go, FUTEX_WAKE_PRIVATE, 1);
    }
    void log_switch(int from, int to, char why)
    {
        g_res->switches++;
        u64 h = ((u64)from << 8) | (u64)to | ((u64)(u8)why << 16);
        hash_in(sim::mix(g_acc, h));
        g_res->ileave = sim::mix(g_res->ileave ^ h, g_acc);
        if (g_res->trace_len < 12000)
            sim::note("  sched @%llu t%d->t%d (%c)", (unsigned long long)g_acc, from, to, why);
    }
    void switch_to(int to, char why)
    {
        int me = g_cur;
        if (to == me) return;
        log_switch(me, to, why);
        int rt = g_rt; // runtime depth is per running thread
        baton_give(to);
        baton_wait(me);
        g_rt = rt;
    }
    int pick_runnable(sim::Rng &r, int except)
    {
        int c[MAXT], n = 0;
        for (int i = 0; i < g_nthr; ++i)
            if (T[i].st == T_RUN && i != except) c[n++] = i;
        if (!n) return -1;
        return c[r.below(n)];
    }
    void block_on(const void *key, bool timed = false)
    {
        int me = g_cur;
        T[me].st = T_BLOCK;
        T[me].key = key;
        T[me].timed = timed;
        T[me].timed_out = false;
        int to = pick_runnable(g_block, -1);
        if (to < 0)
        {
            for (int i = 0; i < g_nthr; ++i)
                if (T[i].st == T_BLOCK && T[i].timed)
                {
                    T[i].timed_out = true;
                    T[i].st = T_RUN;
                    g_vclock_ns += 1000000000ull;
                    to = i;
                    break;
                }
        }
        if (to < 0) sim::violation("deadlock", "every simulated thread is blocked");
        if (to != me) switch_to(to, 'b');
        T[me].key = nullptr;
    }
    int wake(const void *key, int n)
    {
        int w = 0;
        for (int i = 0; i < g_nthr && w < n; ++i)
            if (T[i].st == T_BLOCK && T[i].key == key) { T[i].st = T_RUN; ++w; }
        return w;
    }

    void vc_join(u32 *a, const u32 *b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }

    // ---- sync-object clocks (keyed by address) -----------------------------
    struct Sync { const void *key; u32 vc[MAXT]; int owner; int depth; int readers; u8 once; };
    constexpr int NSYNC = 4096;
    Sync g_sync[NSYNC];
    Sync &sync_of(const void *p)
    {
        u64 h = ((u64)p >> 2) * 0x9E3779B97F4A7C15ull >> 40;
        for (int i = 0; i < NSYNC; ++i)
        {
            Sync &s = g_sync[(h + i) & (NSYNC - 1)];
            if (s.key == p) return s;
            if (!s.key) { s.key = p; s.owner = -1; return s; }
        }
        die_result(S_ERR, "sim", "sync table full");
        __builtin_unreachable();
    }
    void acquire(Sync &s) { vc_join(T[g_cur].vc, s.vc); }
    void release(Sync &s) { vc_join(s.vc, T[g_cur].vc); T[g_cur].vc[g_cur]++; }

    void do_preempt()
    {
        g_rt++;
        int id = g_res->pre_seen++;
        g_pre_left--;
        int to = pick_runnable(g_sched, g_cur);
        bool off = id < N_OFF_PRE && bit(g_cfg->off_pre, id);
        draw_preempt();
        if (to >= 0 && !off)
        {
            g_res->preempts++;
            switch_to(to, 'p');
        }
        g_rt--;
    }

    __attribute__((noinline)) void slow_event()
    {
        if (g_acc >= g_budget)
        {
            g_budget = ~0ull;
            sim::violation("hang", "no completion within the step budget (%llu accesses)", (unsigned long long)g_acc);
        }
        if (g_acc >= g_next_pre)
        {
            if (g_rt) { g_next_pre = g_acc + 1; set_event(); return; }
            do_preempt();
        }
    }

    // ---- fork/join regions -------------------------------------------------
    constexpr u64 STACK_BASE = 0x300000000000ull, STACK_SIZE = 1ull << 20;
    constexpr u64 MAIN_STACK = 0x2ff000000000ull, MAIN_STACK_SIZE = 8ull << 20;
    u32 g_stack_gen[MAXT];              // generation of a pool thread's stack: one per job
    struct Region
    {
        u32 vc[MAXT];                   // join of the clocks at which its workers ended
        std::size_t n;
        void (*fn)(void *, std::size_t);
        void *ctx;
        std::size_t *order;
        std::size_t next{0};
        bool cancelled{false};
        bool own_thread{false};         // each leaf its own thread
        int active{0};
        std::exception_ptr err;
        bool has_err{false};
    };

    void worker_loop(Region &R)
    {
        for (;;)
        {
            if (R.cancelled || R.next >= R.n) return;
            std::size_t leaf = R.order[R.next++];
            hash_in(0x1eaf0000 + leaf * 64 + g_cur);
            g_res->ileave = sim::mix(g_res->ileave, leaf * 64 + g_cur);
            if (!R.own_thread && g_mt && g_sched.below(2))
            {
                int id = g_res->pre_seen++;
                int to = pick_runnable(g_sched, g_cur);
                if (to >= 0 && !(id < N_OFF_PRE && bit(g_cfg->off_pre, id)))
                {
                    g_rt++;
                    switch_to(to, 'l');
                    g_rt--;
                }
            }
            try { R.fn(R.ctx, leaf); }
            catch (...)
            {
                if (!R.has_err) { R.err = std::current_exception(); R.has_err = true; }
                if (!R.own_thread) R.cancelled = true;
                sim::count("probe.exception_in_parallel_region");
            }
            if (R.own_thread) return;
        }
    }

    void finish_thread(int me, TState end)
    {
        T[me].st = end;
        --g_live;
        refresh_mt();
        int to = pick_runnable(g_block, -1);
        if (to < 0)
        {
            for (int i = 0; i < g_nthr; ++i)
                if (T[i].st == T_BLOCK && T[i].timed) { T[i].timed_out = true; T[i].st = T_RUN; to = i; break; }
            if (to < 0) sim::violation("deadlock", "every simulated thread is blocked or finished");
        }
        log_switch(me, to, 'e');
        baton_give(to);
    }

    void *pool_main(void *a)
    {
        int me = (int)(long)a;
        for (;;)
        {
            baton_wait(me);
            g_rt = 0;
            Region *R = T[me].job;
            worker_loop(*R);
            g_rt = 1;
            vc_join(R->vc, T[me].vc);
            R->active--;
            wake(R, 1);
            finish_thread(me, T_IDLE);
        }
        return nullptr;
    }

    typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    create_t real_create()
    {
        static create_t f = (create_t)dlsym(RTLD_NEXT, "pthread_create");
        return f;
    }

    int pool_thread()
    {
        for (int i = 1; i < g_nthr; ++i)
            if (T[i].is_pool && T[i].st == T_IDLE) return i;
        if (g_nthr >= MAXT - 4) return -1;
        int i = g_nthr++;
        T[i].is_pool = true;
        T[i].st = T_IDLE;
        pthread_attr_t at;
        pthread_attr_init(&at);
        // own stack arena: the race detector must be able to tell whose stack an address is on
        char *stk = (char *)mmap((void *)(STACK_BASE + (u64)i * STACK_SIZE), STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (stk == MAP_FAILED) die_result(S_ERR, "sim", "stack mmap failed");
        mprotect(stk, 4096, PROT_NONE);
        pthread_attr_setstack(&at, stk, STACK_SIZE);
        if (real_create()(&T[i].th, &at, pool_main, (void *)(long)i)) die_result(S_ERR, "sim", "pthread_create failed");
        pthread_attr_destroy(&at);
        return i;
    }

    void fork_vc(int child)
    {
        SimThread &c = T[child], &p = T[g_cur];
        u32 own = c.vc[child];
        memcpy(c.vc, p.vc, sizeof c.vc);
        c.vc[child] = (own > p.vc[child] ? own : p.vc[child]) + 1;
        p.vc[g_cur]++;
    }

    void run_region(std::size_t n, void (*fn)(void *, std::size_t), void *ctx, bool own)
    {
        if (!n) return;
        if (!g_on) { for (std::size_t i = 0; i < n; ++i) fn(ctx, i); return; }
        g_rt++;
        std::size_t ord_small[512];
        std::size_t *order = n <= 512 ? ord_small : (std::size_t *)mmap(0, n * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (std::size_t i = 0; i < n; ++i) order[i] = i;
        u64 style = g_split.below(4);
        if (style == 0) ;                                             // in order
        else if (style == 1) for (std::size_t i = 0; i < n / 2; ++i) std::swap(order[i], order[n - 1 - i]);
        else for (std::size_t i = n; i > 1; --i) std::swap(order[i - 1], order[g_split.below(i)]);
        std::size_t W = 1 + g_split.below(g_split.below(3) ? 4 : 8);
        if (g_split.below(16) == 0) W = 1;
        else if (W == 1) W = 2;
        if (g_force_workers) W = g_force_workers;
        if (g_cfg->max_workers && (int)W > g_cfg->max_workers) W = g_cfg->max_workers;
        if (own) W = n;
        if (W > n) W = n;
        g_res->regions++;
        g_res->leaves += n;
        Region R{}; // includes an all-zero clock
        R.n = n; R.fn = fn; R.ctx = ctx; R.order = order; R.own_thread = own;
        int me = g_cur;
        int members[MAXT], nm = 0;
        std::size_t extra = own ? n : W - 1;
        // pre-emption budget for this region
        u64 k = g_sched.below(8);
        int kind = k == 0 ? 0 : k <= 4 ? 1 : k == 5 ? 2 : 3;
        for (std::size_t w = 0; w < extra; ++w)
        {
            int p = pool_thread();
            if (p < 0) break;
            T[p].job = &R;
            g_stack_gen[p]++;
            fork_vc(p);
            T[p].st = T_RUN;
            R.active++;
            g_live++;
            members[nm++] = p;
        }
        hash_in(0x5e610000 + n * 16 + nm);
        if (g_res->trace_len < 12000)
            sim::note("region pieces=%zu workers=%d%s", n, nm + (own ? 0 : 1), own ? " caller-threads" : "");
        if (nm)
        {
            g_res->mt_regions++;
            g_track++;
            g_mt = g_live > 1;
            if (g_live == nm + 1) { g_pre_kind = kind; g_pre_left = kind == 2 ? 120 : 60; }
            draw_preempt();
        }
        g_rt--;
        if (!own) worker_loop(R);
        else if (nm < (int)n) die_result(S_ERR, "sim", "too many simulated threads");
        g_rt++;
        while (R.active > 0) block_on(&R);
        vc_join(T[me].vc, R.vc);
        T[me].vc[me]++;
        if (nm) g_track--;
        refresh_mt();
        if (order != ord_small) munmap(order, n * 8);
        g_rt--;
        if (R.has_err)
        {
            std::exception_ptr e = std::move(R.err);
            std::rethrow_exception(std::move(e));
        }
    }
}

void sim::run_leaves(std::size_t n, void (*fn)(void *, std::size_t), void *ctx) { run_region(n, fn, ctx, false); }
void sim::run_threads(std::size_t n, void (*fn)(void *, std::size_t), void *ctx) { run_region(n, fn, ctx, true); }
void sim::force_workers(int w) { g_force_workers = w; }
u64 sim::region_choice(u64 n) { return g_split.below(n); }
void sim::sched_point() { if (g_mt && ++g_acc >= g_next_event) slow_event(); }
u64 sim::steps() { return g_acc; }
void sim::step_budget(u64 m) { g_budget = g_acc + m; set_event(); }

std::size_t sim::split_plan(std::size_t n, std::size_t grain, std::size_t *cuts, std::size_t cap)
{
    // styles: one piece, near-even, random cuts, singletons
    u64 st = g_split.below(8);
    std::size_t maxp = n / (grain ? grain : 1);
    if (maxp < 1) maxp = 1;
    if (maxp > cap) maxp = cap;
    std::size_t m = 0;
    if (st == 0 || maxp == 1) { cuts[0] = n; return 1; }
    if (st == 1 && maxp >= n && n <= 64) { for (std::size_t i = 0; i < n; ++i) cuts[m++] = i + 1; return m; }
    std::size_t want = st <= 4 ? 2 + g_split.below(maxp < 8 ? maxp - 1 : 7) : 2 + g_split.below(maxp < 32 ? maxp - 1 : 31);
    if (want > maxp) want = maxp;
    if (st <= 2)
    {
        for (std::size_t i = 0; i < want; ++i)
        {
            std::size_t e = (i + 1) * n / want;
            if (m && e - cuts[m - 1] < grain && i + 1 < want) continue;
            cuts[m++] = e;
        }
        cuts[m - 1] = n;
    }
    else
    {
        std::size_t pos = 0;
        while (pos < n && m + 1 < want)
        {
            std::size_t left = n - pos;
            if (left < 2 * grain) break;
            std::size_t len = grain + g_split.below(left - 2 * grain + 1) / (1 + g_split.below(want));
            if (len < grain) len = grain;
            pos += len;
            cuts[m++] = pos;
        }
        if (pos < n) cuts[m++] = n;
    }
    // guard the grain on the last piece
    if (m >= 2 && cuts[m - 1] - cuts[m - 2] < grain) { cuts[m - 2] = cuts[m - 1]; --m; }
    return m;
}

// ===========================================================================
// Heap: fixed-address arena, seeded layout, redzones, fault injection
// ===========================================================================
namespace
{
    constexpr u64 HEAP_BASE = 0x200000000000ull, HEAP_SIZE = 1ull << 34;   // 16 GiB reserved
    constexpr u64 BOOT_BASE = 0x100000000000ull, BOOT_SIZE = 1ull << 32;
    constexpr u64 SHADOW_BASE = 0x280000000000ull;
    constexpr int NCLASS = 64 + 40;

    struct Hdr { u32 magic; u32 cls; u64 size; u64 pad_off; u64 boot; }; // 32 bytes before the user block
    constexpr u32 MAGIC = 0xA110CA7E, FREED = 0xF3EEF3EE;

    struct Arena
    {
        u64 base, size, top;
        bool shadowed;
        void *freel[NCLASS];     // ready blocks (LIFO)
        u32 nfree[NCLASS];
        void *quar[NCLASS];      // recently freed (FIFO tail) -- only when shadowed
        void *quar_tail[NCLASS];
        u32 nquar[NCLASS];
    } A[2];

    bool g_heap_ready = false;
    std::atomic_flag g_heap_lock = ATOMIC_FLAG_INIT;
    sim::Rng g_heap_rng{0};
    bool g_scatter = false;
    bool g_armed = false, g_persist = false;
    u64 g_arm_k = 0, g_arm_seen = 0, g_arm_failed = 0;
    u64 g_live_blocks = 0, g_live_bytes = 0, g_allocs = 0;

    u64 cls_size(int c)
    {
        if (c < 64) return 16ull * (c + 1);
        int k = c - 64;                        // 1024 * {1.25,1.5,1.75,2} * 2^..
        u64 b = 1024ull << (k / 4);
        return b + b / 4 * (k % 4 + 1);
    }
    int cls_of(u64 n)
    {
        if (n <= 1024) return n ? (int)((n - 1) / 16) : 0;
        for (int c = 64; c < NCLASS; ++c) if (cls_size(c) >= n) return c;
        return -1;
    }
    inline u8 *shadow(u64 a) { return (u8 *)(SHADOW_BASE + ((a - HEAP_BASE) >> 3)); }
    void poison(u64 a, u64 n, u8 v) { memset(shadow(a), v, (n + 7) >> 3); }
    void unpoison(u64 a, u64 n)
    {
        memset(shadow(a), 8, n >> 3);
        if (n & 7) *shadow(a + (n & ~7ull)) = (u8)(n & 7);
    }

    void heap_init()
    {
        if (g_heap_ready) return;
        void *p = mmap((void *)BOOT_BASE, BOOT_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        void *q = mmap((void *)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        void *s = mmap((void *)SHADOW_BASE, HEAP_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void *)BOOT_BASE || q != (void *)HEAP_BASE || s != (void *)SHADOW_BASE) { (void)!write(2, "sim: cannot map heap\n", 21); _exit(99); }
        A[0].base = A[0].top = BOOT_BASE; A[0].size = BOOT_SIZE;
        A[1].base = A[1].top = HEAP_BASE; A[1].size = HEAP_SIZE; A[1].shadowed = true;
        g_heap_ready = true;
    }

    // raw block for class c from arena ar; returns address of the Hdr
    void *carve(Arena &ar, int c, u64 usz)
    {
        u64 stride = (32 + usz + 16 + 15) & ~15ull;
        int cnt = 1;
        if (&ar == &A[1] && g_scatter && usz <= 4096) cnt = 32;
        u64 need = stride * cnt;
        if (ar.top + need > ar.base + ar.size) return nullptr;
        u64 b = ar.top;
        ar.top += need;
        if (&ar == &A[1] && g_scatter) ar.top += 16 * g_heap_rng.below(8);
        if (cnt == 1) return (void *)b;
        // scatter: hand the pieces out in a shuffled order
        int perm[32];
        for (int i = 0; i < cnt; ++i) perm[i] = i;
        for (int i = cnt; i > 1; --i) std::swap(perm[i - 1], perm[g_heap_rng.below(i)]);
        for (int i = 1; i < cnt; ++i)
        {
            void *h = (void *)(b + stride * perm[i]);
            *(void **)h = ar.freel[c];
            ar.freel[c] = h;
            ar.nfree[c]++;
        }
        return (void *)(b + stride * perm[0]);
    }

    void shadow_clear_races(u64 a, u64 n); // fwd
    void race_free(u64 a, u64 n, u64 pc);

    /// NLopt formats its messages with realloc and aborts when that fails: no caller of it can do
    /// anything about that, so those allocations are spared.
    bool in_nlopt(u64 pc)
    {
        static u64 lo = 1, hi = 0;
        if (lo > hi)
        {
            lo = hi = 0;
            dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) -> int {
                if (!i->dlpi_name || !strstr(i->dlpi_name, "libnlopt")) return 0;
                for (int k = 0; k < i->dlpi_phnum; ++k)
                {
                    auto &h = i->dlpi_phdr[k];
                    if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) { lo = i->dlpi_addr + h.p_vaddr; hi = lo + h.p_memsz; }
                }
                return 1;
            }, nullptr);
        }
        return pc - lo < hi - lo;
    }

    /// Eigen's dense arrays free their memory before they allocate anew and free it again when that
    /// fails. Its sparse LU resizes non-empty arrays while analysing, and when it retries after a
    /// failed allocation: those allocations are spared, nobody but Eigen can do anything about them.
    bool in_sparse_resize()
    {
        struct W { int n; bool hit; } w{0, false};
        bool rt = g_rt;
        g_rt = true;
        _Unwind_Backtrace([](_Unwind_Context *c, void *a) -> _Unwind_Reason_Code {
            W &w = *(W *)a;
            // 0: not looked up, 1: other code, 2: analysing, 3: factorising
            static struct { u64 pc; u8 kind; } known[8192];
            u64 pc = _Unwind_GetIP(c);
            auto &k = known[(pc ^ pc >> 13) % 8192];
            if (k.pc != pc || !k.kind)
            {
                Dl_info i;
                k = {pc, 1};
                if (dladdr((void *)pc, &i) && i.dli_sname && strstr(i.dli_sname, "SparseLU"))
                    k.kind = strstr(i.dli_sname, "analyzePattern") ? 2 : strstr(i.dli_sname, "memInit") || strstr(i.dli_sname, "factorize") ? 3 : 1;
            }
            if (k.kind == 2 || (k.kind == 3 && g_arm_failed)) { w.hit = true; return _URC_END_OF_STACK; }
            return ++w.n < 24 ? _URC_NO_REASON : _URC_END_OF_STACK;
        }, &w);
        g_rt = rt;
        return w.hit;
    }

    void *heap_alloc(u64 n, u64 align, bool spared = false)
    {
        heap_init();
        bool user = g_on && !g_rt;
        if (user)
        {
            ++g_allocs;
            if (g_armed && !spared)
            {
                ++g_arm_seen;
                if (g_arm_k && (g_arm_seen == g_arm_k || (g_persist && g_arm_seen > g_arm_k)) && !in_sparse_resize())
                {
                    ++g_arm_failed;
                    hash_in(0xa110c000 + g_arm_seen);
                    if (g_arm_failed == 1) sim::note("  fault alloc #%llu fails%s", (unsigned long long)g_arm_seen, g_persist ? " (and all later ones)" : "");
                    errno = ENOMEM;
                    return nullptr;
                }
            }
        }
        Arena &ar = A[user ? 1 : 0];
        while (g_heap_lock.test_and_set(std::memory_order_acquire)) ;
        u64 want = n + (align > 16 ? align : 0);
        int c = cls_of(want);
        void *h = nullptr;
        if (c >= 0)
        {
            if (ar.freel[c])
            {
                h = ar.freel[c];
                ar.freel[c] = *(void **)h;
                ar.nfree[c]--;
            }
            else h = carve(ar, c, cls_size(c));
        }
        else
        {
            u64 sz = (32 + want + 16 + 4095) & ~4095ull;
            if (ar.top + sz + 4096 <= ar.base + ar.size) { h = (void *)ar.top; ar.top += sz; }
        }
        g_heap_lock.clear(std::memory_order_release);
        if (!h) { errno = ENOMEM; return nullptr; }
        u64 u = (u64)h + 32;
        if (align > 16) u = (u + align - 1) & ~(align - 1);
        Hdr *hd = (Hdr *)(u - 32);
        hd->magic = MAGIC; hd->cls = (u32)c; hd->size = n; hd->pad_off = u - 32 - (u64)h; hd->boot = ar.shadowed ? 0 : 1;
        if (ar.shadowed)
        {
            g_live_blocks++;
            g_live_bytes += n;
            unpoison(u, n ? n : 1);
            *shadow(u + ((n + 7) & ~7ull)) = 0xFA;
            shadow_clear_races(u, n);
            // defined garbage, so that a read of uninitialised memory is repeatable
            memset((void *)u, 0xB5, n < 4096 ? n : 4096);
        }
        return (void *)u;
    }

    void heap_free(void *p, u64 pc)
    {
        if (!p) return;
        u64 u = (u64)p;
        if (u - BOOT_BASE >= BOOT_SIZE && u - HEAP_BASE >= HEAP_SIZE) return; // foreign
        Hdr *hd = (Hdr *)(u - 32);
        if (hd->magic != MAGIC)
        {
            if (g_on)
            {
                g_res->pc[0] = pc;
                sim::violation("memory", hd->magic == FREED ? "double free" : "free of a pointer that was not allocated");
            }
            return;
        }
        bool sh = !hd->boot;
        u64 n = hd->size;
        if (sh)
        {
            if (g_on) { g_live_blocks--; g_live_bytes -= n; race_free(u, n, pc); }
            poison(u, n ? n : 1, 0xFD);
        }
        hd->magic = FREED;
        int c = (int)hd->cls;
        Arena &ar = A[sh ? 1 : 0];
        void *h = (void *)(u - 32 - hd->pad_off);
        while (g_heap_lock.test_and_set(std::memory_order_acquire)) ;
        if (c >= 0)
        {
            void **link = (void **)h;
            if (sh)
            {
                // quarantine: FIFO of 24 blocks per class before reuse
                *link = nullptr;
                if (ar.quar_tail[c]) *(void **)ar.quar_tail[c] = h; else ar.quar[c] = h;
                ar.quar_tail[c] = h;
                if (++ar.nquar[c] > (g_scatter ? 24u : 4u))
                {
                    void *o = ar.quar[c];
                    ar.quar[c] = *(void **)o;
                    if (!ar.quar[c]) ar.quar_tail[c] = nullptr;
                    ar.nquar[c]--;
                    *(void **)o = ar.freel[c];
                    ar.freel[c] = o;
                    ar.nfree[c]++;
                }
            }
            else { *link = ar.freel[c]; ar.freel[c] = h; ar.nfree[c]++; }
        }
        else madvise((void *)(((u64)h + 4095) & ~4095ull), n & ~4095ull, MADV_DONTNEED);
        g_heap_lock.clear(std::memory_order_release);
    }
}

void sim::alloc_arm(u64 k, bool persistent) { g_arm_k = k; g_persist = persistent; g_arm_seen = g_arm_failed = 0; g_armed = true; }
void sim::alloc_count_begin() { g_arm_k = 0; g_persist = false; g_arm_seen = g_arm_failed = 0; g_armed = true; }
sim::AllocWindow sim::alloc_disarm()
{
    if (g_armed && g_arm_failed) sim::count("fault.alloc");
    g_armed = false;
    return {g_arm_seen, g_arm_failed};
}
u64 sim::live_blocks() { return g_live_blocks; }
u64 sim::live_bytes() { return g_live_bytes; }
void sim::heap_layout(u64 seed) { g_scatter = seed != 0; g_heap_rng = Rng(seed); }

RT_EXPORT void *malloc(size_t n) { return heap_alloc(n, 16); }
RT_EXPORT void free(void *p) { heap_free(p, (u64)__builtin_return_address(0)); }
RT_EXPORT void *calloc(size_t a, size_t b)
{
    u64 n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = heap_alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
RT_EXPORT void *realloc(void *p, size_t n)
{
    bool spared = g_armed && in_nlopt((u64)__builtin_return_address(0));
    if (!p) return heap_alloc(n, 16, spared);
    if (!n) { heap_free(p, (u64)__builtin_return_address(0)); return nullptr; }
    Hdr *hd = (Hdr *)((u64)p - 32);
    void *q = heap_alloc(n, 16, spared);
    if (!q) return nullptr;
    memcpy(q, p, hd->size < n ? hd->size : n);
    heap_free(p, (u64)__builtin_return_address(0));
    return q;
}
RT_EXPORT void *memalign(size_t al, size_t n) { return heap_alloc(n, al < 16 ? 16 : al); }
RT_EXPORT void *aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al < 16 ? 16 : al); }
RT_EXPORT int posix_memalign(void **o, size_t al, size_t n)
{
    void *p = heap_alloc(n, al < 16 ? 16 : al);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
RT_EXPORT void *valloc(size_t n) { return heap_alloc(n, 4096); }
RT_EXPORT void *pvalloc(size_t n) { return heap_alloc((n + 4095) & ~4095ull, 4096); }
RT_EXPORT size_t malloc_usable_size(void *p) { return p ? ((Hdr *)((u64)p - 32))->size : 0; }

// ===========================================================================
// Memory accesses: addressability + happens-before race detection
// ===========================================================================
namespace
{
    struct Acc { u64 pc; u32 clk; u8 tid, mask, w, at; };
    struct Cell { u64 gran; u32 rot; u32 used; Acc a[4]; };
    constexpr u64 NCELL = 1 << 19;
    Cell *g_cells = nullptr;

    Cell *cell_of(u64 gran, bool create)
    {
        if (!g_cells)
        {
            if (!create) return nullptr;
            g_cells = (Cell *)mmap(0, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        }
        u64 h = (gran ^ (gran >> 19) ^ (gran >> 33) ^ (gran >> 41)) & (NCELL - 1);
        for (int i = 0; i < 64; ++i)
        {
            Cell &c = g_cells[(h + i) & (NCELL - 1)];
            if (c.gran == gran) return &c;
            if (!c.gran)
            {
                if (!create) return nullptr;
                c.gran = gran;
                return &c;
            }
        }
        return nullptr; // neighbourhood full: access not tracked
    }

    __attribute__((noinline)) void report_race(const Acc &o, u64 pc, bool w, u64 addr)
    {
        (void)addr;
        g_res->pc[0] = pc;
        g_res->pc[1] = o.pc;
        g_rt++;
        sim::violation("race", "unsynchronised %s at pc 0x%llx conflicts with an earlier %s at pc 0x%llx in another thread",
                       w ? "write" : "read", (unsigned long long)pc, o.w ? "write" : "read", (unsigned long long)o.pc);
    }

    void race_check(u64 addr, u64 size, bool w, bool at, u64 pc)
    {
        u64 end = addr + size;
        SimThread &t = T[g_cur];
        u64 gen = 0;
        if (UNLIKELY(addr - STACK_BASE < MAXT * STACK_SIZE)) gen = (u64)(g_stack_gen[(addr - STACK_BASE) / STACK_SIZE] & 0xffff) << 46;
        for (u64 g = addr >> 3; g <= (end - 1) >> 3; ++g)
        {
            Cell *c = cell_of(g | gen, true);
            if (!c) continue;
            u64 lo = g << 3, b0 = addr > lo ? addr - lo : 0, b1 = end < lo + 8 ? end - lo : 8;
            u8 mask = (u8)(((1u << b1) - 1) & ~((1u << b0) - 1));
            int slot = -1;
            for (int i = 0; i < 4; ++i)
            {
                Acc &o = c->a[i];
                if (!o.mask) { if (slot < 0) slot = i; continue; }
                if (!(o.mask & mask)) continue;
                if (o.tid == g_cur)
                {
                    if (o.mask == mask && o.w == w && o.at == at) slot = i; // refresh own
                    continue;
                }
                if (!(w || o.w)) continue;
                if (at && o.at) continue;
                if (t.vc[o.tid] >= o.clk) continue;  // ordered
                report_race(o, pc, w, addr);
            }
            if (slot < 0) slot = (int)(c->rot++ & 3);
            c->a[slot] = {pc, t.vc[g_cur], (u8)g_cur, mask, (u8)w, (u8)at};
        }
    }

    void shadow_clear_races(u64 a, u64 n)
    {
        if (!g_cells || !g_track) return;
        for (u64 g = a >> 3; g <= (a + (n ? n - 1 : 0)) >> 3; ++g)
        {
            Cell *c = cell_of(g, false);
            if (c) memset(c->a, 0, sizeof c->a);
        }
    }
    void race_free(u64 a, u64 n, u64 pc)
    {
        if (!g_track || g_rt || !n) return;
        race_check(a, n < 512 ? n : 512, true, false, pc);
    }

    __attribute__((noinline)) void bad_access(u64 a, u64 size, bool w, u64 pc)
    {
        g_res->pc[0] = pc;
        u8 s = *shadow(a);
        if (s == 8) s = *shadow(a + size - 1);
        sim::violation("memory", "%s of %llu byte(s) at pc 0x%llx touches %s", w ? "write" : "read", (unsigned long long)size,
                       (unsigned long long)pc, s == 0xFD ? "freed memory" : s == 0xFA ? "memory past the end of a block" : "unallocated memory");
    }

    inline void check_addr(u64 a, u64 size, bool w, u64 pc)
    {
        if (a - HEAP_BASE < HEAP_SIZE)
        {
            u64 last = a + size - 1;
            u8 s = *shadow(a), e = *shadow(last);
            bool ok = (s == 8 || (s < 8 && (a & 7) + (last >> 3 == a >> 3 ? size : 8 - (a & 7)) <= s)) &&
                      (last >> 3 == a >> 3 || e == 8 || (e < 8 && (last & 7) < e));
            if (UNLIKELY(!ok)) bad_access(a, size, w, pc);
        }
        else if (UNLIKELY(a < 4096))
        {
            g_res->pc[0] = pc;
            sim::violation("memory", "null pointer %s at pc 0x%llx", w ? "write" : "read", (unsigned long long)pc);
        }
    }

    inline void on_access(void *p, u64 size, bool w, u64 pc, bool at = false)
    {
        if (UNLIKELY(!g_on)) return;
        if (UNLIKELY(++g_acc >= g_next_event)) slow_event();
        check_addr((u64)p, size, w, pc);
        if (UNLIKELY(g_track) && !g_rt) race_check((u64)p, size, w, at, pc);
    }
    void on_range(const void *p, u64 n, bool w, u64 pc)
    {
        if (!g_on || !n) return;
        g_acc += n / 8;
        if (++g_acc >= g_next_event) slow_event();
        u64 a = (u64)p;
        if (a - HEAP_BASE < HEAP_SIZE)
        {
            if (a + n > HEAP_BASE + HEAP_SIZE) bad_access(a, 1, w, pc);
            for (u64 x = a; x < a + n;)
            {
                u64 step = 8 - (x & 7);
                if (step > a + n - x) step = a + n - x;
                check_addr(x, step, w, pc);
                x += step;
            }
        }
        else check_addr(a, 1, w, pc);
        if (g_track && !g_rt) race_check(a, n, w, false, pc);
    }
}

#define PC ((u64)__builtin_return_address(0))
RT_EXPORT void __tsan_init() {}
RT_EXPORT void __tsan_func_entry(void *) {}
RT_EXPORT void __tsan_func_exit() {}
RT_EXPORT void __tsan_ignore_thread_begin() {}
RT_EXPORT void __tsan_ignore_thread_end() {}
#define RW(N)                                                                                     \
    RT_EXPORT void __tsan_read##N(void *a) { on_access(a, N, false, PC); }                        \
    RT_EXPORT void __tsan_write##N(void *a) { on_access(a, N, true, PC); }                        \
    RT_EXPORT void __tsan_read_write##N(void *a) { on_access(a, N, true, PC); }                   \
    RT_EXPORT void __tsan_unaligned_read##N(void *a) { on_access(a, N, false, PC); }              \
    RT_EXPORT void __tsan_unaligned_write##N(void *a) { on_access(a, N, true, PC); }              \
    RT_EXPORT void __tsan_unaligned_read_write##N(void *a) { on_access(a, N, true, PC); }         \
    RT_EXPORT void __tsan_volatile_read##N(void *a) { on_access(a, N, false, PC); }               \
    RT_EXPORT void __tsan_volatile_write##N(void *a) { on_access(a, N, true, PC); }               \
    RT_EXPORT void __tsan_unaligned_volatile_read##N(void *a) { on_access(a, N, false, PC); }     \
    RT_EXPORT void __tsan_unaligned_volatile_write##N(void *a) { on_access(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
RT_EXPORT void __tsan_vptr_update(void **a, void *v) { if (*a != v) on_access(a, 8, true, PC); else if (g_on) ++g_acc; }
RT_EXPORT void __tsan_vptr_read(void **a) { on_access(a, 8, false, PC); }
RT_EXPORT void __tsan_read_range(void *a, unsigned long n) { on_range(a, n, false, PC); }
RT_EXPORT void __tsan_write_range(void *a, unsigned long n) { on_range(a, n, true, PC); }
RT_EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    on_range(s, n, false, PC); on_range(d, n, true, PC);
    return memcpy(d, s, n);
}
RT_EXPORT void *__tsan_memmove(void *d, const void *s, size_t n)
{
    on_range(s, n, false, PC); on_range(d, n, true, PC);
    return memmove(d, s, n);
}
RT_EXPORT void *__tsan_memset(void *d, int v, size_t n)
{
    on_range(d, n, true, PC);
    return memset(d, v, n);
}

// ---- atomics ---------------------------------------------------------------
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static inline bool mo_acq(int m) { return m == MO_CONSUME || m == MO_ACQUIRE || m >= MO_ACQ_REL; }
static inline bool mo_rel(int m) { return m == MO_RELEASE || m >= MO_ACQ_REL; }
static inline void at_pre(const volatile void *a, u64 size, bool w, int mo, u64 pc)
{
    if (!g_on) return;
    on_access((void *)a, size, w, pc, true);
    if (g_track)
    {
        Sync &s = sync_of((const void *)a);
        if (mo_acq(mo)) acquire(s);
        if (w && mo_rel(mo)) release(s);
    }
}
#define AT(B, TY)                                                                                                             \
    RT_EXPORT TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { at_pre(a, B / 8, false, mo, PC); return __atomic_load_n(a, 5); } \
    RT_EXPORT void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { at_pre(a, B / 8, true, mo, PC); __atomic_store_n(a, v, 5); }  \
    RT_EXPORT TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { at_pre(a, B / 8, true, mo, PC); return __atomic_exchange_n(a, v, 5); } \
    RT_EXPORT TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo) { at_pre(a, B / 8, true, mo, PC); return __atomic_fetch_add(a, v, 5); } \
    RT_EXPORT TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo) { at_pre(a, B / 8, true, mo, PC); return __atomic_fetch_sub(a, v, 5); } \
    RT_EXPORT TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo) { at_pre(a, B / 8, true, mo, PC); return __atomic_fetch_and(a, v, 5); } \
    RT_EXPORT TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo) { at_pre(a, B / 8, true, mo, PC); return __atomic_fetch_or(a, v, 5); }   \
    RT_EXPORT TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo) { at_pre(a, B / 8, true, mo, PC); return __atomic_fetch_xor(a, v, 5); } \
    RT_EXPORT TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int mo) { at_pre(a, B / 8, true, mo, PC); return __atomic_fetch_nand(a, v, 5); } \
    RT_EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int) { at_pre(a, B / 8, true, mo, PC); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    RT_EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int) { at_pre(a, B / 8, true, mo, PC); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }   \
    RT_EXPORT TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int) { at_pre(a, B / 8, true, mo, PC); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, u8) AT(16, std::uint16_t) AT(32, u32) AT(64, u64)
static char g_fence_key;
RT_EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (g_on && g_track)
    {
        Sync &s = sync_of(&g_fence_key); // over-approximates ordering: may hide, never invents, a race
        if (mo_acq(mo)) acquire(s);
        if (mo_rel(mo)) release(s);
    }
    __atomic_thread_fence(5);
}
RT_EXPORT void __tsan_atomic_signal_fence(int) {}

// ===========================================================================
// pthread / futex / guards
// ===========================================================================
template <class F> static F real(F &slot, const char *name)
{
    if (!slot) { g_rt++; slot = (F)dlsym(RTLD_NEXT, name); g_rt--; }
    return slot;
}
static inline bool coop() { return g_on; }
static inline void sync_step() { if (g_mt) { ++g_acc; if (g_acc >= g_next_event) slow_event(); } }

RT_EXPORT int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!coop()) { static int (*f)(pthread_mutex_t *); return real(f, "pthread_mutex_lock")(m); }
    sync_step();
    Sync &s = sync_of(m);
    int kind = m->__data.__kind & 3;
    if (s.owner == g_cur && s.depth > 0)
    {
        if (kind == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; }
        if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (s.depth > 0) block_on(m);
    s.owner = g_cur; s.depth = 1;
    acquire(s);
    return 0;
}
RT_EXPORT int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!coop()) { static int (*f)(pthread_mutex_t *); return real(f, "pthread_mutex_trylock")(m); }
    sync_step();
    Sync &s = sync_of(m);
    if (s.depth > 0)
    {
        if (s.owner == g_cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; }
        return EBUSY;
    }
    s.owner = g_cur; s.depth = 1;
    acquire(s);
    return 0;
}
RT_EXPORT int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!coop()) { static int (*f)(pthread_mutex_t *); return real(f, "pthread_mutex_unlock")(m); }
    Sync &s = sync_of(m);
    if (s.depth > 0 && --s.depth == 0)
    {
        release(s);
        s.owner = -1;
        wake(m, MAXT);
    }
    sync_step();
    return 0;
}
RT_EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (!coop()) { static int (*f)(pthread_rwlock_t *); return real(f, "pthread_rwlock_rdlock")(m); }
    sync_step();
    Sync &s = sync_of(m);
    while (s.depth > 0) block_on(m);
    s.readers++;
    acquire(s);
    return 0;
}
RT_EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (!coop()) { static int (*f)(pthread_rwlock_t *); return real(f, "pthread_rwlock_wrlock")(m); }
    sync_step();
    Sync &s = sync_of(m);
    while (s.depth > 0 || s.readers > 0) block_on(m);
    s.depth = 1; s.owner = g_cur;
    acquire(s);
    return 0;
}
RT_EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (!coop()) { static int (*f)(pthread_rwlock_t *); return real(f, "pthread_rwlock_unlock")(m); }
    Sync &s = sync_of(m);
    release(s);
    if (s.depth > 0) { s.depth = 0; s.owner = -1; } else if (s.readers > 0) s.readers--;
    wake(m, MAXT);
    sync_step();
    return 0;
}
RT_EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!coop()) { static int (*f)(pthread_cond_t *, pthread_mutex_t *); return real(f, "pthread_cond_wait")(c, m); }
    pthread_mutex_unlock(m);
    block_on(c);
    return pthread_mutex_lock(m);
}
static int cond_timed(pthread_cond_t *c, pthread_mutex_t *m)
{
    pthread_mutex_unlock(m);
    block_on(c, true);
    bool to = T[g_cur].timed_out;
    pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
RT_EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!coop()) { static int (*f)(pthread_cond_t *, pthread_mutex_t *, const timespec *); return real(f, "pthread_cond_timedwait")(c, m, ts); }
    return cond_timed(c, m);
}
RT_EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const struct timespec *ts)
{
    if (!coop()) { static int (*f)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *); return real(f, "pthread_cond_clockwait")(c, m, ck, ts); }
    return cond_timed(c, m);
}
RT_EXPORT int pthread_cond_signal(pthread_cond_t *c)
{
    if (!coop()) { static int (*f)(pthread_cond_t *); return real(f, "pthread_cond_signal")(c); }
    wake(c, 1);
    sync_step();
    return 0;
}
RT_EXPORT int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!coop()) { static int (*f)(pthread_cond_t *); return real(f, "pthread_cond_broadcast")(c); }
    wake(c, MAXT);
    sync_step();
    return 0;
}
RT_EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    if (!coop()) { static int (*f)(pthread_once_t *, void (*)(void)); return real(f, "pthread_once")(o, fn); }
    Sync &s = sync_of(o);
    if (*o != 0 && s.once == 0) return 0; // completed before the simulation started
    while (s.once == 1) block_on(o);
    if (s.once == 2) { acquire(s); return 0; }
    s.once = 1;
    try { fn(); }
    catch (...) { s.once = 0; wake(o, MAXT); throw; }
    s.once = 2;
    *o = 2;
    release(s);
    wake(o, MAXT);
    return 0;
}

// function-local statics
RT_EXPORT int __cxa_guard_acquire(abi::__guard *g)
{
    u8 *b = (u8 *)g;
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { if (g_on && g_track) acquire(sync_of(g)); return 0; }
    if (!g_on) { b[1] = 1; return 1; }
    Sync &s = sync_of(g);
    while (s.once == 1) block_on(g);
    if (b[0]) { acquire(s); return 0; }
    s.once = 1;
    return 1;
}
RT_EXPORT void __cxa_guard_release(abi::__guard *g) noexcept
{
    u8 *b = (u8 *)g;
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    if (!g_on) return;
    Sync &s = sync_of(g);
    s.once = 2;
    release(s);
    wake(g, MAXT);
}
RT_EXPORT void __cxa_guard_abort(abi::__guard *g) noexcept
{
    ((u8 *)g)[1] = 0;
    if (!g_on) return;
    sync_of(g).once = 0;
    wake(g, MAXT);
}

static void *user_thread_main(void *a)
{
    int me = (int)(long)a;
    baton_wait(me);
    g_rt = 0;
    T[me].ret = T[me].entry(T[me].arg);
    g_rt = 1;
    wake(&T[me], MAXT);
    finish_thread(me, T_DONE);
    return nullptr;
}
RT_EXPORT int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    if (!coop()) return real_create()(th, at, fn, arg);
    g_rt++;
    int i = -1;
    for (int k = 1; k < g_nthr && i < 0; ++k) if (!T[k].is_pool && T[k].st == T_UNUSED) i = k;
    if (i < 0) { if (g_nthr >= MAXT) { g_rt--; return EAGAIN; } i = g_nthr++; }
    T[i].is_pool = false; T[i].entry = fn; T[i].arg = arg; T[i].detached = false;
    T[i].st = T_IDLE;
    pthread_attr_t a2;
    pthread_attr_init(&a2);
    pthread_attr_setstacksize(&a2, 4 << 20);
    int rc = real_create()(&T[i].th, &a2, user_thread_main, (void *)(long)i);
    pthread_attr_destroy(&a2);
    if (rc) { T[i].st = T_UNUSED; g_rt--; return rc; }
    *th = T[i].th;
    fork_vc(i);
    T[i].st = T_RUN;
    g_live++;
    g_track++;
    g_mt = true;
    if (g_next_pre == ~0ull) { g_pre_kind = 1; g_pre_left = 200; draw_preempt(); }
    g_rt--;
    sim::count("probe.thread_created_by_code_under_test");
    sync_step();
    return 0;
}
RT_EXPORT int pthread_join(pthread_t th, void **ret)
{
    if (!coop()) { static int (*f)(pthread_t, void **); return real(f, "pthread_join")(th, ret); }
    for (int i = 1; i < g_nthr; ++i)
        if (!T[i].is_pool && T[i].st != T_UNUSED && pthread_equal(T[i].th, th))
        {
            while (T[i].st != T_DONE) block_on(&T[i]);
            vc_join(T[g_cur].vc, T[i].vc);
            if (ret) *ret = T[i].ret;
            T[i].st = T_UNUSED;
            static int (*f)(pthread_t, void **);
            return real(f, "pthread_join")(th, nullptr);
        }
    return ESRCH;
}
RT_EXPORT int sched_yield()
{
    if (!coop()) return 0;
    g_rt++;
    int to = pick_runnable(g_block, g_cur);
    if (to >= 0) switch_to(to, 'y');
    g_rt--;
    return 0;
}

// ===========================================================================
// syscall seams: futex, entropy, clocks, sleep
// ===========================================================================
namespace
{
    sim::Rng g_entropy{1};
    bool g_ent_const = false;
    u32 g_ent_v = 0;
    u32 entropy32() { sim::count("seam.entropy_reads"); return g_ent_const ? g_ent_v : (u32)g_entropy.next(); }
}
void sim::entropy_seed(u64 s) { g_entropy = Rng(s); g_ent_const = false; }
void sim::entropy_constant(bool on, std::uint32_t v) { g_ent_const = on; g_ent_v = v; }

RT_EXPORT long syscall(long no, ...)
{
    va_list ap;
    va_start(ap, no);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (g_on && no == SYS_futex)
    {
        int op = (int)b & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sync_step();
            if (__atomic_load_n((int *)a, 5) != (int)c) { errno = EAGAIN; return -1; }
            block_on((void *)a, d != 0);
            if (T[g_cur].timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int w = wake((void *)a, (int)c); sync_step(); return w; }
    }
    if (g_on && no == SYS_getrandom)
    {
        for (long i = 0; i < b; ++i) ((u8 *)a)[i] = (u8)entropy32();
        return b;
    }
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(no), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
RT_EXPORT ssize_t getrandom(void *p, size_t n, unsigned fl)
{
    if (!g_on) return syscall(SYS_getrandom, p, n, fl);
    for (size_t i = 0; i < n; ++i) ((u8 *)p)[i] = (u8)entropy32();
    return (ssize_t)n;
}
RT_EXPORT int getentropy(void *p, size_t n) { return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1; }
// std::random_device
namespace std
{
    random_device::result_type random_device::_M_getval() { return g_on ? entropy32() : 12345u; }
    random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
}
static u64 vnow() { g_vclock_ns += 1000; return g_vclock_ns; }
RT_EXPORT int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!g_on) return (int)syscall(SYS_clock_gettime, (long)c, ts);
    u64 t = vnow();
    ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
}
RT_EXPORT int gettimeofday(struct timeval *tv, void *)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
RT_EXPORT time_t time(time_t *o)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (o) *o = ts.tv_sec;
    return ts.tv_sec;
}
RT_EXPORT int nanosleep(const struct timespec *t, struct timespec *)
{
    if (!g_on) return (int)syscall(SYS_nanosleep, t, nullptr);
    g_vclock_ns += (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec;
    return sched_yield();
}
RT_EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r)
{
    if (!g_on) return (int)syscall(SYS_clock_nanosleep, (long)c, (long)fl, t, r);
    u64 v = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec;
    if (fl & TIMER_ABSTIME) { if (v > g_vclock_ns) g_vclock_ns = v; } else g_vclock_ns += v;
    return sched_yield();
}

// ===========================================================================
// Simulated disk
// ===========================================================================
namespace
{
    struct SFile { bool used; char path[128]; u64 len; u64 cap; char *data; };
    SFile g_files[64];
    struct SFd { bool open; int file; u64 pos; bool wr; bool append; u64 done; };
    SFd g_fds[256];
    double g_p_short = 0, g_p_eintr = 0;
    sim::IoFault g_iof = sim::IoFault::None;
    u64 g_iof_at = 0, g_iof_fired = 0, g_jit_fired = 0;
    bool g_iof_once = false;
    sim::Rng g_io{7};
    sigjmp_buf *g_crash = nullptr;

    bool sim_path(const char *p) { return g_on && p && !strncmp(p, "/simdisk/", 9); }
    SFile *file_of(const char *path, bool create)
    {
        for (auto &f : g_files) if (f.used && !strcmp(f.path, path)) return &f;
        if (!create) return nullptr;
        for (auto &f : g_files) if (!f.used)
        {
            f.used = true; f.len = 0; f.cap = 0; f.data = nullptr;
            snprintf(f.path, sizeof f.path, "%s", path);
            return &f;
        }
        return nullptr;
    }
    void file_write(SFile &f, u64 pos, const void *p, u64 n)
    {
        if (pos + n > f.cap)
        {
            u64 nc = (pos + n) * 2 + 4096;
            char *nd = (char *)mmap(0, nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (f.data) memcpy(nd, f.data, f.len);
            f.data = nd; f.cap = nc;
        }
        memcpy(f.data + pos, p, n);
        if (pos + n > f.len) f.len = pos + n;
    }
    SFd *simfd(int fd) { return g_on && fd >= 0 && fd < 256 && g_fds[fd].open ? &g_fds[fd] : nullptr; }
    void fire(const char *what)
    {
        g_iof_fired++;
        hash_in(0x10fa0000 + (u64)g_iof);
        sim::note("  fault disk %s", what);
        char k[64];
        snprintf(k, sizeof k, "fault.disk.%s", what);
        sim::count(k);
        if (g_iof_once) g_iof = sim::IoFault::None;
    }
    void crash_now()
    {
        fire("crash");
        g_iof = sim::IoFault::None;
        if (g_crash) { sigjmp_buf *b = g_crash; g_crash = nullptr; siglongjmp(*b, 1); }
        die_result(S_ERR, "sim", "crash fault outside run_until_crash");
    }
    ssize_t do_read(SFd *d, void *p, size_t n)
    {
        SFile &f = g_files[d->file];
        if (g_iof == sim::IoFault::ReadEio && d->pos >= g_iof_at) { fire("read_eio"); errno = EIO; return -1; }
        if (g_p_eintr > 0 && g_io.chance(g_p_eintr)) { g_jit_fired++; sim::count("fault.disk.eintr"); errno = EINTR; return -1; }
        u64 left = d->pos < f.len ? f.len - d->pos : 0;
        u64 k = n < left ? n : left;
        if (g_iof == sim::IoFault::ReadEio && d->pos + k > g_iof_at) k = g_iof_at - d->pos;
        if (k > 1 && g_p_short > 0 && g_io.chance(g_p_short)) { k = 1 + g_io.below(k - 1); g_jit_fired++; sim::count("fault.disk.short_read"); }
        memcpy(p, f.data + d->pos, k);
        d->pos += k;
        return (ssize_t)k;
    }
    ssize_t do_write(SFd *d, const void *p, size_t n)
    {
        SFile &f = g_files[d->file];
        if (g_p_eintr > 0 && g_io.chance(g_p_eintr)) { g_jit_fired++; sim::count("fault.disk.eintr"); errno = EINTR; return -1; }
        u64 k = n;
        if (g_iof == sim::IoFault::WriteEnospc || g_iof == sim::IoFault::WriteEio || g_iof == sim::IoFault::Crash)
        {
            if (d->done >= g_iof_at)
            {
                if (g_iof == sim::IoFault::Crash) crash_now();
                bool ns = g_iof == sim::IoFault::WriteEnospc;
                fire(ns ? "write_enospc" : "write_eio");
                errno = ns ? ENOSPC : EIO;
                return -1;
            }
            if (d->done + k > g_iof_at) k = g_iof_at - d->done;
        }
        if (k > 1 && g_p_short > 0 && g_io.chance(g_p_short)) { k = 1 + g_io.below(k - 1); g_jit_fired++; sim::count("fault.disk.short_write"); }
        if (d->append) d->pos = f.len;
        file_write(f, d->pos, p, k);
        d->pos += k;
        d->done += k;
        if (g_iof == sim::IoFault::Crash && d->done >= g_iof_at) crash_now();
        return (ssize_t)k;
    }
}
const char *sim::io_fault_name(IoFault f)
{
    switch (f)
    {
    case IoFault::None: return "none"; case IoFault::ShortRead: return "short_read"; case IoFault::Eintr: return "eintr";
    case IoFault::ReadEio: return "read_eio"; case IoFault::ShortWrite: return "short_write"; case IoFault::WriteEnospc: return "write_enospc";
    case IoFault::WriteEio: return "write_eio"; case IoFault::CloseEio: return "close_eio"; case IoFault::OpenFail: return "open_fail"; case IoFault::Crash: return "crash";
    }
    return "?";
}
void sim::disk_put(const char *path, const std::string &s) { SFile *f = file_of(path, true); f->len = 0; file_write(*f, 0, s.data(), s.size()); }
bool sim::disk_get(const char *path, std::string &s)
{
    SFile *f = file_of(path, false);
    if (!f) return false;
    s.assign(f->data ? f->data : "", f->len);
    return true;
}
void sim::disk_remove(const char *path) { SFile *f = file_of(path, false); if (f) f->used = false; }
void sim::disk_jitter(double a, double b) { g_p_short = a; g_p_eintr = b; g_io = stream("disk"); }
void sim::disk_fault(IoFault f, u64 at, bool once) { g_iof = f; g_iof_at = at; g_iof_once = once; g_iof_fired = 0; }
void sim::disk_clear() { g_iof = IoFault::None; g_p_short = g_p_eintr = 0; }
u64 sim::disk_fault_fired() { return g_iof_fired; }
u64 sim::disk_jitter_fired() { return g_jit_fired; }
bool sim::run_until_crash(void (*fn)(void *), void *ctx)
{
    sigjmp_buf b;
    if (sigsetjmp(b, 0)) return false;
    g_crash = &b;
    fn(ctx);
    g_crash = nullptr;
    return true;
}

void sim::elsewhere(u64 *out, size_t n, void (*fn)(void *, u64 *), void *ctx)
{
    g_rt++;
    static u64 *buf = (u64 *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (buf == MAP_FAILED || n > 64) die_result(S_ERR, "sim", "elsewhere: no buffer");
    memset(buf, 0, 8 * n);
    pid_t p = fork();
    if (p < 0) die_result(S_ERR, "sim", "elsewhere: fork failed");
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct itimerval it{};
        it.it_value.tv_sec = 120;
        setitimer(ITIMER_REAL, &it, nullptr);
        g_rt--;
        fn(ctx, buf);
        g_rt++;
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (g_res && g_res->status != S_RUN) _exit(1);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) die_result(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? S_ERR : S_VIOL, "crash", "process ended by the call");
    memcpy(out, buf, 8 * n);
    g_rt--;
}

static FILE *sim_fopen(const char *path, const char *mode)
{
    bool wr = mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+');
    if (g_iof == sim::IoFault::OpenFail) { fire("open_fail"); errno = wr ? ENOSPC : EACCES; return nullptr; }
    SFile *f = file_of(path, mode[0] != 'r');
    if (!f) { errno = ENOENT; return nullptr; }
    if (mode[0] == 'w') f->len = 0;
    g_rt++;
    int fd = memfd_create("sim", 0);
    FILE *fp = fd >= 0 && fd < 256 ? fdopen(fd, mode) : nullptr;
    g_rt--;
    if (!fp) { die_result(S_ERR, "sim", "memfd failed"); }
    g_fds[fd] = {true, (int)(f - g_files), 0, wr, mode[0] == 'a', 0};
    return fp;
}
RT_EXPORT FILE *fopen(const char *p, const char *m)
{
    if (sim_path(p)) return sim_fopen(p, m);
    static FILE *(*f)(const char *, const char *);
    return real(f, "fopen")(p, m);
}
RT_EXPORT FILE *fopen64(const char *p, const char *m)
{
    if (sim_path(p)) return sim_fopen(p, m);
    static FILE *(*f)(const char *, const char *);
    return real(f, "fopen64")(p, m);
}
RT_EXPORT int fclose(FILE *fp)
{
    static int (*f)(FILE *);
    int fd = fileno(fp);
    SFd *d = simfd(fd);
    if (d)
    {
        d->open = false;
        bool bad = g_iof == sim::IoFault::CloseEio && d->wr;
        if (bad)
        {
            // delayed allocation failed: the tail never reached the disk
            SFile &sf = g_files[d->file];
            if (g_iof_at < sf.len) sf.len = g_iof_at;
            fire("close_eio");
        }
        g_rt++;
        real(f, "fclose")(fp);
        g_rt--;
        if (bad) { errno = EIO; return EOF; }
        return 0;
    }
    return real(f, "fclose")(fp);
}
RT_EXPORT ssize_t read(int fd, void *p, size_t n)
{
    if (SFd *d = simfd(fd)) return do_read(d, p, n);
    return syscall(SYS_read, (long)fd, p, n);
}
RT_EXPORT ssize_t write(int fd, const void *p, size_t n)
{
    if (SFd *d = simfd(fd)) return do_write(d, p, n);
    return syscall(SYS_write, (long)fd, p, n);
}
RT_EXPORT ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (SFd *d = simfd(fd))
    {
        ssize_t t = 0;
        for (int i = 0; i < c; ++i)
        {
            if (!v[i].iov_len) continue;
            ssize_t r = do_write(d, v[i].iov_base, v[i].iov_len);
            if (r < 0) return t ? t : -1;
            t += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return t;
    }
    return syscall(SYS_writev, (long)fd, v, (long)c);
}
RT_EXPORT int fsync(int fd)
{
    if (simfd(fd)) return 0;
    return (int)syscall(SYS_fsync, (long)fd);
}
static off_t sim_seek(SFd *d, off_t o, int w)
{
    SFile &f = g_files[d->file];
    off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)d->pos : (off_t)f.len;
    if (b + o < 0) { errno = EINVAL; return -1; }
    d->pos = (u64)(b + o);
    return b + o;
}
RT_EXPORT off_t lseek(int fd, off_t o, int w) noexcept
{
    if (SFd *d = simfd(fd)) return sim_seek(d, o, w);
    return syscall(SYS_lseek, (long)fd, o, (long)w);
}
RT_EXPORT off64_t lseek64(int fd, off64_t o, int w) noexcept
{
    if (SFd *d = simfd(fd)) return sim_seek(d, o, w);
    return syscall(SYS_lseek, (long)fd, o, (long)w);
}
static int sim_fstat(SFd *d, struct stat *st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t)g_files[d->file].len;
    st->st_blksize = 4096;
    return 0;
}
RT_EXPORT int fstat(int fd, struct stat *st) noexcept
{
    if (SFd *d = simfd(fd)) return sim_fstat(d, st);
    return (int)syscall(SYS_fstat, (long)fd, st);
}
RT_EXPORT int fstat64(int fd, struct stat64 *st) noexcept
{
    if (SFd *d = simfd(fd)) return sim_fstat(d, (struct stat *)st);
    return (int)syscall(SYS_fstat, (long)fd, st);
}

// rename/unlink/open on the simulated disk (so that write-temporary-then-rename code works there)
static int sim_rename(const char *a, const char *b)
{
    SFile *f = file_of(a, false);
    if (!f) { errno = ENOENT; return -1; }
    SFile *g = file_of(b, false);
    if (g && g != f) g->used = false;
    snprintf(f->path, sizeof f->path, "%s", b);
    return 0;
}
RT_EXPORT int rename(const char *a, const char *b) noexcept
{
    if (sim_path(a) && sim_path(b)) return sim_rename(a, b);
    return (int)syscall(SYS_rename, a, b);
}
RT_EXPORT int renameat(int x, const char *a, int y, const char *b) noexcept
{
    if (sim_path(a) && sim_path(b)) return sim_rename(a, b);
    return (int)syscall(SYS_renameat, (long)x, a, (long)y, b);
}
static int sim_unlink(const char *p)
{
    SFile *f = file_of(p, false);
    if (!f) { errno = ENOENT; return -1; }
    f->used = false;
    return 0;
}
RT_EXPORT int unlink(const char *p) noexcept
{
    if (sim_path(p)) return sim_unlink(p);
    return (int)syscall(SYS_unlink, p);
}
RT_EXPORT int remove(const char *p) noexcept
{
    if (sim_path(p)) return sim_unlink(p);
    return (int)syscall(SYS_unlink, p);
}

// ===========================================================================
// Child: one simulated run
// ===========================================================================
static void on_signal(int sig, siginfo_t *si, void *uc)
{
    g_rt++;
    g_mt = false;
    g_track = 0;
    if (sig == SIGALRM) die_result(S_ERR, "timeout", "run exceeded the wall-clock safety limit");
    u64 pc = 0;
#ifdef __x86_64__
    pc = (u64)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
#endif
    if (g_res) g_res->pc[0] = pc;
    (void)si;
    char b[128];
    snprintf(b, sizeof b, "signal %s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL");
    die_result(S_VIOL, "crash", b);
}

static void on_terminate()
{
    g_rt++;
    g_mt = false;
    g_track = 0;
    char b[1024] = "std::terminate called (no active exception)";
    if (std::type_info *t = abi::__cxa_current_exception_type())
    {
        int st = 0;
        char *d = abi::__cxa_demangle(t->name(), 0, 0, &st);
        snprintf(b, sizeof b, "std::terminate called: exception of type %s could not be caught by the caller", d ? d : t->name());
        try { throw; }
        catch (const std::exception &e) { size_t l = strlen(b); snprintf(b + l, sizeof b - l, " (what: %.200s)", e.what()); }
        catch (...) {}
    }
    die_result(S_VIOL, "terminate", b);
}

static const sim::Scenario *find_scen(const char *n)
{
    for (int i = 0; i < g_nscen; ++i) if (!strcmp(g_scen[i].name, n)) return &g_scen[i];
    return nullptr;
}

static char g_altstack[64 * 1024];

static void child_body();
static void child_run(Config *cfg, Result *res, bool verbose)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!verbose)
    {
        int n = (int)syscall(SYS_open, "/dev/null", (long)O_RDWR, 0L);
        dup2(n, 1);
        dup2(n, 2);
    }
    g_cfg = cfg;
    g_res = res;
    stack_t ss{};
    ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
    struct itimerval it{};
    it.it_value.tv_sec = 120;
    setitimer(ITIMER_REAL, &it, nullptr);
    std::set_terminate(on_terminate);
    // the main thread of the run gets its own stack at a fixed address: nothing a run does may
    // depend on how large the environment and arguments of this process are
    char *stk = (char *)mmap((void *)MAIN_STACK, MAIN_STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (stk == MAP_FAILED) die_result(S_ERR, "sim", "stack mmap failed");
    static ucontext_t uc;
    getcontext(&uc);
    uc.uc_stack.ss_sp = stk;
    uc.uc_stack.ss_size = MAIN_STACK_SIZE;
    uc.uc_link = nullptr;
    makecontext(&uc, &child_body, 0);
    setcontext(&uc);
    die_result(S_ERR, "sim", "setcontext failed");
}

static void child_body()
{
    Config *cfg = g_cfg;
    Result *res = g_res;
    const sim::Scenario *sc = find_scen(cfg->scenario);
    if (!sc) die_result(S_ERR, "sim", "unknown scenario");
    g_split = sim::stream("rt.split");
    g_sched = sim::stream("rt.sched");
    g_block = sim::stream("rt.block");
    T[0].st = T_RUN;
    T[0].vc[0] = 1;
    sim::Rng hr = sim::stream("rt.heap");
    sim::heap_layout(hr.below(3) ? (hr.next() | 1) : 0);
    sim::entropy_seed(sim::stream("rt.entropy").next());
    g_budget = 1500000000ull; // well above the largest run of any scenario (about 0.25e9)
    set_event();
    g_on = true;
    g_rt = 0;
    try { sc->fn(); }
    catch (const std::exception &e)
    {
        char b[512];
        snprintf(b, sizeof b, "unexpected exception reached the caller: %s: %.300s", typeid(e).name(), e.what());
        die_result(S_VIOL, "exception", b);
    }
    catch (...) { die_result(S_VIOL, "exception", "unexpected non-standard exception reached the caller"); }
    g_rt++;
    res->steps = g_acc;
    res->allocs = g_allocs;
    res->sim_ns = g_vclock_ns - 1600000000ull * 1000000000ull;
    hash_in(g_acc);
    hash_in(g_allocs);
    res->hash = g_hash;
    __sync_synchronize();
    res->status = S_OK;
    _exit(0);
}

// ===========================================================================
// Parent: seeded search, minimisation, replay
// ===========================================================================
namespace
{
    template <class S> S *shared(size_t n = 1)
    {
        void *p = mmap(0, sizeof(S) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(3); }
        return (S *)p;
    }

    void run_one(Config *cfg, Result *res, bool verbose = false)
    {
        memset((void *)res, 0, offsetof(Result, cover));
        res->n_cover = res->n_count = 0;
        res->trace_len = 0;
        res->trace[0] = 0;
        pid_t p = fork();
        if (p == 0) child_run(cfg, res, verbose);
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        if (res->status == S_RUN)
        {
            res->status = S_VIOL;
            snprintf(res->cls, sizeof res->cls, "crash");
            if (WIFSIGNALED(st)) snprintf(res->msg, sizeof res->msg, "process killed by signal %d", WTERMSIG(st));
            else snprintf(res->msg, sizeof res->msg, "process ended inside the run with exit code %d", WEXITSTATUS(st));
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) res->status = S_ERR; // memory exhaustion: not a verdict
        }
    }

    double now()
    {
        struct timespec ts;
        syscall(SYS_clock_gettime, (long)CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }

    constexpr u64 DSET = 1 << 20;
    struct DistinctSet { u64 n; u64 t[DSET]; };
    void dinsert(DistinctSet *d, u64 h)
    {
        if (!h) h = 1;
        u64 i = sim::mix(h) & (DSET - 1);
        for (int k = 0; k < 256; ++k, i = (i + 1) & (DSET - 1))
        {
            u64 cur = __atomic_load_n(&d->t[i], __ATOMIC_RELAXED);
            if (cur == h) return;
            if (!cur)
            {
                u64 z = 0;
                if (__atomic_compare_exchange_n(&d->t[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_add_fetch(&d->n, 1, __ATOMIC_RELAXED); return; }
                if (z == h) return;
            }
        }
    }

    struct Agg
    {
        u64 runs, runs_f, runs_nf, steps, switches, regions, mt_regions, leaves, preempts, allocs, reruns, mismatches, sim_ns, errors, known;
        u64 scen_runs[64];
        u32 n_count;
        Counter counters[256];
        char errmsg[512];
    };

    struct Shared
    {
        volatile int stop;
        volatile int found;
        Config viol_cfg;
        Result viol_res;
        volatile u64 next;
        volatile int lock;
        char known_hit[16][256];
        int n_known_hit;
    };

    char g_prop[16] = "C00";
    char g_known[32][512];
    int g_nknown = 0;

    bool is_known(const Result &r, const Config &c, int *which)
    {
        // a known finding: "<scenario>|<class>|<substring of message>"
        for (int i = 0; i < g_nknown; ++i)
        {
            char b[512];
            snprintf(b, sizeof b, "%s", g_known[i]);
            char *s1 = strchr(b, '|');
            if (!s1) continue;
            *s1++ = 0;
            char *s2 = strchr(s1, '|');
            if (!s2) continue;
            *s2++ = 0;
            if (strcmp(b, c.scenario) == 0 && strcmp(s1, r.cls) == 0 && strstr(r.msg, s2)) { *which = i; return true; }
        }
        return false;
    }

    void make_config(Config &c, u64 master, u64 idx, int only_faults)
    {
        memset(&c, 0, sizeof c);
        c.seed = sim::mix(sim::mix(master, 0x5eed), idx);
        c.scale = 1.0;
        double tot = 0;
        for (int i = 0; i < g_nscen; ++i) if (only_faults < 0 || g_scen[i].faults == (only_faults == 1)) tot += g_scen[i].weight;
        sim::Rng r(sim::mix(c.seed, 0xcafe));
        double x = r.uniform() * tot;
        int pick = -1;
        for (int i = 0; i < g_nscen; ++i)
        {
            if (!(only_faults < 0 || g_scen[i].faults == (only_faults == 1))) continue;
            pick = i;
            if ((x -= g_scen[i].weight) < 0) break;
        }
        snprintf(c.scenario, sizeof c.scenario, "%s", g_scen[pick].name);
        c.faults = g_scen[pick].faults;
    }

    void agg_add(Agg &a, const Config &c, const Result &r)
    {
        a.runs++;
        if (c.faults) a.runs_f++; else a.runs_nf++;
        a.steps += r.steps; a.switches += r.switches; a.regions += r.regions; a.mt_regions += r.mt_regions;
        a.leaves += r.leaves; a.preempts += r.preempts; a.allocs += r.allocs; a.sim_ns += r.sim_ns;
        for (int i = 0; i < g_nscen; ++i) if (!strcmp(g_scen[i].name, c.scenario)) a.scen_runs[i]++;
        for (u32 i = 0; i < r.n_count; ++i)
        {
            u32 j = 0;
            for (; j < a.n_count; ++j) if (!strcmp(a.counters[j].key, r.counters[i].key)) break;
            if (j == a.n_count) { if (a.n_count >= 256) continue; a.counters[a.n_count++] = {}; memcpy(a.counters[j].key, r.counters[i].key, 48); }
            a.counters[j].n += r.counters[i].n;
        }
    }

    bool same(const Result &a, const Result &b)
    {
        return a.status == b.status && a.hash == b.hash && !strcmp(a.cls, b.cls) && !strcmp(a.msg, b.msg);
    }

    void worker(int id, int jobs, Shared *sh, Agg *agg, DistinctSet *cov, DistinctSet *ilv, u64 master, u64 count, double deadline, int only_faults)
    {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(id % jobs, &cs);
        sched_setaffinity(0, sizeof cs, &cs);
        Config *cfg = shared<Config>();
        Result *r1 = shared<Result>(), *r2 = shared<Result>();
        while (!sh->stop)
        {
            u64 i = __atomic_fetch_add((u64 *)&sh->next, 1, __ATOMIC_RELAXED);
            if (i >= count || now() > deadline) break;
            make_config(*cfg, master, i, only_faults);
            run_one(cfg, r1);
            agg_add(*agg, *cfg, *r1);
            for (u32 k = 0; k < r1->n_cover; ++k) dinsert(cov, r1->cover[k]);
            if (r1->switches) dinsert(ilv, r1->ileave);
            if (r1->status == S_ERR)
            {
                agg->errors++;
                snprintf(agg->errmsg, sizeof agg->errmsg, "%s seed=%llu: %s: %s", cfg->scenario, (unsigned long long)cfg->seed, r1->cls, r1->msg);
                break;
            }
            bool again = r1->status == S_VIOL || (i % 32) == 0;
            if (again)
            {
                run_one(cfg, r2);
                agg->reruns++;
                if (!same(*r1, *r2))
                {
                    agg->mismatches++;
                    snprintf(agg->errmsg, sizeof agg->errmsg, "nondeterministic run %s seed=%llu: [%s %s %llx] vs [%s %s %llx]", cfg->scenario, (unsigned long long)cfg->seed,
                             r1->cls, r1->msg, (unsigned long long)r1->hash, r2->cls, r2->msg, (unsigned long long)r2->hash);
                    break;
                }
            }
            if (r1->status == S_VIOL)
            {
                int which;
                if (is_known(*r1, *cfg, &which))
                {
                    agg->known++;
                    sh->known_hit[which & 15][0] = 1;
                    continue;
                }
                if (!__atomic_exchange_n((int *)&sh->lock, 1, __ATOMIC_ACQ_REL))
                {
                    sh->viol_cfg = *cfg;
                    memcpy((void *)&sh->viol_res, (void *)r1, sizeof(Result));
                    sh->found = 1;
                    sh->stop = 1;
                }
                break;
            }
        }
        _exit(0);
    }

    bool try_cfg(Config *c, Result *r, const char *cls)
    {
        run_one(c, r);
        int w;
        return r->status == S_VIOL && !strcmp(r->cls, cls) && !is_known(*r, *c, &w);
    }

    int minimise(Config *best, Result *out)
    {
        char cls[64];
        snprintf(cls, sizeof cls, "%s", out->cls);
        Config *t = shared<Config>();
        Result *r = shared<Result>();
        int tries = 0;
        double end = now() + 45;
        auto attempt = [&](auto &&mut) {
            if (now() > end || tries > 600) return false;
            *t = *best;
            mut(*t);
            tries++;
            if (try_cfg(t, r, cls)) { *best = *t; memcpy((void *)out, (void *)r, sizeof(Result)); return true; }
            return false;
        };
        bool progress = true;
        for (int round = 0; progress && round < 4; ++round)
        {
            progress = false;
            for (double s : {0.05, 0.2, 0.5})
                if (s < best->scale && attempt([&](Config &c) { c.scale = s; })) { progress = true; break; }
            for (int w : {1, 2, 3})
                if ((best->max_workers == 0 || w < best->max_workers) && attempt([&](Config &c) { c.max_workers = w; })) { progress = true; break; }
            // all preemptions off, then blocks, then singles
            int np = out->pre_seen < N_OFF_PRE ? out->pre_seen : N_OFF_PRE;
            if (np) attempt([&](Config &c) { memset(c.off_pre, 0xff, sizeof c.off_pre); });
            for (int blk = np / 2; blk >= 1; blk /= 2)
            {
                bool any = false;
                for (int a = 0; a < np; a += blk)
                {
                    bool need = false;
                    for (int i = a; i < a + blk && i < np; ++i) if (!bit(best->off_pre, i)) need = true;
                    if (!need) continue;
                    if (attempt([&](Config &c) { for (int i = a; i < a + blk && i < np; ++i) c.off_pre[i >> 6] |= 1ull << (i & 63); })) any = true;
                }
                if (any) progress = true;
            }
            for (int i = (out->ops_seen < 512 ? out->ops_seen : 512) - 1; i >= 0; --i)
                if (!bit(best->off_ops, i) && attempt([&](Config &c) { c.off_ops[i >> 6] |= 1ull << (i & 63); })) progress = true;
            for (int i = (out->faults_seen < 512 ? out->faults_seen : 512) - 1; i >= 0; --i)
                if (!bit(best->off_faults, i) && attempt([&](Config &c) { c.off_faults[i >> 6] |= 1ull << (i & 63); })) progress = true;
        }
        return tries;
    }

    void hex_mask(FILE *f, const char *k, const u64 *m, int n)
    {
        fprintf(f, "%s=", k);
        for (int i = 0; i < n; ++i) fprintf(f, "%016llx", (unsigned long long)m[i]);
        fprintf(f, "\n");
    }
    void parse_mask(const char *s, u64 *m, int n)
    {
        for (int i = 0; i < n && strlen(s) >= 16; ++i, s += 16)
        {
            char b[17];
            memcpy(b, s, 16);
            b[16] = 0;
            m[i] = strtoull(b, nullptr, 16);
        }
    }
    void write_replay(const char *path, const char *exe, const Config &c, const Result &r, u64 master, int tries)
    {
        FILE *f = fopen(path, "w");
        if (!f) { perror(path); return; }
        fprintf(f, "# gbs deterministic simulation replay file\n");
        fprintf(f, "property=%s\nmaster_seed=%llu\nscenario=%s\nseed=%llu\nfaults=%d\nmax_workers=%d\nscale=%.17g\n", g_prop, (unsigned long long)master, c.scenario,
                (unsigned long long)c.seed, c.faults, c.max_workers, c.scale);
        hex_mask(f, "off_ops", c.off_ops, 8);
        hex_mask(f, "off_faults", c.off_faults, 8);
        hex_mask(f, "off_pre", c.off_pre, N_OFF_PRE / 64);
        fprintf(f, "expect_class=%s\nexpect_hash=%llx\nexpect_msg=", r.cls, (unsigned long long)r.hash);
        for (const char *p = r.msg; *p; ++p) fputc(*p == '\n' ? ' ' : *p, f);
        fprintf(f, "\n# minimised with %d re-executions; schedule and fault trace of the minimised run:\n", tries);
        const char *p = r.trace;
        while (*p)
        {
            const char *e = strchr(p, '\n');
            if (!e) e = p + strlen(p);
            fprintf(f, "#   %.*s\n", (int)(e - p), p);
            p = *e ? e + 1 : e;
        }
        fclose(f);
        for (int i = 0; i < 2; ++i)
            if (r.pc[i])
            {
                char cmd[1024];
                snprintf(cmd, sizeof cmd, "(addr2line -Cfpie '%s' 0x%llx 2>/dev/null | sed 's/^/# at %d: /') >> '%s'", exe, (unsigned long long)r.pc[i] - 1, i, path);
                (void)!system(cmd);
            }
    }

    bool read_replay(const char *path, Config &c, char *cls, char *msg, u64 &hash)
    {
        FILE *f = fopen(path, "r");
        if (!f) { perror(path); return false; }
        memset(&c, 0, sizeof c);
        c.scale = 1;
        static char line[8192];
        while (fgets(line, sizeof line, f))
        {
            line[strcspn(line, "\n")] = 0;
            if (line[0] == '#') continue;
            char *eq = strchr(line, '=');
            if (!eq) continue;
            *eq = 0;
            const char *v = eq + 1;
            if (!strcmp(line, "scenario")) snprintf(c.scenario, sizeof c.scenario, "%s", v);
            else if (!strcmp(line, "property")) snprintf(g_prop, sizeof g_prop, "%s", v);
            else if (!strcmp(line, "seed")) c.seed = strtoull(v, 0, 10);
            else if (!strcmp(line, "faults")) c.faults = atoi(v);
            else if (!strcmp(line, "max_workers")) c.max_workers = atoi(v);
            else if (!strcmp(line, "scale")) c.scale = atof(v);
            else if (!strcmp(line, "off_ops")) parse_mask(v, c.off_ops, 8);
            else if (!strcmp(line, "off_faults")) parse_mask(v, c.off_faults, 8);
            else if (!strcmp(line, "off_pre")) parse_mask(v, c.off_pre, N_OFF_PRE / 64);
            else if (!strcmp(line, "expect_class")) snprintf(cls, 64, "%s", v);
            else if (!strcmp(line, "expect_hash")) hash = strtoull(v, 0, 16);
            else if (!strcmp(line, "expect_msg")) snprintf(msg, 3072, "%s", v);
        }
        fclose(f);
        return true;
    }

    void json_str(FILE *f, const char *s)
    {
        fputc('"', f);
        for (; *s; ++s)
        {
            if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
            else if ((u8)*s < 32) fprintf(f, " ");
            else fputc(*s, f);
        }
        fputc('"', f);
    }
}

int main(int argc, char **argv)
{
    // identical layout in every process
    if (!getenv("SIM_NOASLR"))
    {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("SIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    u64 master = 1, count = 1000;
    double secs = 30;
    int jobs = 8, only_faults = -1;
    const char *out = nullptr, *replay = nullptr, *replay_out = "replay.txt", *single = nullptr;
    u64 single_seed = 0;
    bool verbose = false, list = false;
    for (int i = 1; i < argc; ++i)
    {
        auto is = [&](const char *n) { return !strcmp(argv[i], n) && i + 1 < argc; };
        if (is("--seed")) master = strtoull(argv[++i], 0, 10);
        else if (is("--runs")) count = strtoull(argv[++i], 0, 10);
        else if (is("--time")) secs = atof(argv[++i]);
        else if (is("--jobs")) jobs = atoi(argv[++i]);
        else if (is("--out")) out = argv[++i];
        else if (is("--prop")) snprintf(g_prop, sizeof g_prop, "%s", argv[++i]);
        else if (is("--replay")) replay = argv[++i];
        else if (is("--replay-out")) replay_out = argv[++i];
        else if (is("--known")) { if (g_nknown < 16) snprintf(g_known[g_nknown++], 512, "%s", argv[++i]); else ++i; }
        else if (is("--faults")) only_faults = atoi(argv[++i]);
        else if (is("--only"))
        {
            ++i;
            int k = 0;
            for (int j = 0; j < g_nscen; ++j)
            {
                char pat[80];
                snprintf(pat, sizeof pat, ",%s,", g_scen[j].name);
                char hay[1024];
                snprintf(hay, sizeof hay, ",%s,", argv[i]);
                if (strstr(hay, pat)) g_scen[k++] = g_scen[j];
            }
            g_nscen = k;
        }
        else if (is("--one")) single = argv[++i];
        else if (is("--one-seed")) single_seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "-v")) verbose = true;
        else if (!strcmp(argv[i], "--list")) list = true;
    }
    if (list)
    {
        for (int i = 0; i < g_nscen; ++i) printf("%s weight=%g faults=%d\n", g_scen[i].name, g_scen[i].weight, g_scen[i].faults);
        return 0;
    }
    char exe[512];
    ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[el > 0 ? el : 0] = 0;

    if (single)
    {
        Config *c = shared<Config>();
        Result *r = shared<Result>();
        memset(c, 0, sizeof *c);
        snprintf(c->scenario, sizeof c->scenario, "%s", single);
        c->seed = single_seed;
        c->scale = 1;
        const sim::Scenario *s = find_scen(single);
        c->faults = s ? s->faults : 0;
        run_one(c, r, verbose);
        printf("status=%d cls=%s msg=%s hash=%llx steps=%llu regions=%llu switches=%llu\n%s", r->status, r->cls, r->msg, (unsigned long long)r->hash, (unsigned long long)r->steps,
               (unsigned long long)r->regions, (unsigned long long)r->switches, r->trace);
        return r->status == S_OK ? 0 : 1;
    }
    if (replay)
    {
        Config *c = shared<Config>();
        Result *r = shared<Result>();
        static char cls[64], msg[3072];
        u64 hash = 0;
        if (!read_replay(replay, *c, cls, msg, hash)) return 3;
        run_one(c, r, verbose);
        if (r->status == S_OK) { printf("REPLAY: no violation\n"); return 0; }
        for (char *p = r->msg; *p; ++p) if (*p == '\n') *p = ' ';
        printf("REPLAY: %s: %s (hash %llx)\n", r->cls, r->msg, (unsigned long long)r->hash);
        if (verbose) printf("%s", r->trace);
        if (r->status != S_VIOL || strcmp(r->cls, cls) || strcmp(r->msg, msg) || r->hash != hash) { printf("REPLAY: differs from the recorded violation\n"); return 4; }
        return 1;
    }
    if (!g_nscen) { fprintf(stderr, "no scenarios\n"); return 3; }

    Shared *sh = shared<Shared>();
    Agg *agg = shared<Agg>(64);
    DistinctSet *cov = shared<DistinctSet>(), *ilv = shared<DistinctSet>();
    double t0 = now();
    if (jobs > 64) jobs = 64;
    pid_t pids[64];
    for (int j = 0; j < jobs; ++j)
    {
        pids[j] = fork();
        if (pids[j] == 0) worker(j, jobs, sh, &agg[j], cov, ilv, master, count, t0 + secs, only_faults);
    }
    int bad_exit = 0;
    for (int j = 0; j < jobs; ++j)
    {
        int st;
        while (waitpid(pids[j], &st, 0) < 0 && errno == EINTR) ;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) bad_exit = 1;
    }
    double wall = now() - t0;
    static Agg tot;
    for (int j = 0; j < jobs; ++j)
    {
        Agg &a = agg[j];
        tot.runs += a.runs; tot.runs_f += a.runs_f; tot.runs_nf += a.runs_nf; tot.steps += a.steps; tot.switches += a.switches; tot.regions += a.regions;
        tot.mt_regions += a.mt_regions; tot.leaves += a.leaves; tot.preempts += a.preempts; tot.allocs += a.allocs; tot.reruns += a.reruns; tot.mismatches += a.mismatches;
        tot.sim_ns += a.sim_ns; tot.errors += a.errors; tot.known += a.known;
        for (int i = 0; i < g_nscen; ++i) tot.scen_runs[i] += a.scen_runs[i];
        for (u32 i = 0; i < a.n_count; ++i)
        {
            u32 k = 0;
            for (; k < tot.n_count; ++k) if (!strcmp(tot.counters[k].key, a.counters[i].key)) break;
            if (k == tot.n_count) { if (tot.n_count >= 256) continue; tot.counters[tot.n_count++] = {}; memcpy(tot.counters[k].key, a.counters[i].key, 48); }
            tot.counters[k].n += a.counters[i].n;
        }
        if (a.errmsg[0] && !tot.errmsg[0]) memcpy(tot.errmsg, a.errmsg, sizeof tot.errmsg);
    }
    int rc = 0;
    static Config vc;
    Result *vr = nullptr;
    int tries = 0;
    char why[256] = "";
    if (sh->found)
    {
        Config *best = shared<Config>();
        *best = sh->viol_cfg;
        vr = shared<Result>();
        memcpy((void *)vr, (void *)&sh->viol_res, sizeof(Result));
        tries = minimise(best, vr);
        vc = *best;
        write_replay(replay_out, exe, vc, *vr, master, tries);
        // fresh-process gate
        char cmd[2048];
        snprintf(cmd, sizeof cmd, "'%s' --replay '%s' >/dev/null 2>&1", exe, replay_out);
        unsetenv("SIM_NOASLR");
        int st = system(cmd);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) rc = 1;
        else
        {
            // the minimised run did not survive a fresh process: fall back to the original run
            write_replay(replay_out, exe, sh->viol_cfg, sh->viol_res, master, 0);
            st = system(cmd);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { rc = 1; vc = sh->viol_cfg; memcpy((void *)vr, (void *)&sh->viol_res, sizeof(Result)); }
            else { rc = 3; snprintf(why, sizeof why, "violation did not reproduce in a fresh process"); }
        }
    }
    else if (tot.errors) { rc = 3; snprintf(why, sizeof why, "%.250s", tot.errmsg); }
    else if (tot.mismatches) { rc = 3; snprintf(why, sizeof why, "%.250s", tot.errmsg); }
    else if (bad_exit) { rc = 3; snprintf(why, sizeof why, "a search worker died"); }
    else if (!tot.runs) { rc = 3; snprintf(why, sizeof why, "no run completed"); }

    if (out)
    {
        FILE *f = fopen(out, "w");
        if (f)
        {
            fprintf(f, "{\"rc\":%d,\"why\":", rc);
            json_str(f, why);
            fprintf(f, ",\"master_seed\":%llu,\"wall_s\":%.3f,\"jobs\":%d,\"runs\":%llu,\"runs_fault_injecting\":%llu,\"runs_fault_free\":%llu,\"steps\":%llu,\"switches\":%llu,\"regions\":%llu,"
                       "\"parallel_regions\":%llu,\"pieces\":%llu,\"preemptions\":%llu,\"allocations\":%llu,\"determinism_reruns\":%llu,\"determinism_mismatches\":%llu,\"sim_ns\":%llu,"
                       "\"distinct_cases\":%llu,\"distinct_interleavings\":%llu,\"known_hits\":%llu",
                    (unsigned long long)master, wall, jobs, (unsigned long long)tot.runs, (unsigned long long)tot.runs_f, (unsigned long long)tot.runs_nf, (unsigned long long)tot.steps,
                    (unsigned long long)tot.switches, (unsigned long long)tot.regions, (unsigned long long)tot.mt_regions, (unsigned long long)tot.leaves, (unsigned long long)tot.preempts,
                    (unsigned long long)tot.allocs, (unsigned long long)tot.reruns, (unsigned long long)tot.mismatches, (unsigned long long)tot.sim_ns, (unsigned long long)cov->n,
                    (unsigned long long)ilv->n, (unsigned long long)tot.known);
            fprintf(f, ",\"scenarios\":{");
            for (int i = 0; i < g_nscen; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", g_scen[i].name, (unsigned long long)tot.scen_runs[i]);
            fprintf(f, "},\"counters\":{");
            for (u32 i = 0; i < tot.n_count; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", tot.counters[i].key, (unsigned long long)tot.counters[i].n);
            fprintf(f, "},\"known_hit\":[");
            bool first = true;
            for (int i = 0; i < g_nknown; ++i) if (sh->known_hit[i & 15][0]) { fprintf(f, "%s%d", first ? "" : ",", i); first = false; }
            fprintf(f, "]");
            if (vr)
            {
                fprintf(f, ",\"violation\":{\"class\":");
                json_str(f, vr->cls);
                fprintf(f, ",\"message\":");
                json_str(f, vr->msg);
                fprintf(f, ",\"scenario\":\"%s\",\"seed\":\"%llu\",\"minimise_tries\":%d,\"replay\":", vc.scenario, (unsigned long long)vc.seed, tries);
                json_str(f, replay_out);
                fprintf(f, "}");
            }
            fprintf(f, "}\n");
            fclose(f);
        }
    }
    printf("%s: runs=%llu (faulty %llu) in %.1fs, distinct cases=%llu interleavings=%llu, reruns=%llu\n", g_prop, (unsigned long long)tot.runs, (unsigned long long)tot.runs_f, wall,
           (unsigned long long)cov->n, (unsigned long long)ilv->n, (unsigned long long)tot.reruns);
    if (vr) printf("  %s: %s: %s (seed %llu)\n", vc.scenario, vr->cls, vr->msg, (unsigned long long)vc.seed);
    if (rc == 3) printf("ERROR: %s\n", why);
    return rc;
}
