// Deterministic simulator for gbs: public interface used by the harnesses.
//
// One 64-bit seed decides a whole run: inputs, operation history, how every
// parallel range is split, which simulated thread executes which piece, every
// preemption, the heap layout, and every injected fault.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <type_traits>
#include <utility>

namespace sim
{
    using u64 = std::uint64_t;

    inline u64 mix(u64 x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    inline u64 mix(u64 a, u64 b) { return mix(a ^ mix(b + 0x632BE59BD9B4E019ull)); }

    struct Rng
    {
        u64 s;
        explicit Rng(u64 seed = 0) : s{mix(seed)} {}
        u64 next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
        u64 below(u64 n) { return n ? next() % n : 0; }
        long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); } // inclusive
        double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
        double real(double a, double b) { return a + (b - a) * uniform(); }
        bool chance(double p) { return uniform() < p; }
        Rng fork(u64 k) const { return Rng(mix(s, k)); }
    };

    // ---- run identity -----------------------------------------------------
    /// Independent stream derived from the run's seed.
    Rng stream(const char *name, u64 k = 0);
    /// Minimiser masks: an operation / fault / preemption the minimiser removed.
    bool op_on(int i);
    bool fault_on(int i);
    /// Scale factor for input sizes in [0,1] (the minimiser lowers it).
    double size_scale();
    /// True for runs of the fault-injecting configuration.
    bool faults_enabled();

    // ---- reporting --------------------------------------------------------
    [[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
    void observe(u64 h);
    void observe_bytes(const void *p, std::size_t n);
    void cover(u64 h);                           // a distinct non-trivial case reached
    void count(const char *key, u64 n = 1);      // probe / fault counter

    // ---- schedule ---------------------------------------------------------
    bool active();
    /// Reference mode: parallel algorithms run their whole range in order on the calling thread.
    void serial(bool on);
    struct Serial { Serial() { serial(true); } ~Serial() { serial(false); } };
    /// Run n leaves on simulated workers, in a seeded order and interleaving.
    void run_leaves(std::size_t n, void (*fn)(void *, std::size_t), void *ctx);
    /// Same, but every leaf is its own simulated (caller) thread.
    void run_threads(std::size_t n, void (*fn)(void *, std::size_t), void *ctx);
    /// Cut [0,n) into seeded contiguous pieces of at least `grain` elements; fills `cuts` with piece ends.
    std::size_t split_plan(std::size_t n, std::size_t grain, std::size_t *cuts, std::size_t cap);
    u64 region_choice(u64 n); // seeded choice in [0,n) from the splitting stream
    /// Force the number of workers for following regions (0: seeded).
    void force_workers(int w);
    void sched_point();

    template <class F> void threads(std::size_t n, F &&f)
    {
        run_threads(n, [](void *c, std::size_t i) { (*static_cast<std::remove_reference_t<F> *>(c))(i); }, (void *)&f);
    }
    template <class F> void leaves(std::size_t n, F &&f)
    {
        run_leaves(n, [](void *c, std::size_t i) { (*static_cast<std::remove_reference_t<F> *>(c))(i); }, (void *)&f);
    }

    // ---- allocation faults ------------------------------------------------
    /// Arm: the k-th allocation from now (1-based) fails; persistent => every one from the k-th on.
    void alloc_arm(u64 k, bool persistent);
    struct AllocWindow { u64 seen; u64 failed; };
    AllocWindow alloc_disarm();
    void alloc_count_begin();          // count without failing
    u64 live_blocks();
    u64 live_bytes();
    /// Heap layout: 0 = plain; otherwise seeded scatter of block placement.
    void heap_layout(u64 seed);

    // ---- simulated disk ---------------------------------------------------
    enum class IoFault { None, ShortRead, Eintr, ReadEio, ShortWrite, WriteEnospc, WriteEio, CloseEio, OpenFail, Crash };
    const char *io_fault_name(IoFault);
    void disk_put(const char *path, const std::string &data);
    bool disk_get(const char *path, std::string &data);
    void disk_remove(const char *path);
    /// Legal-but-unusual behaviour: short transfers / EINTR with the given probabilities.
    void disk_jitter(double p_short, double p_eintr);
    /// One hard fault at byte offset `at` of the next file operation of that kind.
    /// once: the device recovers right after the fault; otherwise it goes on failing.
    void disk_fault(IoFault f, u64 at, bool once = false);
    void disk_clear();
    u64 disk_fault_fired();
    u64 disk_jitter_fired();
    /// Thrown nowhere: a crash fault stops the simulated process by unwinding to this point.
    /// Runs f; returns true when f ran to the end, false when a simulated crash stopped it.
    bool run_until_crash(void (*fn)(void *), void *ctx);

    // ---- a process of its own ---------------------------------------------
    /// Runs fn in a copy of the simulated process as it is now (nothing it does is seen here, except
    /// a violation, which ends the run) and hands over the n <= 64 numbers it leaves in its buffer.
    void elsewhere(u64 *out, std::size_t n, void (*fn)(void *, u64 *), void *ctx);
    template <class F> void elsewhere(u64 *out, std::size_t n, F &&f)
    {
        elsewhere(out, n, [](void *c, u64 *o) { (*(std::remove_reference_t<F> *)c)(o); }, (void *)&f);
    }

    // ---- randomness seam --------------------------------------------------
    void entropy_seed(u64 s);          // what std::random_device / getrandom deliver
    void entropy_constant(bool on, std::uint32_t v = 0);

    // ---- memory of a caller buffer (not heap-checked) ---------------------
    u64 steps();                        // instrumented accesses so far
    void step_budget(u64 max_steps);    // hang detection

    // ---- scenarios --------------------------------------------------------
    struct Scenario
    {
        const char *name;
        void (*fn)();
        double weight;
        bool faults;    // belongs to the fault-injecting configuration
    };
    void add_scenario(const Scenario &);
    struct Register { Register(const char *n, void (*f)(), double w, bool faults) { add_scenario({n, f, w, faults}); } };
}

#define SIM_SCENARIO(NAME, WEIGHT, FAULTS)                                   \
    static void scen_##NAME();                                              \
    static sim::Register reg_##NAME{#NAME, &scen_##NAME, WEIGHT, FAULTS};   \
    static void scen_##NAME()
