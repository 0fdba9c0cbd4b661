// Public API of the deterministic simulator used by the scenarios in
// /verif/harness.  Everything that is nondeterministic in a run goes through
// here: one run is a pure function of (scenario, workload tape, fault list,
// scheduling decisions), all of which derive from one integer seed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
    // ---- workload choices (recorded on the tape; 0 is always the simplest) ----
    uint32_t draw(uint32_t n); // uniform in [0,n)
    inline int irange(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
    bool flip(double p);       // true with probability p, false is simplest
    double unit();             // [0,1), 0 is simplest
    inline double real(double lo, double hi) { return lo + (hi - lo) * unit(); }

    // ---- event log (hashed; the hash is the identity of the execution) ----
    void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    // value folded in the hash only
    void evd(double v);
    void evu(uint64_t v);

    // ---- verdicts ----
    [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // the drawn configuration makes the run pointless
    [[noreturn]] void discard();
    void probe(const char* name); // "this rare condition was reached"
    void nontrivial();            // this run exercised what the property is about

    // ---- client threads ----
    int spawn(const char* label, std::function<void()> f);
    void join(int id);
    void join_all(const std::vector<int>& ids);
    void yield();     // a scheduling point
    int self();       // simulated thread id
    uint64_t now();   // global event sequence number (steps)
    int workers();    // number of pool workers simulated in this run

    // ---- faults ----
    enum Fault {
        F_ALLOC, // allocation returns null / throws bad_alloc
        F_OPEN, // fopen/open fails (EMFILE, EACCES, ENOENT, EIO)
        F_MKDIR, // mkdir fails
        F_WRITE_SHORT, // write accepts only a part
        F_WRITE_EINTR, // write interrupted, nothing written
        F_WRITE_ENOSPC, // disk full from here on (sticky)
        F_WRITE_EIO, // write fails
        F_READ_SHORT, // read returns only a part
        F_READ_EINTR, // read interrupted
        F_READ_EIO, // read fails
        F_CLOSE_EIO, // close fails
        F_CRASH, // the process dies at this system call / callback
        F_EVAL_THROW, // the objective throws
        F_EVAL_NAN, // the objective returns NaN
        F_EVAL_INF, // the objective returns +-inf
        F_HOST, // gethostname fails / long name
        F_CLOCK, // the clock jumps
        F_ENTROPY, // weak or repeated entropy source
        F_USER1,
        F_USER2,
        F_USER3,
        F_NCLASSES
    };
    const char* fault_name(int c);
    // A fault point: true if a fault of this class is injected here.
    // param: a 32-bit number the injector may use.
    bool fault(Fault c, uint32_t* param = nullptr);
    // Faults of a class fire only while armed.
    struct Arm {
        uint32_t mask, saved;
        explicit Arm(std::initializer_list<Fault> l);
        ~Arm();
    };
    struct Disarm { // temporarily disable everything
        uint32_t saved;
        Disarm();
        ~Disarm();
    };
    void fault_again(Fault c); // an earlier fault that lasts strikes again
    uint32_t injected(Fault c); // how many fired so far in this run
    bool any_injected();

    // ---- process incarnations: run f in a forked process image; only the
    // simulated disk (and the recorded history) survives.
    enum Exit { EXIT_OK, EXIT_CRASH };
    void crash_point(); // the process may die here
    Exit incarnation(const std::function<void()>& f);
    // A small area that survives crashes (for the oracle's history)
    void* persistent(size_t bytes);

    // ---- simulated disk ----
    bool disk_exists(const std::string& path);
    bool disk_read(const std::string& path, std::string& out);
    void disk_write(const std::string& path, const std::string& data);
    void disk_remove(const std::string& path);
    std::vector<std::string> disk_list();
    void disk_capacity(int64_t bytes_left); // <0: unlimited
    void disk_full(bool v);
    std::string disk_copy_all();
    void disk_restore_all(const std::string&);

    // ---- environment ----
    void set_hostname(const std::string& n);
    void set_clock(int64_t ns);
    int64_t clock_ns();
    void advance_clock(int64_t ns);
    void clock_ticks(bool v); // does the clock advance by itself at every read
    void set_pid(int pid);
    uint32_t entropy32();   // per simulated-thread-label stream, schedule independent
    // number of steps allowed before the run is declared stuck
    void step_budget(uint64_t steps);
    // counts only instrumented steps inside limbo
    uint64_t steps();

    // quiet: no scheduling point, no race detection, no alloc fault inside
    struct Quiet {
        Quiet();
        ~Quiet();
    };

    struct Reg {
        Reg(const char* prop, const char* name, void (*fn)(), int weight = 1);
    };
}

#define SIM_SCENARIO(prop, name, weight)                            \
    static void scn_##name();                                       \
    static ::sim::Reg reg_##name(#prop, #name, scn_##name, weight); \
    static void scn_##name()

#define SIM_CHECK(cond, cls, ...)           \
    do {                                    \
        if (!(cond))                        \
            ::sim::fail(cls, __VA_ARGS__);  \
    } while (0)

// Runtime services used by the shims
extern "C" {
void simrt_ignore_begin();
void simrt_ignore_end();
int simrt_max_parallelism();
void simrt_set_parallelism(int);
uint32_t simrt_sched_choice(uint32_t n);
void simrt_sync_point();
void simrt_par_run(size_t n, void (*fn)(void* ctx, size_t i), void* ctx);
void simrt_release(const void* addr); // HB: publish
void simrt_acquire(const void* addr); // HB: observe
uint64_t sim_tsc();
}
