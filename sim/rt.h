// Internal shared state of the simulator (rt.cpp, disk.cpp, driver.cpp).
#pragma once
#include "sim.h"
#include <cstring>

namespace simrt {
    constexpr int MAXT = 32;
    constexpr uint32_t TAPE_MAX = 1u << 16;
    constexpr uint32_t DEC_MAX = 1u << 16;
    constexpr uint32_t PRE_MAX = 1u << 16;
    constexpr uint32_t FLT_MAX_N = 2048;
    constexpr uint32_t LOG_MAX = 1u << 18;
    constexpr uint32_t PROBE_MAX = 64;
    constexpr uint32_t DISK_POOL = 24u << 20;
    constexpr uint32_t INODES = 512;

    enum Status { ST_NONE = 0, ST_OK, ST_VIOLATION, ST_DISCARD, ST_INTERNAL };

    struct Dec {
        uint32_t idx, val;
    };
    struct Pre {
        uint64_t step;
        uint32_t target, pad;
    };
    struct Flt {
        uint32_t cls, hit, param;
    };
    struct Inode {
        char path[240];
        uint8_t used, dir;
        uint32_t off, len, cap;
    };

    struct RunState {
        // ---- plan (input in replay, recorded in search) ----
        int mode; // 0: search. bit 0: replay the tape, bit 1: replay the schedule, bit 2: replay the faults
        uint64_t seed;
        int scenario;
        uint32_t tape_n, dec_n, pre_n, flt_n;
        uint32_t tape[TAPE_MAX];
        Dec dec[DEC_MAX];
        Pre pre[PRE_MAX];
        Flt flt[FLT_MAX_N];
        // ---- progress ----
        uint32_t tape_pos, dec_pos, pre_pos;
        uint64_t rng_tape, rng_sched, rng_fault, rng_ent;
        uint64_t step, budget, next_sp;
        uint32_t choice_idx;
        // ---- search policy of this run ----
        double p_sync, p_conf, mean_gap, p_choice;
        double p_fault[sim::F_NCLASSES];
        // ---- output ----
        int status;
        char vclass[96];
        char vmsg[2048];
        uint64_t pc1, pc2;
        uint64_t hash, nev;
        uint64_t sched_hash;
        uint64_t switches, races_checked;
        uint32_t hits[sim::F_NCLASSES], injected[sim::F_NCLASSES];
        int nontrivial;
        uint32_t nprobe;
        char probe[PROBE_MAX][48];
        uint32_t log_n;
        char log[LOG_MAX];
        // ---- simulated environment ----
        int64_t clock_ns, clock_total;
        int clock_ticks;
        int pid;
        char hostname[128];
        int nworkers;
        uint8_t fill;
        uint32_t ent_seed;
        int incarnations;
        // ---- disk ----
        int64_t disk_left;
        int disk_full;
        uint64_t sys_disk;
        uint32_t pool_n;
        Inode ino[INODES];
        // persistent user area
        uint32_t user_n;
        char user[1 << 20];
        // (not cleared) disk pool
        char pool[DISK_POOL];
    };

    extern RunState* R;        // fixed address, shared
    extern bool in_run;        // inside a simulated execution
    extern uint32_t armed;     // armed fault classes
    extern int quiet;

    struct ScenarioDef {
        const char *prop, *name;
        void (*fn)();
        int weight;
    };
    std::vector<ScenarioDef>& scenarios();

    RunState* map_state();
    void reset_plan(RunState*);
    void reset_run(RunState*); // clears everything but the plan
    [[noreturn]] void child_main(); // executes the run described by R
    void sys_point(const char* what);   // a system call boundary: crash + sched point
    void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    uint64_t mix(uint64_t x);
    inline uint64_t next(uint64_t& s)
    {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
    inline double u01(uint64_t& s) { return (double)(next(s) >> 11) * (1.0 / 9007199254740992.0); }
    void find_libc();
    void disk_reset();
    void proc_reset_fds();
    void raw_close(int fd);
    void crash_now();
    void race_forget(const void* p, size_t n);
    void race_access(const void* p, size_t n, bool w);
}
