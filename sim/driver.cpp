// Search, confirmation, minimisation and replay of simulated runs.
#include "rt.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <cstddef>
#include <map>
#include <signal.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using namespace simrt;

static double wall()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Plan {
    int scenario = 0;
    uint64_t seed = 0;
    std::vector<uint32_t> tape;
    std::vector<Dec> dec;
    std::vector<Pre> pre;
    std::vector<Flt> flt;
};

static void load_plan(const Plan& p)
{
    R->scenario = p.scenario;
    R->seed = p.seed;
    R->tape_n = p.tape.size();
    std::copy(p.tape.begin(), p.tape.end(), R->tape);
    R->dec_n = p.dec.size();
    std::copy(p.dec.begin(), p.dec.end(), R->dec);
    R->pre_n = p.pre.size();
    std::copy(p.pre.begin(), p.pre.end(), R->pre);
    R->flt_n = p.flt.size();
    std::copy(p.flt.begin(), p.flt.end(), R->flt);
}
static Plan save_plan(const RunState* r)
{
    Plan p;
    p.scenario = r->scenario;
    p.seed = r->seed;
    p.tape.assign(r->tape, r->tape + r->tape_n);
    p.dec.assign(r->dec, r->dec + r->dec_n);
    p.pre.assign(r->pre, r->pre + r->pre_n);
    p.flt.assign(r->flt, r->flt + r->flt_n);
    return p;
}

static int watchdog = 30;

// Executes the run described by R in a child; afterwards R holds the result.
static void execute()
{
    reset_run(R);
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) {
        R->status = ST_INTERNAL;
        snprintf(R->vmsg, sizeof R->vmsg, "fork failed");
        return;
    }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGALRM, SIG_DFL);
        struct itimerval it = {{0, 0}, {watchdog, 0}};
        setitimer(ITIMER_REAL, &it, nullptr);
        child_main();
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {
    }
    if (R->status == ST_NONE) {
        if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) == SIGALRM) {
                R->status = ST_VIOLATION;
                snprintf(R->vclass, sizeof R->vclass, "hang");
                snprintf(R->vmsg, sizeof R->vmsg, "the execution does not terminate (watchdog)");
            }
            else if (WTERMSIG(st) == SIGKILL) {
                R->status = ST_INTERNAL;
                snprintf(R->vmsg, sizeof R->vmsg, "child killed");
            }
            else {
                R->status = ST_VIOLATION;
                snprintf(R->vclass, sizeof R->vclass, "crash-signal-%d", WTERMSIG(st));
                snprintf(R->vmsg, sizeof R->vmsg, "the process is killed by signal %d", WTERMSIG(st));
            }
        }
        else {
            R->status = ST_VIOLATION;
            snprintf(R->vclass, sizeof R->vclass, "exit");
            snprintf(R->vmsg, sizeof R->vmsg, "the process exits unexpectedly with status %d", WEXITSTATUS(st));
        }
    }
    if (R->status == ST_VIOLATION && !strcmp(R->vclass, "internal"))
        R->status = ST_INTERNAL;
}

static void execute_plan(const Plan& p, int mode = 7)
{
    reset_plan(R);
    load_plan(p);
    R->mode = mode;
    execute();
}
static void execute_seed(int scenario, uint64_t seed)
{
    reset_plan(R);
    R->scenario = scenario;
    R->seed = seed;
    R->mode = 0;
    execute();
}

// ------------------------------------------------------------------ per-worker statistics
struct HSet {
    static const uint32_t N = 1u << 18;
    uint32_t n;
    uint64_t t[N];
    bool add(uint64_t h)
    {
        if (!h)
            h = 1;
        if (n > N * 3 / 4)
            return false;
        for (uint32_t i = (uint32_t)mix(h) & (N - 1);; i = (i + 1) & (N - 1)) {
            if (t[i] == h)
                return false;
            if (!t[i]) {
                t[i] = h;
                n++;
                return true;
            }
        }
    }
};
struct WOut {
    uint64_t runs, ok, discard, internal, nontriv, steps, switches, races, nev, det_checked, det_bad, incarn;
    int64_t simns;
    uint64_t hits[sim::F_NCLASSES], inj[sim::F_NCLASSES], runs_inj[sim::F_NCLASSES];
    uint64_t scn_runs[64];
    uint32_t nprobe;
    char probe[128][48];
    uint64_t probe_n[128];
    uint64_t known[64];
    HSet runs_h, sched_h, nontriv_h;
    uint32_t nsample;
    char sample[2][6000];
    char internal_msg[512];
    volatile int violated;
    uint64_t v_index;
    char rs[offsetof(RunState, user)];
};

struct Known {
    std::string cls, sub;
};
static std::vector<Known> known;
static int match_known()
{
    for (size_t i = 0; i < known.size(); i++)
        if (known[i].cls == R->vclass && (known[i].sub.empty() || strstr(R->vmsg, known[i].sub.c_str()) || strstr(R->log, known[i].sub.c_str())))
            return (int)i;
    return -1;
}

static void account(WOut* o)
{
    o->runs++;
    o->steps += R->step;
    o->switches += R->switches;
    o->races += R->races_checked;
    o->nev += R->nev;
    o->simns += R->clock_total;
    o->incarn += R->incarnations;
    for (int c = 0; c < sim::F_NCLASSES; c++) {
        o->hits[c] += R->hits[c];
        o->inj[c] += R->injected[c];
        o->runs_inj[c] += R->injected[c] > 0;
    }
    o->scn_runs[R->scenario]++;
    for (uint32_t i = 0; i < R->nprobe; i++) {
        uint32_t k = 0;
        while (k < o->nprobe && strcmp(o->probe[k], R->probe[i]))
            k++;
        if (k == o->nprobe) {
            if (o->nprobe == 128)
                continue;
            strcpy(o->probe[o->nprobe++], R->probe[i]);
        }
        o->probe_n[k]++;
    }
    o->runs_h.add(R->hash);
    if (R->switches)
        o->sched_h.add(R->sched_hash);
    if (R->status == ST_OK)
        o->ok++;
    if (R->status == ST_DISCARD)
        o->discard++;
    if (R->nontrivial) {
        o->nontriv++;
        o->nontriv_h.add(R->hash);
        if (o->nsample < 2 && o->runs > 3)
            snprintf(o->sample[o->nsample++], sizeof o->sample[0], "%s", R->log);
    }
}

static std::vector<int> prop_scenarios(const std::string& prop)
{
    std::vector<int> v;
    for (size_t i = 0; i < scenarios().size(); i++)
        if (prop == scenarios()[i].prop || prop == "all")
            for (int w = 0; w < scenarios()[i].weight; w++)
                v.push_back((int)i);
    return v;
}
static uint64_t run_seed(uint64_t base, const std::string& prop, int worker, uint64_t i)
{
    uint64_t h = mix(base + 0x51ed270b);
    for (char c : prop)
        h = mix(h ^ (uint64_t)(unsigned char)c);
    return mix(mix(h ^ ((uint64_t)worker << 48)) ^ i);
}

// ------------------------------------------------------------------ minimisation
static uint64_t min_runs = 0;
static double min_deadline = 0;
static bool still_fails(const Plan& p, const std::string& cls)
{
    if (wall() > min_deadline)
        return false;
    min_runs++;
    execute_plan(p);
    return R->status == ST_VIOLATION && cls == R->vclass;
}
// tries the workload of p with other schedules and fault sequences
static bool fails_somehow(Plan& p, const std::string& cls, bool had_faults)
{
    if (still_fails(p, cls))
        return true;
    for (int k = 0; k < 6; k++) {
        if (wall() > min_deadline)
            return false;
        min_runs++;
        Plan q = p;
        q.dec.clear();
        q.pre.clear();
        q.seed = mix(p.seed + 77 + k);
        int mode = 1 | 4;
        if (had_faults && k >= 3) {
            q.flt.clear();
            mode = 1;
        }
        execute_plan(q, mode);
        if (R->status == ST_VIOLATION && cls == R->vclass) {
            Plan got = save_plan(R);
            got.tape = p.tape;
            p = got;
            return true;
        }
    }
    return false;
}
template <typename V>
static bool ddmin(Plan& p, V Plan::*m, const std::string& cls)
{
    bool any = false;
    if ((p.*m).empty())
        return false;
    {
        Plan q = p;
        (q.*m).clear();
        if (still_fails(q, cls)) {
            p = q;
            return true;
        }
    }
    size_t n = (p.*m).size();
    for (size_t chunk = (n + 1) / 2; chunk >= 1; chunk = chunk / 2) {
        for (size_t i = 0; i < (p.*m).size();) {
            Plan q = p;
            size_t e = std::min(i + chunk, (q.*m).size());
            (q.*m).erase((q.*m).begin() + i, (q.*m).begin() + e);
            if (still_fails(q, cls)) {
                p = q;
                any = true;
            }
            else
                i += chunk;
            if (wall() > min_deadline)
                return any;
        }
        if (chunk == 1)
            break;
    }
    return any;
}
static void minimise(Plan& p, const std::string& cls)
{
    bool had_faults = !p.flt.empty();
    ddmin(p, &Plan::flt, cls);
    ddmin(p, &Plan::pre, cls);
    ddmin(p, &Plan::dec, cls);
    for (int round = 0; round < 4 && wall() < min_deadline; round++) {
        bool any = false;
        // cut what is never read
        {
            execute_plan(p);
            uint32_t used = R->tape_pos;
            if (used < p.tape.size())
                p.tape.resize(used);
        }
        for (size_t chunk : {16, 8, 4, 2, 1}) {
            for (size_t i = 3; i + chunk <= p.tape.size() && wall() < min_deadline;) {
                Plan q = p;
                q.tape.erase(q.tape.begin() + i, q.tape.begin() + i + chunk);
                if (fails_somehow(q, cls, had_faults)) {
                    p = q;
                    any = true;
                }
                else
                    i += chunk;
            }
        }
        for (size_t i = 0; i < p.tape.size() && wall() < min_deadline; i++) {
            for (uint32_t v : {0u, 1u, p.tape[i] / 2}) {
                if (v >= p.tape[i])
                    continue;
                Plan q = p;
                q.tape[i] = v;
                if (fails_somehow(q, cls, had_faults)) {
                    p = q;
                    any = true;
                    break;
                }
            }
        }
        any |= ddmin(p, &Plan::flt, cls);
        any |= ddmin(p, &Plan::pre, cls);
        any |= ddmin(p, &Plan::dec, cls);
        if (!any)
            break;
    }
}

// ------------------------------------------------------------------ replay files
static bool write_replay(const char* path, const std::string& harness, const std::string& prop, const Plan& p, uint64_t seed0)
{
    FILE* f = fopen(path, "w");
    if (!f)
        return false;
    fprintf(f, "limbo-sim-replay 1\nproperty %s\nharness %s\nscenario %s\nclass %s\n", prop.c_str(), harness.c_str(), scenarios()[p.scenario].name, R->vclass);
    std::string m = R->vmsg;
    for (char& c : m)
        if (c == '\n')
            c = ' ';
    fprintf(f, "message %s\nseed %llu\nhash %llx\n", m.c_str(), (unsigned long long)seed0, (unsigned long long)R->hash);
    fprintf(f, "tape %zu", p.tape.size());
    for (auto v : p.tape)
        fprintf(f, " %u", v);
    fprintf(f, "\ndec %zu", p.dec.size());
    for (auto& v : p.dec)
        fprintf(f, " %u:%u", v.idx, v.val);
    fprintf(f, "\npre %zu", p.pre.size());
    for (auto& v : p.pre)
        fprintf(f, " %llu:%u", (unsigned long long)v.step, v.target);
    fprintf(f, "\nflt %zu", p.flt.size());
    for (auto& v : p.flt)
        fprintf(f, " %u:%u:%u", v.cls, v.hit, v.param);
    fprintf(f, "\n# legend: tape = workload choices; dec = scheduler choices (index:value); pre = preemptions (step:thread); flt = faults (class:hit:param):");
    for (auto& v : p.flt)
        fprintf(f, " %s@%u", sim::fault_name(v.cls), v.hit);
    fprintf(f, "\n# trace of the minimised execution\n");
    char* s = R->log;
    size_t lim = std::min<size_t>(R->log_n, 120000);
    fwrite(s, 1, lim, f);
    fclose(f);
    return true;
}
static bool read_replay(const char* path, Plan& p, std::string& cls, uint64_t& hash)
{
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    char* line = nullptr;
    size_t cap = 0;
    bool ok = false;
    while (getline(&line, &cap, f) > 0) {
        char w[32], *rest = line;
        int n = 0;
        if (line[0] == '#')
            break;
        if (sscanf(line, "%31s %n", w, &n) != 1)
            continue;
        rest = line + n;
        size_t L = strlen(rest);
        while (L && (rest[L - 1] == '\n'))
            rest[--L] = 0;
        std::string k = w;
        if (k == "scenario") {
            p.scenario = -1;
            for (size_t i = 0; i < scenarios().size(); i++)
                if (!strcmp(scenarios()[i].name, rest))
                    p.scenario = (int)i;
        }
        else if (k == "class")
            cls = rest;
        else if (k == "hash")
            hash = strtoull(rest, nullptr, 16), ok = true;
        else if (k == "seed")
            p.seed = strtoull(rest, nullptr, 10);
        else if (k == "tape" || k == "dec" || k == "pre" || k == "flt") {
            char* c = rest;
            size_t cnt = strtoull(c, &c, 10);
            for (size_t i = 0; i < cnt; i++) {
                uint64_t a = strtoull(c, &c, 10), b = 0, d = 0;
                if (*c == ':')
                    b = strtoull(c + 1, &c, 10);
                if (*c == ':')
                    d = strtoull(c + 1, &c, 10);
                if (k == "tape")
                    p.tape.push_back((uint32_t)a);
                if (k == "dec")
                    p.dec.push_back(Dec{(uint32_t)a, (uint32_t)b});
                if (k == "pre")
                    p.pre.push_back(Pre{a, (uint32_t)b, 0});
                if (k == "flt")
                    p.flt.push_back(Flt{(uint32_t)a, (uint32_t)b, (uint32_t)d});
            }
        }
    }
    free(line);
    fclose(f);
    return ok && p.scenario >= 0;
}

static void jstr(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if (c == '\n')
            fprintf(f, "\\n");
        else if (c < 32 || c > 126)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}

int main(int argc, char** argv)
{
    if (!getenv("SIM_NOREEXEC")) {
        int p = personality(0xffffffff);
        setenv("SIM_NOREEXEC", "1", 1);
        if (p >= 0 && !(p & ADDR_NO_RANDOMIZE)) {
            personality((unsigned long)p | ADDR_NO_RANDOMIZE);
            execv("/proc/self/exe", argv);
        }
    }
    setenv("TZ", "UTC", 1);
    tzset();
    simrt::find_libc();
    std::map<std::string, std::string> opt;
    std::string cmd = argc > 1 ? argv[1] : "help", pos;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--known" && i + 1 < argc) {
            std::string v = argv[++i];
            size_t k = v.find("::");
            known.push_back(Known{v.substr(0, k), k == std::string::npos ? "" : v.substr(k + 2)});
        }
        else if (a.substr(0, 2) == "--" && i + 1 < argc)
            opt[a.substr(2)] = argv[++i];
        else
            pos = a;
    }
    auto get = [&](const char* k, const char* d) { return opt.count(k) ? opt[k] : std::string(d); };
    watchdog = atoi(get("watchdog", "30").c_str());
    std::string prop = get("prop", "all");
    uint64_t seed = strtoull(get("seed", "1").c_str(), nullptr, 10);
    std::string harness = get("harness", argv[0]);

    if (cmd == "list") {
        for (auto& s : scenarios())
            printf("%s %s\n", s.prop, s.name);
        return 0;
    }
    if (cmd == "replay") {
        Plan p;
        std::string cls;
        uint64_t hash = 0;
        if (!read_replay(pos.c_str(), p, cls, hash)) {
            fprintf(stderr, "cannot read %s\n", pos.c_str());
            return 2;
        }
        map_state();
        execute_plan(p);
        if (opt.count("v"))
            fputs(R->log, stdout);
        bool same = R->status == ST_VIOLATION && cls == R->vclass;
        printf("replay: status=%d class=%s hash=%llx expected class=%s hash=%llx: %s\n  %s\n", R->status, R->vclass, (unsigned long long)R->hash, cls.c_str(), (unsigned long long)hash,
            same ? (hash == R->hash ? "reproduced exactly" : "reproduced, different trace") : "NOT reproduced", R->vmsg);
        return same && hash == R->hash ? 1 : (same ? 4 : 0);
    }
    std::vector<int> scn = prop_scenarios(prop);
    if (opt.count("scenario")) {
        scn.clear();
        for (size_t i = 0; i < scenarios().size(); i++)
            if (opt["scenario"] == scenarios()[i].name)
                scn.push_back((int)i);
    }
    if (scn.empty()) {
        fprintf(stderr, "no scenario\n");
        return 2;
    }
    if (cmd == "one") {
        map_state();
        double t0 = wall();
        if (opt.count("index")) {
            uint64_t i = strtoull(opt["index"].c_str(), nullptr, 10);
            execute_seed(scn[i % scn.size()], run_seed(seed, prop, atoi(get("worker", "0").c_str()), i));
        }
        else
            execute_seed(scn[0], seed);
        double t1 = wall();
        fputs(R->log, stdout);
        printf("status %d %s %s\nsteps %llu switches %llu hash %llx time %.4f\n", R->status, R->vclass, R->vmsg, (unsigned long long)R->step, (unsigned long long)R->switches, (unsigned long long)R->hash, t1 - t0);
        return R->status == ST_VIOLATION;
    }
    if (cmd != "search" && cmd != "determinism") {
        fprintf(stderr, "usage: search|replay|one|list|determinism\n");
        return 2;
    }
    bool det = cmd == "determinism";
    double secs = atof(get("secs", "10").c_str());
    uint64_t maxruns = strtoull(get("max-runs", "1000000000").c_str(), nullptr, 10);
    int nw = atoi(get("workers", "8").c_str());
    std::string out = get("out", "/dev/null");
    double t0 = wall(), tend = t0 + secs;
    std::vector<WOut*> wo;
    for (int w = 0; w < nw; w++)
        wo.push_back((WOut*)mmap(nullptr, sizeof(WOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    volatile int* stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    map_state();
    std::vector<std::string> flaky;
    bool violated = false;
    std::vector<uint64_t> start(nw, 0);
    Plan vplan;
    uint64_t vseed = 0;
    std::string vcls;
    for (int attempt = 0; attempt < 4 && !violated; attempt++) {
        *stop = 0;
        for (auto* o : wo)
            o->violated = 0;
        std::vector<pid_t> pids;
        for (int w = 0; w < nw; w++) {
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                cpu_set_t cs, old;
                sched_getaffinity(0, sizeof old, &old);
                int cnt = CPU_COUNT(&old), want = cnt ? w % cnt : 0;
                CPU_ZERO(&cs);
                for (int c = 0, k = 0; c < CPU_SETSIZE; c++)
                    if (CPU_ISSET(c, &old) && k++ == want)
                        CPU_SET(c, &cs);
                sched_setaffinity(0, sizeof cs, &cs);
                map_state();
                WOut* o = wo[w];
                uint64_t i = start[w];
                for (; wall() < tend && !*stop && o->runs < maxruns; i++) {
                    uint64_t s = run_seed(seed, prop, w, i);
                    int sc = scn[(i * nw + w) % scn.size()];
                    execute_seed(sc, s);
                    account(o);
                    if (det || i % 64 == 5) {
                        // determinism: the same seed again, and its recorded plan
                        uint64_t h = R->hash;
                        int st = R->status;
                        if (st != ST_INTERNAL) {
                            Plan p = save_plan(R);
                            std::string log1 = getenv("SIM_DUMP") ? R->log : "";
                            execute_seed(sc, s);
                            if (getenv("SIM_DUMP") && R->hash != h) {
                                FILE* f = fopen("/tmp/simdump1.txt", "w");
                                fputs(log1.c_str(), f);
                                fclose(f);
                                f = fopen("/tmp/simdump2.txt", "w");
                                fputs(R->log, f);
                                fclose(f);
                            }
                            uint64_t h2 = R->hash;
                            int st2 = R->status;
                            bool bad = h2 != h;
                            execute_plan(p);
                            bad |= R->hash != h;
                            o->det_checked++;
                            if (bad) {
                                o->det_bad++;
                                snprintf(o->internal_msg, sizeof o->internal_msg, "nondeterministic: scenario %s seed %llu hash %llx, again %llx, replay %llx (status %d %d %d)", scenarios()[sc].name, (unsigned long long)s,
                                    (unsigned long long)h, (unsigned long long)h2, (unsigned long long)R->hash, st, st2, R->status);
                            }
                        }
                    }
                    if (R->status == ST_INTERNAL) {
                        o->internal++;
                        snprintf(o->internal_msg, sizeof o->internal_msg, "internal: %s (scenario %s seed %llu)", R->vmsg, scenarios()[sc].name, (unsigned long long)s);
                        continue;
                    }
                    if (R->status == ST_VIOLATION) {
                        int k = match_known();
                        if (k >= 0) {
                            o->known[k]++;
                            continue;
                        }
                        memcpy(o->rs, R, sizeof o->rs);
                        o->v_index = i;
                        o->violated = 1;
                        *stop = 1;
                        i++;
                        break;
                    }
                }
                _exit(0);
            }
            pids.push_back(p);
        }
        for (pid_t p : pids)
            waitpid(p, nullptr, 0);
        int pick = -1;
        for (int w = 0; w < nw; w++)
            if (wo[w]->violated && (pick < 0 || wo[w]->v_index < wo[pick]->v_index))
                pick = w;
        if (pick < 0)
            break;
        for (int w = 0; w < nw; w++)
            start[w] = wo[w]->violated ? wo[w]->v_index + 1 : start[w] + 1000000;
        const RunState* rs = (const RunState*)wo[pick]->rs;
        Plan p = save_plan(rs);
        std::string cls = rs->vclass;
        uint64_t h = rs->hash;
        vseed = rs->seed;
        // gate: the same seed twice, then the recorded plan
        execute_seed(p.scenario, p.seed);
        bool same = R->hash == h && R->status == ST_VIOLATION && cls == R->vclass;
        execute_plan(p);
        bool same2 = R->hash == h && R->status == ST_VIOLATION && cls == R->vclass;
        if (!same || !same2) {
            char b[600];
            snprintf(b, sizeof b, "not reproducible: %s (%s) scenario %s seed %llu: again=%d plan=%d", cls.c_str(), rs->vmsg, scenarios()[p.scenario].name, (unsigned long long)p.seed, same, same2);
            flaky.push_back(b);
            if (wall() > tend)
                break;
            continue;
        }
        if (cls == "hang")
            min_deadline = wall() + 1;
        else
            min_deadline = wall() + atof(get("min-secs", "20").c_str());
        minimise(p, cls);
        execute_plan(p);
        if (!(R->status == ST_VIOLATION && cls == R->vclass)) {
            p = save_plan(rs);
            execute_plan(p);
        }
        vplan = p;
        vcls = cls;
        violated = true;
    }
    double search_wall = wall() - t0;
    int rc = 0;
    std::string rpath;
    if (violated) {
        rpath = get("replay-dir", ".") + "/" + prop + "-" + harness + ".replay";
        if (!write_replay(rpath.c_str(), harness, prop, vplan, vseed)) {
            fprintf(stderr, "cannot write %s\n", rpath.c_str());
            return 2;
        }
        printf("class: %s\nmessage: %s\nscenario: %s\nminimised: %zu choices, %zu preemptions, %zu scheduler choices, %zu faults (%llu runs)\n", R->vclass, R->vmsg, scenarios()[vplan.scenario].name, vplan.tape.size(), vplan.pre.size(),
            vplan.dec.size(), vplan.flt.size(), (unsigned long long)min_runs);
        fflush(stdout);
        // fresh process
        pid_t p = fork();
        if (p == 0) {
            unsetenv("SIM_NOREEXEC");
            execl("/proc/self/exe", "sim", "replay", rpath.c_str(), (char*)nullptr);
            _exit(99);
        }
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
            fprintf(stderr, "fresh-process replay did not reproduce\n");
            rc = 3;
        }
        else
            rc = 1;
    }
    // ---- statistics
    static WOut tot;
    uint64_t internal = 0;
    for (auto* o : wo) {
        tot.runs += o->runs;
        tot.ok += o->ok;
        tot.discard += o->discard;
        tot.nontriv += o->nontriv;
        tot.steps += o->steps;
        tot.switches += o->switches;
        tot.races += o->races;
        tot.nev += o->nev;
        tot.simns += o->simns;
        tot.incarn += o->incarn;
        tot.det_checked += o->det_checked;
        tot.det_bad += o->det_bad;
        internal += o->internal;
        for (int c = 0; c < sim::F_NCLASSES; c++) {
            tot.hits[c] += o->hits[c];
            tot.inj[c] += o->inj[c];
            tot.runs_inj[c] += o->runs_inj[c];
        }
        for (int c = 0; c < 64; c++) {
            tot.scn_runs[c] += o->scn_runs[c];
            tot.known[c] += o->known[c];
        }
        for (uint32_t i = 0; i < o->nprobe; i++) {
            uint32_t k = 0;
            while (k < tot.nprobe && strcmp(tot.probe[k], o->probe[i]))
                k++;
            if (k == tot.nprobe) {
                if (k == 128)
                    continue;
                strcpy(tot.probe[tot.nprobe++], o->probe[i]);
            }
            tot.probe_n[k] += o->probe_n[i];
        }
        for (uint32_t i = 0; i < HSet::N; i++) {
            if (o->runs_h.t[i])
                tot.runs_h.add(o->runs_h.t[i]);
            if (o->sched_h.t[i])
                tot.sched_h.add(o->sched_h.t[i]);
            if (o->nontriv_h.t[i])
                tot.nontriv_h.add(o->nontriv_h.t[i]);
        }
        if (o->internal_msg[0])
            fprintf(stderr, "%s\n", o->internal_msg);
    }
    for (auto& s : flaky)
        fprintf(stderr, "%s\n", s.c_str());
    FILE* f = fopen(out.c_str(), "w");
    if (f) {
        fprintf(f, "{\"harness\":");
        jstr(f, harness.c_str());
        fprintf(f, ",\"runs\":%llu,\"completed\":%llu,\"discarded\":%llu,\"internal\":%llu,\"nontrivial\":%llu,\"distinct_runs\":%u,\"distinct_nontrivial\":%u,\"distinct_interleavings\":%u,"
                   "\"steps\":%llu,\"context_switches\":%llu,\"race_checks\":%llu,\"events\":%llu,\"simulated_seconds\":%.6f,\"incarnations\":%llu,\"determinism_checked\":%llu,\"determinism_bad\":%llu,\"flaky\":%zu,\"wall_s\":%.3f,\"workers\":%d",
            (unsigned long long)tot.runs, (unsigned long long)tot.ok, (unsigned long long)tot.discard, (unsigned long long)internal, (unsigned long long)tot.nontriv, tot.runs_h.n, tot.nontriv_h.n, tot.sched_h.n,
            (unsigned long long)tot.steps, (unsigned long long)tot.switches, (unsigned long long)tot.races, (unsigned long long)tot.nev, tot.simns * 1e-9, (unsigned long long)tot.incarn, (unsigned long long)tot.det_checked, (unsigned long long)tot.det_bad, flaky.size(), search_wall, nw);
        fprintf(f, ",\"faults\":{");
        bool first = true;
        for (int c = 0; c < sim::F_NCLASSES; c++)
            if (tot.hits[c]) {
                fprintf(f, "%s\"%s\":{\"opportunities\":%llu,\"injected\":%llu,\"runs_with\":%llu}", first ? "" : ",", sim::fault_name(c), (unsigned long long)tot.hits[c], (unsigned long long)tot.inj[c], (unsigned long long)tot.runs_inj[c]);
                first = false;
            }
        fprintf(f, "},\"probes\":{");
        for (uint32_t i = 0; i < tot.nprobe; i++) {
            fprintf(f, "%s", i ? "," : "");
            jstr(f, tot.probe[i]);
            fprintf(f, ":%llu", (unsigned long long)tot.probe_n[i]);
        }
        fprintf(f, "},\"scenarios\":{");
        first = true;
        for (size_t i = 0; i < scenarios().size() && i < 64; i++)
            if (tot.scn_runs[i]) {
                fprintf(f, "%s\"%s\":%llu", first ? "" : ",", scenarios()[i].name, (unsigned long long)tot.scn_runs[i]);
                first = false;
            }
        fprintf(f, "},\"known\":[");
        for (size_t i = 0; i < known.size(); i++)
            fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)tot.known[i]);
        fprintf(f, "],\"samples\":[");
        first = true;
        for (auto* o : wo)
            for (uint32_t i = 0; i < o->nsample && (first || o == wo[1 % nw]); i++) {
                fprintf(f, "%s", first ? "" : ",");
                jstr(f, o->sample[i]);
                first = false;
            }
        fprintf(f, "],\"violation\":%d,\"replay\":", violated ? 1 : 0);
        jstr(f, rpath.c_str());
        fprintf(f, "}\n");
        fclose(f);
    }
    if (opt.count("v") || det)
        printf("runs %llu ok %llu discard %llu nontrivial %llu distinct %u interleavings %u switches %llu det %llu/%llu bad flaky %zu internal %llu in %.1fs\n", (unsigned long long)tot.runs, (unsigned long long)tot.ok, (unsigned long long)tot.discard,
            (unsigned long long)tot.nontriv, tot.runs_h.n, tot.sched_h.n, (unsigned long long)tot.switches, (unsigned long long)tot.det_bad, (unsigned long long)tot.det_checked, flaky.size(), (unsigned long long)internal, search_wall);
    if (rc)
        return rc;
    if (tot.det_bad || !flaky.empty() || internal * 100 > tot.runs)
        return 3;
    if (tot.runs == 0)
        return 3;
    return 0;
}
