#!/usr/bin/env python3
"""Builds the simulator harnesses from /repo's working tree and runs the checks.

  check.py run PROP [--tier quick|thorough] [--secs S]   one property (what MANIFEST.json registers)
  check.py build                                         compile everything
  check.py replay FILE [-v]                              reproduce a replay file exactly
  check.py determinism [PROP..] [--secs S]               same seed, same execution
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LIMBO_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from props import PROPS, HARNESSES, COMPONENTS, QUICK_SECS, THOROUGH_SECS

RTFLAGS = "-std=c++17 -O2 -g1 -fno-pie -w -U_FORTIFY_SOURCE".split()
HFLAGS = ("-std=c++14 -O1 -g1 -fno-pie -fno-stack-protector -fsanitize=thread -U_FORTIFY_SOURCE -include sim/strings.h -w -Wno-tsan").split()
WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=strftime"
LIBS = "-lnlopt_cxx -lnlopt -lboost_filesystem -lboost_system -lpthread -ldl".split()
ENV = dict(os.environ, SOURCE_DATE_EPOCH="1500000000", LC_ALL="C", TZ="UTC")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_hash(root, exts=None):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if exts and not f.endswith(exts):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def run_cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=HERE)
    return r.returncode, r.stdout.decode(errors="replace")


def build(names):
    """Returns {name: binary}; raises on a compile error."""
    os.makedirs(BUILD, exist_ok=True)
    simh = tree_hash(os.path.join(HERE, "sim"))
    repoh = tree_hash(os.path.join(REPO, "src"))
    hh = tree_hash(os.path.join(HERE, "harness"), (".h", ".hpp"))
    jobs, objs = [], {}
    for f in ("rt", "disk", "driver"):
        o = os.path.join(BUILD, "%s-%s.o" % (f, simh[:16]))
        objs[f] = o
        if not os.path.exists(o):
            t = o + ".%d.tmp" % os.getpid()
            jobs.append((o, t, ["g++", *RTFLAGS, "-c", "sim/%s.cpp" % f, "-o", t], True))
    bins = {}
    for n in names:
        h = HARNESSES[n]
        src = os.path.join(HERE, "harness", h["src"])
        incs = [*("-Isim/" + i for i in h.get("inc", [])), *(["-Isim/shim"]), "-Isim", "-Iharness", "-I" + REPO + "/src", "-I/usr/include/eigen3"]
        flags = [*HFLAGS, *h.get("flags", []), *incs, "-DUSE_NLOPT"]
        key = sha(simh, repoh, hh, open(src, "rb").read(), " ".join(flags))[:16]
        o = os.path.join(BUILD, "%s-%s.o" % (n, key))
        objs[n] = o
        bins[n] = os.path.join(BUILD, "%s-%s" % (n, key))
        if not os.path.exists(bins[n]) and not os.path.exists(o):
            t = o + ".%d.tmp" % os.getpid()
            jobs.append((o, t, ["g++", *flags, "-c", src, "-o", t], False))

    def one(j):
        o, t, cmd, redef = j
        rc, out = run_cc(cmd)
        if rc == 0 and redef:
            rc, out = run_cc(["objcopy", "--redefine-sym", "memset=__real_memset", "--redefine-sym", "memcpy=__real_memcpy", "--redefine-sym", "memmove=__real_memmove", t])
        if rc:
            raise RuntimeError("%s\n%s" % (" ".join(cmd), out[-6000:]))
        os.rename(t, o)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))

    def link(n):
        if os.path.exists(bins[n]):
            return
        t = bins[n] + ".%d.tmp" % os.getpid()
        rc, out = run_cc(["g++", "-no-pie", "-rdynamic", objs[n], objs["rt"], objs["disk"], objs["driver"], WRAP, "-o", t, *LIBS])
        if rc:
            raise RuntimeError(out[-6000:])
        os.rename(t, bins[n])
        os.unlink(objs[n])

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(link, names))
    # bound the cache
    keep = set(bins.values()) | set(objs.values())
    fs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)), key=lambda p: -os.path.getmtime(p))
    for p in fs[120:]:
        if p not in keep:
            try:
                os.unlink(p)
            except OSError:
                pass
    return bins


def load_known(prop):
    """known_findings.json: [{property, class, match, what}] and fixed entries, which suppress nothing."""
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def symbolise(binary, text):
    pcs = re.findall(r"0x[0-9a-f]{6,}", text)
    if not pcs:
        return []
    r = subprocess.run(["addr2line", "-Cfie", binary] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    out = r.stdout.decode(errors="replace").split("\n")
    return ["  " + a[:100] + " at " + b[-90:] for a, b in zip(out[0::2], out[1::2])][:24]


def run_prop(prop, tier, secs, seed):
    t0 = time.time()
    P = PROPS[prop]
    try:
        bins = build(P["harnesses"])
    except RuntimeError as e:
        print("build failed:\n%s" % e)
        return 2
    tb = time.time() - t0
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    known = load_known(prop)
    total = secs if secs is not None else P.get(tier + "_secs", QUICK_SECS if tier == "quick" else THOROUGH_SECS)
    workers = max(1, min(16, len(os.sched_getaffinity(0))))
    stats, rc_all, viol = [], 0, []
    shares = P.get("shares") or [1.0] * len(P["harnesses"])
    for n, share in zip(P["harnesses"], shares):
        s = total * share / sum(shares)
        out = os.path.join(BUILD, "stats-%s-%s-%d.json" % (prop, n, os.getpid()))
        cmd = [bins[n], "search", "--prop", prop, "--seed", str(seed), "--secs", "%.1f" % s, "--workers", str(workers), "--out", out, "--replay-dir", REPLAYS, "--harness", n,
               "--min-secs", "20" if tier == "quick" else "120"]
        for k in known:
            if k.get("harness", n) == n:
                cmd += ["--known", k["class"] + "::" + k["match"]]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        txt = r.stdout.decode(errors="replace")
        st = {}
        try:
            st = json.load(open(out))
            os.unlink(out)
        except Exception as e:
            txt += "\nno statistics: %s" % e
            r.returncode = r.returncode or 2
        st["harness"] = n
        st["known_list"] = [k["what"] for k in known if k.get("harness", n) == n]
        stats.append(st)
        if r.returncode == 1 and st.get("violation"):
            print(txt.rstrip())
            for l in symbolise(bins[n], txt):
                print(l)
            viol.append(st["replay"])
            print("VIOLATION property=%s replay=%s" % (prop, st["replay"]))
            rc_all = 1
            break
        if r.returncode != 0:
            print("harness %s ends with status %d\n%s" % (n, r.returncode, txt[-3000:]))
            rc_all = 2
    agg = lambda k: sum(int(s.get(k, 0)) for s in stats)
    faults, probes, scen, samples = {}, {}, {}, []
    for s in stats:
        for k, v in s.get("faults", {}).items():
            d = faults.setdefault(k, {"opportunities": 0, "injected": 0, "runs_with": 0})
            for q in d:
                d[q] += v[q]
        for k, v in s.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
        for k, v in s.get("scenarios", {}).items():
            scen[s["harness"] + "/" + k] = v
        samples += [s["harness"] + ": " + x for x in s.get("samples", [])[:3]]
        for w, c in zip(s["known_list"], s.get("known", [0] * 99)):
            print("KNOWN-FINDING: property=%s %s (%d runs of this check)" % (prop, w, c))
    sw = sum(s.get("wall_s", 0) for s in stats)
    runs = agg("runs")
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": agg("distinct_nontrivial"),
            "rule": P["rule"] + " One evaluation is one simulated run: workload, fault list and schedule all drawn from one seed. Distinct: different hash of the full event log; non-trivial: the scenario declared that it reached the behaviour the property is about.",
            "samples": samples[:8],
            "distinct_runs": agg("distinct_runs"),
            "distinct_interleavings": agg("distinct_interleavings"),
            "interleaving_measure": "hash of the sequence of context switches and of non-default scheduler choices of a run",
            "discarded_runs": agg("discarded"),
            "context_switches": agg("context_switches"),
            "instrumented_steps": agg("steps"),
            "race_checked_accesses": agg("race_checks"),
            "simulated_processes": agg("incarnations"),
            "simulated_seconds": round(sum(s.get("simulated_seconds", 0) for s in stats), 3),
            "runs_per_hour": int(runs / sw * 3600) if sw else 0,
            "seeds_per_hour": int(runs / sw * 3600) if sw else 0,
            "faults": faults,
            "rare_conditions_reached": probes,
            "runs_per_scenario": scen,
            "determinism": {"runs_executed_three_times": agg("determinism_checked"), "mismatches": agg("determinism_bad")},
            "search_seconds": round(sw, 1), "build_seconds": round(tb, 1),
            "real_code": P.get("real", COMPONENTS["real"]),
            "stubs": P.get("stubs", COMPONENTS["stubs"]),
        },
        "assumptions": COMPONENTS["assumptions"] + P.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": len(viol),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d runs, %d distinct non-trivial, %d interleavings, %d determinism checks, %.0f s" % (prop, tier, runs, ev["coverage"]["distinct_nontrivial"], ev["coverage"]["distinct_interleavings"], agg("determinism_checked"), wall))
    if rc_all == 0 and runs == 0:
        rc_all = 2
    return rc_all


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    opt = {}
    pos = []
    i = 1
    while i < len(a):
        if a[i].startswith("--"):
            opt[a[i][2:]] = a[i + 1] if i + 1 < len(a) else ""
            i += 2
        else:
            pos.append(a[i])
            i += 1
    secs = float(opt["secs"]) if "secs" in opt else None
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1") or "1"))
    if a[0] == "build":
        build(list(HARNESSES))
        return 0
    if a[0] == "run":
        tier = opt.get("tier", os.environ.get("VERIF_TIER", "quick"))
        if tier not in ("quick", "thorough"):
            tier = "quick"
        rc = 0
        for p in pos:
            rc = max(rc, run_prop(p, tier, secs, seed))
        return rc
    if a[0] == "replay":
        n = None
        for l in open(pos[0]):
            if l.startswith("harness "):
                n = l.split()[1]
                break
        b = build([n])[n]
        r = subprocess.run([b, "replay", pos[0], "--v", "1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = r.stdout.decode(errors="replace")
        print(t.rstrip())
        print("\n".join(symbolise(b, t)))
        return r.returncode
    if a[0] == "determinism":
        rc = 0
        for p in pos or list(PROPS):
            bins = build(PROPS[p]["harnesses"])
            for n in PROPS[p]["harnesses"]:
                for w in ("1", "5", "8"):
                    r = subprocess.run([bins[n], "determinism", "--prop", p, "--seed", str(seed), "--secs", str((secs or 20) / 3), "--workers", w, "--v", "1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    print(p, n, "workers", w, "rc", r.returncode, r.stdout.decode(errors="replace").strip()[-400:])
                    rc = max(rc, 1 if r.returncode == 3 else 0)
        return rc
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
