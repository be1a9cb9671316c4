#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by deterministic simulation.

Builds the simulator from /repo's working tree, runs seeded simulations on all cores for a fixed
time, confirms every violation (same seed again, replay of its decisions in a fresh process),
minimises it and writes the replay file. Exit 0: held on everything explored. Exit 1: VIOLATION.
Exit 2: no answer (build or simulator error). Environment: VERIF_SEED, VERIF_TIER."""
import hashlib, json, os, re, select, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as simbuild
import props

def say(*a):
    print(*a)
    sys.stdout.flush()

def symbolize(binary, text):
    pcs = sorted(set(re.findall(r"@(0x[0-9a-f]+)", text)))
    if not pcs:
        return text
    try:
        # Return addresses point behind the call.
        arg = [hex(int(p, 16) - 1) for p in pcs]
        out = subprocess.run(["addr2line", "-Cfse", binary] + arg, stdout=subprocess.PIPE, text=True, timeout=60).stdout.split("\n")
    except Exception:
        return text
    m = {}
    for i, p in enumerate(pcs):
        if 2 * i + 1 < len(out):
            fn = re.sub(r"\(.*", "", out[2 * i])[:80]
            m[p] = "%s(%s)" % (fn, out[2 * i + 1])
    return re.sub(r"@(0x[0-9a-f]+)", lambda g: m.get(g.group(1), g.group(1)), text)

def load_known(prop):
    known, path = [], os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                known.append((re.compile(m.group(2)), m.group(3)))
    return known

class Agg:
    def __init__(self):
        self.runs = 0
        self.sum = {}
        self.faults = {}
        self.counters = {}
        self.kinds = {}
        self.scen = {}
        self.ihash = set()
        self.distinct = set()
        self.strategies = {}
        self.errors = []
        self.repeats = 0
        self.samples = []
        self.nontrivial = 0
        self.maxthreads = 0
        self.longest = 0.0

    def add(self, d, rule):
        self.runs += 1
        for k in ("ticks", "switches", "preempts", "sync_ops", "threads", "clock_reads", "sim_ns", "allocs",
                  "races_checked", "n_inc"):
            self.sum[k] = self.sum.get(k, 0) + d.get(k, 0)
        for src, dst in ((d["faults"], self.faults), (d["counters"], self.counters), (d["kinds"], self.kinds)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        self.scen[d["scenario"]] = self.scen.get(d["scenario"], 0) + 1
        st = d["knobs"].get("strategy", 0)
        st = ["sequential", "random-at-sync", "random-at-access", "pct", "lifo", "round-robin", "starve"][st]
        self.strategies[st] = self.strategies.get(st, 0) + 1
        self.ihash.add(d["ihash"])
        self.longest = max(self.longest, d["secs"])
        if rule(d):
            self.nontrivial += 1
            self.distinct.add(d["hash"])
            if len(self.samples) < 3 or (len(self.samples) < 6 and self.runs % 97 == 0):
                self.samples.append({k: d[k] for k in ("scenario", "seed", "knobs", "ticks", "switches", "preempts",
                                                       "threads", "faults", "kinds", "counters", "hash", "ihash")})

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    say("property %s tier %s VERIF_SEED %d" % (prop, tier, seed))
    P = props.PROPS[prop]
    try:
        binary = simbuild.build("/repo")
    except simbuild.BuildError as e:
        say("BUILD-ERROR\n" + str(e))
        return 2
    tb = time.time() - t0
    budget = float(os.environ.get("GBDTSIM_SECS", P.get(tier, 60 if tier == "quick" else 700)))
    workers = int(os.environ.get("GBDTSIM_WORKERS", "8"))
    base = seed * 1000000007 + 17
    vdir = os.path.join(HERE, "replays")
    os.makedirs(vdir, exist_ok=True)
    work = os.path.join(HERE, "build", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    known = load_known(prop)
    agg = Agg()
    seen_known = {}
    rc = nviol = 0
    unconfirmed = 0
    procs, bufs = [], {}
    try:
        for w in range(workers):
            p = subprocess.Popen([binary, "run", "--prop", prop, "--base", str(base), "--worker", str(w),
                                  "--stride", str(workers), "--secs", str(budget), "--tier", "1" if tier == "thorough" else "0",
                                  "--vdir", work, "--keep-going"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            procs.append(p)
            bufs[p.stdout.fileno()] = [p, b"", None]
        tr = time.time()
        while bufs and rc == 0 and unconfirmed < 4:
            r, _, _ = select.select(list(bufs), [], [], 1.0)
            for fd in r:
                data = os.read(fd, 1 << 20)
                if not data:
                    del bufs[fd]
                    continue
                b = bufs[fd]
                b[1] += data
                *lines, b[1] = b[1].split(b"\n")
                for line in lines:
                    if not line.strip():
                        continue
                    d = json.loads(line)
                    if "replay" in d:
                        last = b[2]
                        hit = None
                        for rx, text in known:
                            if rx.search(last["class"] + " | " + symbolize(binary, last["text"])):
                                hit = text
                        if hit:
                            seen_known[hit] = seen_known.get(hit, 0) + 1
                            os.unlink(d["replay"])
                        elif rc == 0 and unconfirmed < 4:
                            for p in procs:
                                p.send_signal(signal.SIGSTOP)
                            rc, nviol = confirm(binary, prop, (d["replay"], last), vdir, tier)
                            for p in procs:
                                p.send_signal(signal.SIGCONT)
                            if rc != 1:           # not reproduced exactly: keep looking
                                rc = 0
                                unconfirmed += 1
                        continue
                    if "repeat" in d:
                        agg.repeats += 1
                        if not d["same"] or not d["replay_same"]:
                            agg.errors.append("seed %s not repeatable (same %s replay %s)" % (d["repeat"], d["same"], d["replay_same"]))
                        continue
                    agg.add(d, P.get("nontrivial", props.default_nontrivial))
                    b[2] = d
                    if d["status"] == 2:
                        agg.errors.append("seed %s: %s" % (d["seed"], d["text"][:300]))
        ran = time.time() - tr
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
    if rc == 0 and unconfirmed:
        rc = 2
    for text in seen_known:
        say("KNOWN-FINDING: property=%s %s" % (prop, text))
    if rc == 0 and agg.errors:
        say("simulator errors: %d of %d runs" % (len(agg.errors), agg.runs))
        for e in agg.errors[:5]:
            say("  " + e)
        if len(agg.errors) > 0.002 * agg.runs:
            rc = 2
    if rc == 0 and agg.runs == 0:
        say("no simulated run finished")
        rc = 2
    subprocess.run(["rm", "-rf", work])
    hours = max(ran, 0.001) / 3600
    cov = {
        "evaluations": agg.runs,
        "distinct_nontrivial": len(agg.distinct),
        "rule": "One evaluation is one simulated run: a seed decides the workload, the schedule, the faults, the clock and the heap placement. " +
                P.get("rule", props.DEFAULT_RULE) + " Distinct means a different event log (hash over every scheduling decision, synchronisation operation, fault and end of a process).",
        "samples": agg.samples,
        "runs_per_hour": int(agg.runs / hours),
        "seeds_per_hour": int(agg.runs / hours),
        "simulated_processes": agg.sum.get("n_inc", 0),
        "simulated_seconds": round(agg.sum.get("sim_ns", 0) / 1e9, 3),
        "simulated_steps": agg.sum.get("ticks", 0),
        "scheduling": {"context_switches": agg.sum.get("switches", 0), "preemptions": agg.sum.get("preempts", 0),
                       "sync_operations": agg.sum.get("sync_ops", 0), "threads_started": agg.sum.get("threads", 0),
                       "strategies": agg.strategies},
        "distinct_interleavings": len(agg.ihash),
        "interleaving_measure": "hash over the sequence of (thread, synchronisation operation, switch target) of all processes of a run",
        "memory_accesses_race_checked": agg.sum.get("races_checked", 0),
        "faults_injected": agg.faults,
        "process_ends": agg.kinds,
        "reach_counters": agg.counters,
        "scenarios": agg.scen,
        "repeatability": {"seeds_run_again_and_replayed": agg.repeats, "simulator_errors": len(agg.errors)},
        "longest_run_s": agg.longest,
        "components_real": P.get("real", props.REAL),
        "components_stubbed": P.get("stub", props.STUB),
        "build_s": round(tb, 2), "search_s": round(ran, 2), "workers": workers,
        "known_findings_seen": seen_known,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"), "coverage": cov,
          "assumptions": P.get("assumptions", []) + props.ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    say("%s: %d runs, %d distinct non-trivial, %d interleavings, faults %s, %.1f s (build %.1f)" %
        (prop, agg.runs, len(agg.distinct), len(agg.ihash), json.dumps(agg.faults), time.time() - t0, tb))
    return rc

def confirm(binary, prop, viol, vdir, tier):
    rep, d = viol
    say("suspected violation: %s %s seed %s: [%s] %s" % (prop, d["scenario"], d["seed"], d["class"], symbolize(binary, d["text"])))
    out = os.path.join(vdir, "%s-%s.replay" % (prop, d["seed"]))
    secs = 40 if tier == "quick" else 120
    p = subprocess.run([binary, "minimise", rep, "--out", out, "--secs", str(secs)], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    soft = d["text"].startswith("no progress: CPU limit")
    if p.returncode != 1:
        say("minimiser: " + p.stdout.strip()[-500:])
        # Not shrunk: keep the recorded decisions.
        subprocess.run(["cp", rep, out])
    q = subprocess.run([binary, "replay", out], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    last = q.stdout.strip().split("\n")[-1] if q.stdout.strip() else ""
    if q.returncode != 1 or not ('"exact":true' in last or (soft and '"reproduced":true' in last)):
        say("the violation does not replay exactly: " + last)
        return 2, 0
    m = json.loads(q.stdout.strip().split("\n")[0])
    say("minimised: [%s] %s" % (m["class"], symbolize(binary, m["text"])))
    say("replay with: python3 %s/replay.py %s" % (HERE, out))
    say("VIOLATION property=%s replay=%s" % (prop, out))
    return 1, 1

if __name__ == "__main__":
    sys.exit(main())
