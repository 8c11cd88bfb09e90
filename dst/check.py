#!/usr/bin/env python3
"""Decides one property by simulation.

usage: check.py --prop C01 [--tier quick|thorough] [--seconds N]

Builds the harness against /repo, runs seeded simulations on several worker processes, and judges them.
exit 0: nothing found. exit 1: VIOLATION line(s), each with a replay file. exit 2: this machinery failed.
"""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
WORKERS = 8
SETS = {"C15": ["mongo"], "C23": ["dot"], "C19": ["unbounded", "cycle", "mongo", "coromongo"]}
# per build set: seconds of search, and cases per worker that are explored however slow the machine is
QUICK = (24.0, 60)
QUICK_C19 = (11.0, 25)
THOROUGH = (600.0, 600)
HARD_QUICK = 330.0

REAL = [
    "src/channel (specs, senders, receivers, flavors, adapters, peek/event utilities)",
    "src/simulation (building, flavor inference, initialization, run, summaries)",
    "src/view (TimeManager, views, parent views)", "src/context", "src/datastructures", "src/shim (OS threads; coroutines in C19)",
    "src/templates (PCU, PMU, datastore, DRAM)", "src/utility_contexts", "src/logging (log functions, interface, mongo logger)",
    "dam-macros",
]
STUB = [
    "std::thread, scoped threads, park/unpark, Mutex, Condvar, atomics, Instant: simulated primitives (dst/facade/simstd, dst/sim)",
    "crossbeam channels and SegQueue, parking_lot, fastrand, thread_priority: facades over the simulator (dst/facade)",
    "futures executor: facade; MongoDB client and server: in-memory simulated server with delay, reordering and errors",
    "may (coroutines, C19 only): coroutines are simulated tasks, its queue a simulated queue (dst/facade/may)",
    "user contexts: generated scripts",
]


def say(*a):
    print(*a, flush=True)


def machinery(msg):
    say("ERROR (this is no verdict): " + msg)
    sys.exit(2)


def run(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else "", ""


def build(sets):
    r = subprocess.run([sys.executable, os.path.join(HERE, "tools", "build.py")] + sets, stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        machinery("the harness does not build against /repo's working tree")
    return dict(line.split(None, 1) for line in r.stdout.splitlines() if line.strip())


def crashed(rc):
    return rc is None or rc < 0 or rc in (20, 101, 134)


class Check:
    def __init__(self, prop, tier, seed, seconds):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.seconds = seconds
        self.violations = []
        self.notes = []
        self.stats = []

    def replay_file(self, data):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(json.dumps(data.get("work"), sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s-%s.json" % (self.prop, data["set"], h))
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        return p

    def search(self, name, binary):
        secs, least = self.seconds
        hard = HARD_QUICK if self.tier == "quick" else secs + 900
        procs = []
        for i in range(WORKERS):
            mark = os.path.join(BUILD, "mark-%s-%s-%d" % (self.prop, name, i))
            out = open(mark + ".out", "w+")
            err = open(mark + ".err", "w+")
            p = subprocess.Popen(
                [binary, "worker", "--prop", self.prop, "--seed", str(self.seed), "--index", str(i), "--stride", str(WORKERS),
                 "--ms", str(int(secs * 1000)), "--min-cases", str(least), "--hard-ms", str(int(hard * 1000)), "--mark", mark],
                stdout=out, stderr=err)
            procs.append((p, mark, out, err))
        end = time.time() + hard + 60
        founds, crashes = [], []
        for p, mark, out, err in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
            out.seek(0)
            err.seek(0)
            text, etext = out.read(), err.read()
            out.close()
            err.close()
            for f in (mark + ".out", mark + ".err"):
                os.unlink(f)
            if rc == 0:
                d = json.loads(text.splitlines()[-1])
                self.stats.append(d["stats"])
                if d["found"]:
                    founds.append(d["found"])
            elif crashed(rc):
                try:
                    with open(mark) as f:
                        i, k = (int(x) for x in f.read().split())
                except (OSError, ValueError):
                    machinery("worker ended with %s before its first case: %s" % (rc, etext[-2000:]))
                crashes.append((i, k, rc, etext[-1500:]))
            else:
                machinery("worker ended with %s: %s" % (rc, etext[-3000:]))
        return founds, crashes

    def report_found(self, name, binary, founds):
        """The smallest finding, made smaller and confirmed in a fresh process."""
        founds.sort(key=lambda f: len(json.dumps(f["work"])))
        classes = set()
        for f in founds:
            if f["class"] in classes or len(classes) >= 3:
                continue
            classes.add(f["class"])
            p = self.replay_file(f)
            raw = json.dumps(f)
            rc, out, err = run([binary, "shrink", "--file", p, "--ms", "20000"], 90)
            rc, out, err = run([binary, "replay", p], 120)
            if rc != 1:
                # keep what the search had, unshrunk
                with open(p, "w") as fh:
                    fh.write(raw)
                rc, out, err = run([binary, "replay", p], 120)
            if rc != 1:
                self.notes.append("finding not reproduced by its replay: case %s [%s] %s (replay ended with %s)" % (f["case"], f["class"], f["message"], rc))
                continue
            tail = out.strip().splitlines()
            say("\n".join(tail[-40:]))
            say("  found by seed %s, case %s; replay with: %s replay %s" % (f["seed"], f["case"], binary, p))
            say("VIOLATION property=%s replay=%s" % (self.prop, p))
            self.violations.append(p)
        return

    def report_crash(self, name, binary, crashes):
        for i, k, rc, etext in sorted(crashes)[:2]:
            if k == 9999:
                machinery("worker ended with %s while generating case %d: %s" % (rc, i, etext))
            base = [binary, "one", "--prop", self.prop, "--seed", str(self.seed), "--case", str(i), "--schedule", str(k)]
            rc2, out, err = run(base, 120)
            if not crashed(rc2):
                self.notes.append("worker ended with %s at case %d schedule %d, not repeated (%s): %s" % (rc, i, k, rc2, etext))
                continue
            rc3, dump, _ = run(base + ["--dump"], 60)
            if rc3 != 0:
                machinery("cannot write down case %d" % i)
            data = json.loads(dump)
            data["class"] = "stuck" if rc2 in (20, None) else "crash"
            data["message"] = (err or etext)[-1500:]
            p = self.replay_file(data)
            say("case %d schedule %d: the process %s" % (i, k, "makes no progress" if rc2 in (20, None) else "dies with %s" % rc2))
            say((err or etext).strip()[-1200:])
            say("VIOLATION property=%s replay=%s" % (self.prop, p))
            self.violations.append(p)

    def known(self, bins):
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                entries = json.load(f)
        except FileNotFoundError:
            return
        for e in entries:
            if e.get("status") != "known" or e["property"] != self.prop:
                continue
            b = bins.get(e.get("set", "plain")) or next(iter(bins.values()))
            rc, out, err = run([b, "known", "--file", os.path.join(VERIF, e["scenario"])], 120)
            if rc == 1:
                say("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
            else:
                self.notes.append("known finding %s does not show on this tree (%s)" % (e["scenario"], rc))

    def evidence(self, wall, search_wall, bins):
        s = {}
        for x in self.stats:
            for k, v in x.items():
                if isinstance(v, int):
                    s[k] = max(s.get(k, 0), v) if k == "max_tasks" else s.get(k, 0) + v
                elif isinstance(v, dict):
                    d = s.setdefault(k, {})
                    for a, b in v.items():
                        d[a] = d.get(a, 0) + b
                elif isinstance(v, list):
                    s.setdefault(k, []).extend(v)
        g = s.get
        hours = max(search_wall, 1e-9) / 3600.0
        cov = {
            "evaluations": g("runs", 0),
            "distinct_nontrivial": g("nontrivial", 0),
            "rule": "One evaluation is one simulated execution: a program (or view/datastore/multi-program workload) generated from a case "
                    "seed, run under one seeded schedule and fault sequence and judged against the reference model and the laws. It is "
                    "non-trivial if at least 3 tasks took part and the scheduler switched between tasks at least 5 times; distinct "
                    "counts different hashes of the whole sequence of (task, operation) steps with its case.",
            "samples": g("samples", [])[:6],
            "cases": g("cases", 0),
            "cases_discarded_by_generator": g("discarded", 0),
            "seeds_per_hour": int(g("cases", 0) / hours),
            "simulated_runs_per_hour": int(g("runs", 0) / hours),
            "search_wall_s": round(search_wall, 2),
            "workers": WORKERS,
            "cases_lost_to_model_panics": g("gen_panics", 0),
            "scheduler_steps": g("steps", 0),
            "task_switches": g("switches", 0),
            "simulated_clock_ns": g("sim_ns", 0),
            "simulated_program_cycles": g("cycles", 0),
            "program_operations_judged": g("ops", 0),
            "faults_injected": g("faults", {}),
            "runs_with_faults": g("faulty_runs", 0),
            "runs_with_stale_loads_enabled": g("weak_runs", 0),
            "distinct_schedules": g("schedules", 0),
            "most_tasks_in_one_run": g("max_tasks", 0),
            "kinds_of_parts_in_cases": g("kinds", {}),
            "builds": sorted(bins),
            "components_real": REAL,
            "components_stubbed": STUB,
        }
        data = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
            "wall_s": round(wall, 2), "violations": len(self.violations),
            "assumptions": [
                "sequentially consistent interleavings, plus bounded staleness of loads in the runs that enable it",
                "programs come from the generator of dst/harness/src/gen.rs (and views.rs, store.rs)",
            ] + self.notes,
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(data, f, indent=1)
        return cov

    def go(self):
        t0 = time.time()
        sets = SETS.get(self.prop, ["plain"])
        bins = build(sets)
        for name in [n for n in sets if bins[n] == "-"]:
            self.notes.append("the crate does not build as '%s'; that build was not explored" % name)
            sets = [n for n in sets if n != name]
            del bins[name]
        t1 = time.time()
        search = 0.0
        for name in sets:
            b = bins[name]
            t = time.time()
            founds, crashes = self.search(name, b)
            search += time.time() - t
            if founds:
                self.report_found(name, b, founds)
            if crashes and not self.violations:
                self.report_crash(name, b, crashes)
            if self.violations:
                break
        self.known(bins)
        cov = self.evidence(time.time() - t0, search, bins)
        for n in self.notes:
            say("note: " + n)
        say("%s %s seed %d: %d cases, %d runs (%d distinct non-trivial), %d steps, %d violations; build %.0f s, search %.0f s" % (
            self.prop, self.tier, self.seed, cov["cases"], cov["evaluations"], cov["distinct_nontrivial"], cov["scheduler_steps"],
            len(self.violations), t1 - t0, search))
        if self.violations:
            return 1
        if any("not reproduced" in n or "not repeated" in n for n in self.notes):
            return 2
        return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--prop", required=True)
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seconds", type=float)
    a = a.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = THOROUGH if a.tier == "thorough" else (QUICK_C19 if a.prop == "C19" else QUICK)
    if a.tier == "thorough" and a.prop == "C19":
        budget = (budget[0] / 4, budget[1])
    if a.seconds:
        budget = (a.seconds, budget[1])
    sys.exit(Check(a.prop, a.tier, seed, budget).go())


main()
