#!/usr/bin/env python3
"""check.py PID [--replay FILE]: supervise one property's monitor.

exit 0 held on everything explored, 1 with VIOLATION lines, 2 inconclusive.
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("MON_REPO", "/repo")


def known_findings():
    out = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    head, what = line[9:].split(" :: ", 1)
                    kv = dict(p.split("=", 1) for p in head.split())
                    out.setdefault(kv["property"], {})[kv["key"]] = what
    except FileNotFoundError:
        pass
    return out


def env_for(work, extra=None):
    env = dict(
        HOME="/root" if os.path.isdir("/root") else work,
        PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        LANG="C.UTF-8",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        NUMBA_CACHE_DIR=os.path.join(work, "numba"),
        PYTHONPATH=HERE,
        MON_REPO=REPO,
        MON_WORK=work,
        TMPDIR=work,
        MPLBACKEND="Agg",
        OPENBLAS_NUM_THREADS="1",
        NUMBA_NUM_THREADS=os.environ.get("MON_THREADS", "8"),
    )
    os.makedirs(env["NUMBA_CACHE_DIR"], exist_ok=True)
    env.update(extra or {})
    return env


class Job:
    def __init__(self, pid, seed, tier, scale, cap, known, only=None, extra=None):
        self.work = tempfile.mkdtemp(prefix=f"mon_{pid}_")
        self.out = os.path.join(self.work, "out.json")
        self.prog = os.path.join(self.work, "progress")
        self.log = os.path.join(self.work, "log")
        self.seed, self.limit = seed, cap + 400
        cmd = [
            PY, "-X", "faulthandler", "-m", "mon.worker", pid,
            "--seed", str(seed), "--tier", tier, "--scale", str(scale),
            "--cap", str(cap), "--out", self.out, "--progress", self.prog,
            "--known", ",".join(known),
        ]
        if only:
            cmd += ["--only", only]
        self.t0 = time.time()
        self.fh = open(self.log, "w")
        self.p = subprocess.Popen(
            cmd, cwd=HERE, env=env_for(self.work, extra), stdout=self.fh,
            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
            start_new_session=True,
        )

    def finish(self):
        left = self.limit - (time.time() - self.t0)
        timed = False
        try:
            rc = self.p.wait(timeout=max(left, 1))
        except subprocess.TimeoutExpired:
            timed = True
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = self.p.wait()
        try:  # whatever the worker started
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.fh.close()
        with open(self.log, errors="replace") as f:
            log = f.read()[-4000:]
        where = None
        try:
            where = open(self.prog).read().strip() or None
        except OSError:
            pass
        res = None
        if os.path.exists(self.out):
            try:
                res = json.load(open(self.out))
            except ValueError:
                pass
        shutil.rmtree(self.work, ignore_errors=True)
        if res is not None and rc == 0:
            return res
        base = dict(seed=self.seed, violations=[], harness=None)
        if timed:
            base["harness"] = f"timed out at {where}"
        elif rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL) and where:
            g, i = where.rsplit(":", 1)
            base["violations"].append(
                dict(group=g, idx=int(i), msg=f"process died with signal {-rc} inside a library call", trace=log.splitlines()[-15:])
            )
        else:
            base["harness"] = f"worker exit {rc} at {where}: {log[-1500:]}"
        return base


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--selfcheck", action="store_true")
    a = ap.parse_args()
    if a.selfcheck:  # setup: nothing to build; the tools must be there
        for mod in ("numpy", "numba", "attrs", "mcpid"):
            subprocess.run([PY, "-c", f"import {mod}"], check=True)
        known_findings()
        print("ready")
        return 0
    if not a.pid:
        ap.error("which property?")
    pid = a.pid
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    known = known_findings().get(pid, {})
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        job = Job(r["property"], r["seed"], "quick", r.get("scale", 1.0), 600, known, f"{r['group']}:{r['idx']}")
        results = [job.finish()]
    elif tier == "quick":
        results = [Job(pid, seed, tier, 1.0, 240, known).finish()]
    else:
        results = []
        budget = float(os.environ.get("MON_THOROUGH_S", "560"))
        width = int(os.environ.get("MON_JOBS", "4"))
        k = 0
        pending = []
        spent_round = None
        while True:
            now = time.time() - t0
            while len(pending) < width and (
                not results and k < width or now + (spent_round or 60) < budget
            ):
                # round k: derived seed; first worker repeats the quick seed
                s = seed if k == 0 else seed * 1000003 + k
                pending.append(Job(pid, s, tier, 6.0, 200, known, extra=dict(NUMBA_NUM_THREADS="4") if k % 2 else None))
                k += 1
            if not pending:
                break
            job = pending.pop(0)
            t = time.time()
            res = job.finish()
            spent_round = time.time() - job.t0
            results.append(res)
            if res["violations"] or res["harness"]:
                for j in pending:
                    results.append(j.finish())
                break
    viols, harness = [], []
    counts, states, groups, sigs, samples, hits = {}, {}, {}, set(), {}, {}
    required, rule, assumptions = {}, "", []
    for r in results:
        for v in r["violations"]:
            viols.append(dict(v, seed=r["seed"]))
        if r["harness"]:
            harness.append(r["harness"])
        for k_, v in r.get("counts", {}).items():
            counts[k_] = counts.get(k_, 0) + v
        for k_, v in r.get("states", {}).items():
            states[k_] = max(states.get(k_, 0), v)
        for k_, v in r.get("groups", {}).items():
            groups[k_] = groups.get(k_, 0) + v["done"]
        sigs.update(r.get("sigs", ()))
        for k_, v in r.get("samples", {}).items():
            samples.setdefault(k_, v)
        hits.update(r.get("known", {}))
        required = r.get("required", required)
        rule = r.get("rule", rule)
        assumptions = r.get("assumptions", assumptions)
    if os.environ.get("MON_TIMES"):
        print([(k, v.get("s")) for r in results for k, v in r.get("groups", {}).items()], [r.get("t_import") for r in results])
    lacking = []
    if not viols and not harness and not a.replay:
        for k_, need in required.items():
            if counts.get(k_, 0) < need:
                lacking.append(f"{k_}: {counts.get(k_, 0)} < {need}")
        if lacking:
            harness.append("too few observations: " + "; ".join(lacking))
    for v in viols[:4]:
        body = dict(property=pid, seed=v["seed"], group=v["group"], idx=v["idx"], msg=v["msg"], trace=v.get("trace", []), scale=1.0)
        tag = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", f"{pid}-{tag}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {v['group']}:{v['idx']} {v['msg']}"[:1500])
        for line in v.get("trace", [])[-8:]:
            print("   |", line)
    for key, what in hits.items():
        print(f"KNOWN-FINDING: property={pid} {known.get(key, what)}")
    for h in harness:
        print(f"INCONCLUSIVE property={pid} {h}"[:3000])
    if not a.replay:
        ev = dict(
            property=pid, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=int(sum(groups.values())),
                distinct_nontrivial=len(sigs),
                rule=rule,
                samples=[f"{k}: {v}" for k, v in list(samples.items())[:12]],
                workload_groups=groups,
                observations={k: v for k, v in sorted(counts.items())},
                distinct_states=states,
                worker_processes=len(results),
                known_findings_seen=sorted(hits),
                inconclusive=[h[:300] for h in harness],
            ),
            assumptions=assumptions,
            wall_s=round(time.time() - t0, 2),
            violations=len(viols),
        )
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))
    if viols:
        return 1
    if harness:
        return 2
    print(f"held property={pid} tier={tier} seed={seed} cases={sum(groups.values())} distinct={len(sigs)} wall={time.time()-t0:.1f}s")
    return 0


sys.exit(main())
