#!/usr/bin/env python3-vt
"""Hypothesis driver: generates and shrinks cases, sends them to PyPy workers that run the real code and the oracle.

usage: driver.py ID [--tier quick|thorough] [--replay FILE] [--examples N] [--shards K] [--seed S]
exit 0: held on everything explored; 1: VIOLATION printed; 2: the machinery failed.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
PYPY = os.environ.get("PBT_PYTHON", "/opt/venv/bin/python")
CASE_TIMEOUT = 400


def h(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class WorkerDied(Exception):
    pass


class Worker:
    """One interpreter running the code under test, restarted every `restart` cases to bound memory."""

    def __init__(self, prop, restart=100000):
        self.prop, self.restart = prop, restart
        self.p = None
        self.history = []

    def start(self):
        for attempt in range(3):
            try:
                return self._start()
            except (RuntimeError, WorkerDied):
                self.stop()
                if attempt == 2:
                    raise
                time.sleep(1 + attempt)

    def _start(self):
        self.tmp = tempfile.mkdtemp(prefix="eivpbt-")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", HOME=self.tmp, XDG_CONFIG_HOME=self.tmp, XDG_CACHE_HOME=self.tmp)
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, "worker.py"), self.prop, self.tmp],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        self.buf = b""
        self.history = []
        r = self._read()
        if not r.get("ready"):
            self.stop()
            raise RuntimeError("worker could not start: " + r.get("msg", "?"))

    def _read(self):
        end = time.time() + CASE_TIMEOUT
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise RuntimeError("no reply from the worker within %d s" % CASE_TIMEOUT)
            if select.select([self.p.stdout], [], [], left)[0]:
                chunk = os.read(self.p.stdout.fileno(), 1 << 16)
                if not chunk:
                    raise WorkerDied("worker exited with %s" % self.p.wait())
                self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def run(self, case):
        if self.p is not None and len(self.history) >= self.restart:
            self.stop()
        if self.p is None:
            self.start()
        self.history.append(case)
        self.p.stdin.write((json.dumps({"case": case}) + "\n").encode())
        self.p.stdin.flush()
        try:
            r = self._read()
        except WorkerDied:
            self.stop()
            raise
        if r["status"] == "error":
            raise RuntimeError("harness error: " + r["msg"])
        return r

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None
            shutil.rmtree(self.tmp, ignore_errors=True)


class Failure(Exception):
    pass


class Enough(BaseException):
    """Ends the shrinking (Hypothesis itself would go on for five minutes)."""


def shard_main(prop, idx, nshards, n, seed, fixed, known, stop, out, budget, shrink_cap):
    import hypothesis
    from hypothesis import strategies as st, settings, HealthCheck, Phase
    mod = importlib.import_module("props." + prop.lower())
    res = {"idx": idx, "evals": 0, "discards": 0, "hashes": set(), "labels": {}, "samples": [], "nontrivial": 0,
           "known": {}, "failure": None, "error": None, "truncated": False, "enumerated": 0}
    w = Worker(prop, getattr(mod, "RESTART", 100000))
    t0 = time.time()
    cache = {}
    state = {"first_fail": None, "last": None}

    def execute(case, source):
        hh = h(case)
        if hh in cache:
            return cache[hh]
        try:
            r = w.run(case)
        except WorkerDied:
            r = w.run(case)      # once more in a fresh worker; dying twice is an error of the check
        if r["status"] == "violation" and r.get("key") in known:
            res["known"][r["key"]] = res["known"].get(r["key"], 0) + 1
            r = {"status": "ok", "labels": ["known-finding"], "nontrivial": False, "known": []}
        for k in r.get("known", []):
            if k in known:
                res["known"][k] = res["known"].get(k, 0) + 1
            else:
                r = {"status": "violation", "msg": "finding not listed: " + k, "key": k}
        if r["status"] == "discard":
            res["discards"] += 1
            l = "discarded: " + r.get("msg", "")[:60]
            res["labels"][l] = res["labels"].get(l, 0) + 1
        elif state["first_fail"] is None:
            res["evals"] += 1
            for l in r.get("labels", []):
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if r.get("nontrivial"):
                res["nontrivial"] += 1
                res["hashes"].add(hh)
                if len(res["samples"]) < 2 and res["evals"] > 3:
                    res["samples"].append({"case": case, "labels": r.get("labels", [])})
        if r["status"] == "violation":
            cache[hh] = r
        return r

    def record(case, r):
        history = list(w.history[-400:-1]) if w.history and w.history[-1] == case else []
        res["failure"] = {"case": case, "msg": r["msg"], "key": r.get("key"), "history": history}

    try:
        for case in fixed:
            if stop.is_set():
                break
            r = execute(case, "fixed")
            res["enumerated"] += 1
            if r["status"] == "violation":
                record(case, r)
                stop.set()
                break
        if n > 0 and not stop.is_set():
            @hypothesis.seed(seed * 1000003 + idx)
            @settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                      print_blob=False, verbosity=hypothesis.Verbosity.quiet)
            @hypothesis.given(mod.strategy(st))
            def test(case):
                if state["first_fail"] is None:
                    if stop.is_set():
                        return
                    if time.time() - t0 > budget:
                        res["truncated"] = True
                        return
                elif time.time() - state["first_fail"] > shrink_cap:
                    raise Enough()
                r = execute(case, "gen")
                if r["status"] == "discard":
                    hypothesis.reject()
                if r["status"] == "violation":
                    if state["first_fail"] is None:
                        state["first_fail"] = time.time()
                        stop.set()
                    state["last"] = (case, r)
                    size = len(json.dumps(case))
                    if state.get("best") is None or size <= state["best"][0]:
                        state["best"] = (size, case, r)
                    if h(case) not in state.setdefault("hist", {}):
                        state["hist"][h(case)] = list(w.history[-400:-1]) if w.history and w.history[-1] == case else []
                    raise Failure(r["msg"])
            try:
                test()
            except (Failure, Enough) as e:
                case, r = state["last"] if isinstance(e, Failure) else state["best"][1:]
                res["failure"] = {"case": case, "msg": r["msg"], "key": r.get("key"),
                                  "history": state["hist"].get(h(case), [])}
            except hypothesis.errors.Flaky:
                if state["last"] is None:
                    if not stop.is_set():
                        raise
                else:
                    case, r = state["last"]
                    res["failure"] = {"case": case, "msg": r["msg"], "key": r.get("key"),
                                      "history": state["hist"].get(h(case), [])}
            except hypothesis.errors.Unsatisfiable:
                pass
    except BaseException:
        res["error"] = traceback.format_exc()
        stop.set()
    finally:
        w.stop()
    res["hashes"] = list(res["hashes"])
    out.put(res)


def load_known(prop):
    """known_findings.txt: 'KNOWN property=<id> key=<key> <what fails>'; 'fixed: ...' lines suppress nothing."""
    path = os.path.join(VERIF, "known_findings.txt")
    found = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN "):
                parts = line.split(None, 3)
                pid = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                if pid == prop:
                    found[key] = parts[3] if len(parts) > 3 else ""
    return found


def load_corpus(prop):
    d = os.path.join(VERIF, "corpus", prop)
    cases = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                cases.append(json.load(open(os.path.join(d, f)))["case"])
    return cases


def run_once(prop, cases, restart=100000):
    """Run a list of cases in a fresh worker; result of the last one."""
    w = Worker(prop, restart)
    try:
        r = None
        for c in cases:
            r = w.run(c)
        return r
    finally:
        w.stop()


def write_replay(prop, failure, seed, tier):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, h(failure["case"])))
    with open(path, "w") as f:
        json.dump({"property": prop, "message": failure["msg"], "key": failure.get("key"), "seed": seed, "tier": tier,
                   "case": failure["case"], "history": failure.get("history_needed", [])}, f, indent=1)
    return path


def confirm(prop, failure):
    """Reproduce in a fresh interpreter: the case alone, else after the cases that ran before it."""
    r = run_once(prop, [failure["case"]])
    if r["status"] == "violation":
        failure["msg"] = r["msg"]
        return True
    hist = failure.get("history", [])
    for k in (1, 3, 10, 40, 400):
        tail = hist[-k:]
        if not tail:
            break
        r = run_once(prop, tail + [failure["case"]])
        if r["status"] == "violation":
            failure["msg"] = r["msg"] + " (after %d earlier case(s))" % len(tail)
            failure["history_needed"] = tail
            return True
        if len(tail) < k:
            break
    return False


def short(x, lim=1600):
    s = json.dumps(x)
    if len(s) <= lim:
        return x
    return s[:lim] + "... (%d characters)" % len(s)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--evidence")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    mod = importlib.import_module("props." + prop.lower())
    known = load_known(prop)
    t0 = time.time()
    if a.replay:
        rep = json.load(open(a.replay))
        r = run_once(prop, rep.get("history", []) + [rep["case"]])
        print(r["status"], r.get("msg", ""), r.get("labels", ""))
        if r["status"] == "violation" and r.get("key") not in known:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
            return 1
        return 0

    nshards = a.shards or min(getattr(mod, "SHARDS", 8), int(os.environ.get("PBT_SHARDS", "8")))
    total = a.examples if a.examples is not None else mod.EXAMPLES[tier]
    budget = {"quick": 300, "thorough": 3600 * 3}[tier]
    fixed = load_corpus(prop)
    ncorpus = len(fixed)
    enum = list(mod.enumerate_cases(tier)) if hasattr(mod, "enumerate_cases") else []
    fixed += enum
    ctx = mp.get_context("fork")
    stop, out = ctx.Event(), ctx.Queue()
    procs = []
    for i in range(nshards):
        n = total // nshards + (1 if i < total % nshards else 0)
        p = ctx.Process(target=shard_main, args=(prop, i, nshards, n, a.seed, fixed[i::nshards], set(known), stop, out,
                                                 budget, float(os.environ.get("PBT_SHRINK_CAP") or (40 if tier == "quick" else 300))))
        p.start()
        procs.append(p)
    results = []
    while len(results) < nshards:
        try:
            results.append(out.get(timeout=5))
        except queue.Empty:
            if all(not p.is_alive() for p in procs) and out.empty():
                break
    for p in procs:
        p.join(timeout=30)
        if p.is_alive():
            p.terminate()
    results.sort(key=lambda r: r["idx"])
    errors = [r["error"] for r in results if r["error"]]
    failures = [r["failure"] for r in results if r["failure"]]
    hashes, labels, samples, knownhits = set(), {}, [], {}
    for r in results:
        hashes.update(r["hashes"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            knownhits[k] = knownhits.get(k, 0) + v
        samples.extend(r["samples"])
    evals = sum(r["evals"] for r in results)
    code, violated = 0, None
    failures.sort(key=lambda f: len(json.dumps(f["case"])))
    unconfirmed = []
    for f in failures:
        try:
            ok = confirm(prop, f)
        except Exception:
            errors.append(traceback.format_exc())
            continue
        if ok:
            violated = f
            break
        unconfirmed.append(f)
    if violated is not None:
        path = write_replay(prop, violated, a.seed, tier)
        print("message: " + violated["msg"])
        print("case: " + json.dumps(violated["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif errors or len(results) < nshards or unconfirmed:
        for e in errors[:3]:
            print("ERROR " + e)
        for f in unconfirmed[:2]:
            print("ERROR failure did not reproduce: " + f["msg"] + " " + json.dumps(f["case"])[:1000])
        code = 2
    for k, text in known.items():
        print("KNOWN-FINDING: property=%s key=%s %s (seen %d times in this run)" % (prop, k, text, knownhits.get(k, 0)))
    wall = time.time() - t0
    rule = mod.RULE
    cov = {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule,
           "samples": [short(s) for s in samples[:6]], "discarded": sum(r["discards"] for r in results),
           "labels": dict(sorted(labels.items())), "regression_corpus_cases": ncorpus,
           "enumerated_cases": len(enum), "workers": nshards,
           "stopped_by_time_budget": any(r["truncated"] for r in results)}
    if known:
        cov["known_finding_hits"] = knownhits
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": 1 if violated is not None else 0}
    path = a.evidence or os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    if code == 0 and evals == 0:
        print("ERROR nothing was explored")
        code = 2
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s -> exit %d"
          % (prop, tier, a.seed, evals, len(hashes), cov["discarded"], wall, code))
    if os.environ.get("PBT_LABELS"):
        print(json.dumps(cov["labels"], indent=1))
    return code


if __name__ == "__main__":
    sys.exit(main())
