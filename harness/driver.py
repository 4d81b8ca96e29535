#!/usr/bin/env python3
"""Runs one property's check:  driver.py <property> <quick|thorough>

Hypothesis (CPython) generates and shrinks cases, PyPy workers run them against /repo.
Exit 0: the property held on everything explored. Exit 1: VIOLATION line. Exit 2: the harness itself failed."""

import collections
import hashlib
import json
import os
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

PYPY = "/opt/venv-pypy/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
CASE_TIMEOUT = 60.0
SHRINK_SECONDS = 45.0
RECYCLE = 1500          # cases per worker process


class HarnessError(Exception):
    pass


def canonical(case):
    return json.dumps(case, sort_keys=True)


def digest(case):
    return hashlib.sha256(canonical(case).encode()).hexdigest()[:16]


class Worker(object):
    def __init__(self, hashseed=0):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed), PYTHONWARNINGS="ignore",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd="/", bufsize=0)
        self.buf = b""
        self.history = []
        first = self.read(300.0)
        if first is None or not first.get("ready"):
            raise HarnessError("worker did not start")

    def read(self, timeout):
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if r:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    return {"dead": True}
                self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def run(self, prop, case, timeout=CASE_TIMEOUT):
        try:
            self.p.stdin.write((json.dumps({"p": prop, "case": case}) + "\n").encode())
        except BrokenPipeError:
            return {"dead": True}
        res = self.read(timeout)
        if res is None:
            return {"hang": True}
        self.history.append(case)
        return res

    def close(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            f.close()


class Fresh(object):
    """A worker that is replaced regularly and whenever it dies or hangs."""

    def __init__(self, hashseed):
        self.hashseed = hashseed
        self.w = None

    def run(self, prop, case):
        if self.w is None or len(self.w.history) >= RECYCLE:
            self.close()
            self.w = Worker(self.hashseed)
        res = self.w.run(prop, case)
        if "hang" in res or "dead" in res:
            why = "does not return within %g s" % CASE_TIMEOUT if "hang" in res else "ends the interpreter"
            self.close()
            # only believed if it happens again in a fresh process, with more time
            self.w = Worker(self.hashseed)
            res = self.w.run(prop, case, 2 * CASE_TIMEOUT)
            if "hang" in res or "dead" in res:
                self.close()
                return {"ok": False, "msg": "the case " + why, "history": []}
        if not res["ok"]:
            res["history"] = list(self.w.history[:-1])
        return res

    def close(self):
        if self.w is not None:
            self.w.close()
            self.w = None


class Failed(Exception):
    pass

################################################################ one shard


def shard(prop, tier, k, seed, examples, budget):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import gens
    strategy = gens.strategy(prop, tier)

    fresh = Fresh(k)
    stats = {"evaluations": 0, "tags": collections.Counter(), "nontrivial": set(), "samples": [], "fail": None, "cut": False}
    failing = {}
    first = [None]
    start = time.monotonic()

    def fails(case):
        now = time.monotonic()
        key = digest(case)
        if key in failing:
            return True
        if first[0] is None and now - start > budget:
            stats["cut"] = True
            return False
        if first[0] is not None and now - first[0]["when"] > SHRINK_SECONDS:
            return False
        res = fresh.run(prop, case)
        stats["evaluations"] += 1
        if res["ok"]:
            if first[0] is None:
                stats["tags"].update(res["tags"])
                if res["nt"] and key not in stats["nontrivial"]:
                    stats["nontrivial"].add(key)
                    if len(stats["samples"]) < 2 and len(canonical(case)) < 3000 and len(stats["nontrivial"]) % 17 == 5:
                        stats["samples"].append(case)
            return False
        failing[key] = (case, res)
        if first[0] is None:
            first[0] = {"when": now, "case": case, "res": res}
            sys.stdout.write(json.dumps({"failing": True}) + "\n")
            sys.stdout.flush()
        return True

    def test(case):
        if fails(case):
            raise Failed()      # a single place: Hypothesis tells failures apart by where they are raised

    runner = hypothesis.seed(seed)(settings(max_examples=examples, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                                            phases=(Phase.generate, Phase.shrink), print_blob=False, report_multiple_bugs=False)(given(strategy)(test)))
    try:
        runner()
    except Failed:
        pass
    except (hypothesis.errors.Flaky, hypothesis.errors.FlakyFailure if hasattr(hypothesis.errors, "FlakyFailure") else hypothesis.errors.Flaky):
        pass
    except BaseExceptionGroup:
        pass
    if first[0] is not None:
        # the smallest failing case that still fails in a process of its own
        candidates = sorted(failing.values(), key=lambda cr: (len(canonical(cr[0])), canonical(cr[0])))
        done = False
        for case, res in candidates[:12] + [(first[0]["case"], first[0]["res"])]:
            w = Fresh(k)
            again = w.run(prop, case)
            w.close()
            if not again["ok"]:
                stats["fail"] = {"case": case, "history": [], "msg": again["msg"], "hashseed": k}
                done = True
                break
        if not done:
            for case, res in [(first[0]["case"], first[0]["res"])] + candidates[:3]:
                w = Worker(k)
                for c in res["history"]:
                    w.run(prop, c)
                again = w.run(prop, case)
                w.close()
                if again.get("ok") is False:
                    stats["fail"] = {"case": case, "history": res["history"], "msg": again["msg"], "hashseed": k}
                    done = True
                    break
        if not done:
            stats["unreproduced"] = {"case": first[0]["case"], "msg": first[0]["res"]["msg"]}
    fresh.close()
    stats["nontrivial"] = sorted(stats["nontrivial"])
    stats["wall"] = time.monotonic() - start
    sys.stdout.write(json.dumps(stats) + "\n")
    sys.stdout.flush()
    return 0

################################################################ the whole check


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]


def corpus(prop):
    path = os.path.join(VERIF, "corpus", prop + ".jsonl")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]


def main(prop, tier):
    import config
    t0 = time.monotonic()
    cfg = config.CONFIG[prop]
    master = int(os.environ.get("VERIF_SEED", "1") or "1")
    total = cfg[tier]
    total = int(os.environ.get("VERIF_EXAMPLES", total))
    budget = float(os.environ.get("VERIF_BUDGET", cfg.get("budget_" + tier, 240.0 if tier == "quick" else 3000.0)))
    os.makedirs(EVIDENCE, exist_ok=True)

    evaluations, tags, nontrivial, samples = 0, collections.Counter(), set(), []
    fail = None
    notes = []

    # saved cases first: minimal reproductions of defects that were repaired and of planted bugs
    cases = corpus(prop)
    if cases and not os.environ.get("VERIF_NOCORPUS"):
        w = Fresh(0)
        for case in cases:
            res = w.run(prop, case)
            evaluations += 1
            if res["ok"]:
                tags.update(res["tags"])
                if res["nt"]:
                    nontrivial.add(digest(case))
            else:
                again = Fresh(0)
                res2 = again.run(prop, case)
                again.close()
                fail = {"case": case, "history": [] if not res2["ok"] else res["history"], "msg": (res2 if not res2["ok"] else res)["msg"], "hashseed": 0}
                break
        w.close()

    failed_shards = 0
    if fail is None:
        procs = []
        for k in range(SHARDS):
            n = total // SHARDS + (1 if k < total % SHARDS else 0)
            if n == 0:
                continue
            s = int(hashlib.sha256(("%s/%s/%d/%d" % (prop, tier, master, k)).encode()).hexdigest()[:12], 16)
            env = dict(os.environ, PYTHONHASHSEED="0")
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--shard", prop, tier, str(k), str(s), str(n), str(budget)], stdout=subprocess.PIPE, env=env, start_new_session=True)
            procs.append(p)
        bufs = dict((p.stdout.fileno(), [p, b""]) for p in procs)
        hard = time.monotonic() + budget + 400
        results = []
        killing = False
        while bufs:
            r, _, _ = select.select(list(bufs), [], [], 5.0)
            if time.monotonic() > hard and not killing:
                killing = True
                notes.append("hard time limit reached")
                for p, _ in bufs.values():
                    killpg(p)
            for fd in r:
                p = bufs[fd][0]
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    del bufs[fd]
                    p.stdout.close()
                    p.wait()
                    last = [json.loads(l) for l in p.buf.splitlines() if l.strip()] if hasattr(p, "buf") else []
                    final = [x for x in last if "evaluations" in x]
                    if final:
                        results.append(final[0])
                    elif not getattr(p, "killed", False):
                        failed_shards += 1
                    continue
                p.buf = getattr(p, "buf", b"") + chunk
                if b'"failing": true' in chunk and not killing:
                    # someone has a failure to shrink: the others can stop
                    killing = True
                    for q, _ in bufs.values():
                        if q is not p:
                            killpg(q)
        for st in results:
            evaluations += st["evaluations"]
            tags.update(st["tags"])
            nontrivial.update(st["nontrivial"])
            samples += st["samples"]
            if st["cut"]:
                notes.append("a shard stopped at its time budget of %g s" % budget)
            if st.get("unreproduced"):
                notes.append("a failure could not be reproduced: " + json.dumps(st["unreproduced"])[:2000])
            if st["fail"] is not None and (fail is None or len(canonical(st["fail"])) < len(canonical(fail))):
                fail = st["fail"]

    violations = []
    if fail is not None:
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        path = os.path.join(EVIDENCE, "replay", "%s-%s.json" % (prop, digest(fail["case"])))
        with open(path, "w") as f:
            json.dump(dict(fail, property=prop, replay="%s %s --replay %s" % (PYPY, os.path.join(HERE, "worker.py"), path)), f, indent=1, sort_keys=True)
        violations.append({"replay": path, "message": fail["msg"]})

    evidence = {
        "property": prop, "tier": tier, "seed": master, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(nontrivial), "rule": cfg["rule"],
                     "samples": [{"input": json.dumps(x)[:1500]} for x in samples[:6]],
                     "classes": dict(sorted(tags.items()))},
        "wall_s": round(time.monotonic() - t0, 2), "violations": violations,
        "assumptions": cfg.get("assumptions", []) + notes,
    }
    if not evidence["coverage"]["samples"] and nontrivial:
        evidence["coverage"]["samples"] = [{"input": "digest " + x} for x in sorted(nontrivial)[:3]]
    tmp = os.path.join(EVIDENCE, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))

    for x in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
    if fail is not None:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(fail["msg"])
        print("case: " + json.dumps(fail["case"])[:3000])
        return 1
    if failed_shards or evaluations == 0:
        print("harness failure: %d shards gave no result" % failed_shards)
        return 2
    print("property %s held on %d cases (%d distinct non-trivial) in %.1f s" % (prop, evaluations, len(nontrivial), time.monotonic() - t0))
    return 0


def killpg(p):
    p.killed = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


if __name__ == "__main__":
    if sys.argv[1] == "--shard":
        sys.exit(shard(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7])))
    sys.exit(main(sys.argv[1], sys.argv[2]))
