"""Runs the check of one property.

    python -m mc.run C05 [--tier quick|thorough] [--replay FILE] [--item JSON]

Exit 0: the property held on everything explored; 1: violation.
"""

import argparse
import faulthandler
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

ITEM_TIMEOUT = 240  # CPU seconds; items take a few
WALL_TIMEOUT = 600
BUDGET = {"quick": 780, "thorough": 3000}


def load(prop):
    return importlib.import_module("mc.checks.%s" % prop.lower())


def _child_setup(patched):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    warnings.simplefilter("ignore")
    import numpy as np
    import numpy.linalg, numpy.random  # noqa
    import scipy.special  # noqa
    import guancodes.GrayCode  # noqa

    np.seterr(all="ignore")
    if patched:
        from mc import pools, rng

        rng.install()
        pools.install()
    import theboss
    import pkgutil

    for m in pkgutil.walk_packages(theboss.__path__, "theboss."):
        if not m.ispkg and "cliffords_r_" not in m.name:
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
    from mc import procmem

    procmem.snapshot()
    assert os.path.abspath(theboss.__file__).startswith(REPO + "/"), theboss.__file__


def _alarm(signum, frame):
    from mc.engine import ItemTimeout

    raise ItemTimeout("wall" if signum == signal.SIGALRM else "cpu")


def run_one(prop, item):
    """One work item in a patched process -> plain dict."""
    from mc.engine import PROGRESS, EngineLimit, ItemTimeout
    from mc.harness import Result, conform_patched, short_tb

    from mc import procmem

    mod = load(prop)
    res = Result()
    procmem.reset()
    t0 = time.time()
    c0 = time.process_time()
    PROGRESS[0] = c0
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(WALL_TIMEOUT)
    signal.setitimer(signal.ITIMER_PROF, item.get("timeout", ITEM_TIMEOUT))
    try:
        if item.get("type") == "conform":
            conform_patched(item["of"], res, item["seeds"], item["native"])
        else:
            mod.run(item, res)
    except ItemTimeout as e:
        used = time.process_time() - c0
        if item.get("type") == "conform":
            res.limits.append("conformance timeout")
        elif str(e) == "cpu" and time.process_time() - PROGRESS[0] < 60:
            res.limits.append("state space too large for %d CPU seconds" % item.get("timeout", ITEM_TIMEOUT))
        elif str(e) == "cpu":
            res.violate("no termination within %d CPU seconds" % item.get("timeout", ITEM_TIMEOUT))
        elif used < 0.1 * WALL_TIMEOUT:
            res.violate("blocked: no termination within %d s" % WALL_TIMEOUT)
        else:
            res.limits.append("slow machine: %d s" % WALL_TIMEOUT)
    except EngineLimit as e:
        res.limits.append(str(e))
    except Exception as e:
        if any("/theboss/" in f.filename for f in traceback.extract_tb(e.__traceback__)):
            res.violate("raised " + short_tb(e), traceback=traceback.format_exc()[-1500:])
        else:
            res.limits.append("harness error: " + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    d = res.as_dict()
    d["wall"] = time.time() - t0
    for v in d["violations"]:
        v["item"] = item
    return d


def _worker(conn, prop, patched):
    try:
        _child_setup(patched)
        conn.send(("ready", None))
    except BaseException:
        conn.send(("dead", traceback.format_exc()))
        return
    while True:
        job = conn.recv()
        if job is None:
            return
        if patched:
            out = run_one(prop, job)
        else:
            from mc.harness import native_run

            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            out = native_run(job["of"], job["seeds"])
        try:
            conn.send(("done", out))
        except Exception:
            conn.send(("done", json.loads(json.dumps(out, default=str))))


class Farm:
    """A few worker processes (forked before theboss is imported)."""

    def __init__(self, prop, n, patched):
        self.prop, self.patched = prop, patched
        self.ctx = multiprocessing.get_context("fork")
        self.slots = [self._start() for _ in range(n)]

    def _start(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.prop, self.patched), daemon=False)
        p.start()
        b.close()
        return [p, a, None, None]

    def run(self, jobs, deadline, stop):
        """Yields (job, result or None, note)."""
        queue = list(jobs)[::-1]
        from multiprocessing.connection import wait

        busy = {}
        ready = set()
        dead = 0
        conns = {s[1]: s for s in self.slots}
        waiting = set(conns)
        while queue or busy or (waiting - ready and queue):
            if time.time() > deadline or stop():
                for job in queue:
                    yield job, None, "skipped"
                for c, job in busy.items():
                    yield job, None, "skipped"
                return
            got = wait(list(conns), timeout=1.0)
            for c in got:
                try:
                    kind, val = c.recv()
                except (EOFError, OSError):
                    job = busy.pop(c, None)
                    slot = conns.pop(c)
                    if job is not None:
                        yield job, None, "worker died"
                    dead += 1
                    if dead < 20:
                        ns = self._start()
                        self.slots.append(ns)
                        conns[ns[1]] = ns
                    continue
                if kind == "dead":
                    yield None, None, val
                    return
                if kind == "done":
                    job = busy.pop(c)
                    yield job, val, None
                ready.add(c)
                if queue:
                    job = queue.pop()
                    busy[c] = job
                    c.send(job)
            if not conns:
                for job in queue:
                    yield job, None, "no workers"
                return
            for c in list(conns):
                if c in ready and c not in busy and queue:
                    job = queue.pop()
                    busy[c] = job
                    c.send(job)

    def close(self):
        for p, c, _, _ in self.slots:
            try:
                p.kill()
            except Exception:
                pass
        for p, c, _, _ in self.slots:
            p.join(2)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k.get("property") == prop and k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--item")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(prop)

    if a.replay or a.item:
        item = json.loads(a.item) if a.item else json.load(open(a.replay))["item"]
        _child_setup(True)
        d = run_one(prop, item)
        print(json.dumps(d, indent=1, default=str))
        sys.exit(1 if d["violations"] else 0)

    items = mod.items(a.tier)
    deadline = t0 + BUDGET.get(a.tier, 780)
    tot = dict(states=0, transitions=0, executions=0, schedules=0, evaluations=0, traces=0)
    violations, limits, samples, mismatches = [], [], [], []
    skipped, walls, broken = 0, [], None

    # native runs for conformance
    conf = []
    conform = getattr(mod, "conform", None)
    if conform is not None:
        base = conform(a.tier)
        nseeds = 6 if a.tier == "quick" else 40
        jobs = [dict(of=it, seeds=[1000 * seed + i for i in range(nseeds)]) for it in base]
        if jobs:
            f = Farm(prop, min(2, a.jobs), False)
            for job, out, note in f.run(jobs, min(deadline, time.time() + 120), lambda: False):
                if out is not None:
                    conf.append(dict(type="conform", of=job["of"], seeds=job["seeds"], native=out))
            f.close()

    farm = Farm(prop, a.jobs, True)
    jobs = conf + items
    nconf = len(conf)
    for job, out, note in farm.run(jobs, deadline, lambda: bool(violations) and not a.all):
        if job is None:
            broken = note
            break
        if out is None:
            skipped += 1
            if note != "skipped":
                limits.append("%s: %s" % (note, json.dumps(job)[:200]))
            continue
        for k in tot:
            tot[k] += out[k]
        violations += out["violations"]
        limits += out["limits"]
        mismatches += out["mismatches"]
        samples += out["samples"][:1] if len(samples) < 5 else []
        walls.append((out["wall"], json.dumps(job)[:160]))
    farm.close()

    if broken is not None:
        # theboss cannot even be imported: every property fails
        if "/theboss/" in broken or "theboss" in broken:
            violations.append(dict(what="theboss cannot be imported", traceback=broken[-1500:], item={}))
        else:
            print(broken)
            sys.exit(2)

    known = known_findings(prop)
    hits, fresh = {}, []
    for v in violations:
        k = next((k for k in known if k["match"] in v["what"]), None)
        if k is not None:
            hits.setdefault(k["match"], k)
        else:
            fresh.append(v)
    for k in hits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    wall = time.time() - t0
    extra = getattr(mod, "ASSUMPTIONS", [])
    ev = dict(
        property=prop,
        tier=a.tier if a.tier in ("quick", "thorough") else "quick",
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=tot["states"],
            transitions=tot["transitions"],
            # stateless exploration: every explored execution runs the implementation
            traces_validated_against_impl=tot["executions"],
            seeded_native_runs_replayed=tot["traces"],
            schedules=tot["schedules"],
            work_items=len(items),
            items_skipped=skipped,
            exhaustive=(skipped == 0 and not limits and not fresh),
            bounds=getattr(mod, "BOUNDS", {}).get(a.tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
            samples=samples[:5] or [dict(item=it) for it in items[:2]],
            no_verdict=limits[:10],
            conformance_mismatches=mismatches[:5],
        ),
        assumptions=[
            "numpy.random/random deliver independent uniform draws as documented",
            "probabilities compared with tolerance 1e-9; alternatives below 1e-13 ignored",
        ]
        + list(extra),
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v:
        for w in sorted(walls, reverse=True)[:8]:
            print("  %.1fs %s" % w)
        for l in limits[:10]:
            print("  LIMIT", l)
        for l in mismatches[:10]:
            print("  MISMATCH", l)
    print(
        "%s %s: %d states, %d transitions, %d executions, %d schedules, %d native traces, "
        "%d items (%d skipped, %d without verdict), %.1f s"
        % (prop, a.tier, tot["states"], tot["transitions"], tot["executions"], tot["schedules"],
           tot["traces"], len(items), skipped, len(limits), wall)
    )
    if fresh:
        path = os.path.join(VERIF, "evidence", "violation-%s.json" % prop)
        with open(path, "w") as f:
            json.dump(fresh[0], f, indent=1, default=str)
        for v in fresh[:5 if not a.all else 200]:
            print("  " + v["what"][:400])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
