"""python -m pbt.check PROPERTY [--tier quick|thorough] [--replay FILE]

Runs the shards of one property in worker processes over the code of /repo,
writes evidence/PROPERTY.json and exits 0 (held), 1 (VIOLATION) or 2 (the
check itself failed).
"""

import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
PY = "/opt/venv/bin/python"
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if SITE not in sys.path:
    sys.path.append(SITE)

HANG_S = float(os.environ.get("PBT_HANG_S", "150"))


def worker_env(scratch, shard):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "PYTHON"))}
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        # a fresh cache: numba's cache does not notice an edit in a callee
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba-" + shard.get("cache", "x")),
        # /repo/src first: the tree under test, whatever is installed
        PYTHONPATH=os.path.join(REPO, "src") + os.pathsep + VERIF,
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
        PBT_REPO=REPO,
        PBT_SCRATCH=scratch,
    )
    if not shard.get("jit", True):
        env["NUMBA_DISABLE_JIT"] = "1"
    env.update(shard.get("env", {}))
    return env


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    items = json.load(open(path)) if os.path.exists(path) else []
    return [i for i in items if i["property"] == prop]


def load_corpus(prop):
    path = os.path.join(VERIF, "corpus", prop + ".json")
    return json.load(open(path)) if os.path.exists(path) else []


class Job:
    def __init__(self, prop, index, shard, tier, seed, scratch, known, corpus):
        self.shard, self.index = shard, index
        self.marker = os.path.join(scratch, f"marker-{index}")
        self.out = os.path.join(scratch, f"out-{index}.json")
        self.log = os.path.join(scratch, f"log-{index}")
        self.spec = os.path.join(scratch, f"spec-{index}.json")
        self.scratch = scratch
        with open(self.spec, "w") as f:
            json.dump(
                {"property": prop, "shard": shard, "index": index, "tier": tier,
                 "seed": seed, "marker": self.marker, "out": self.out,
                 "known": known, "corpus": corpus}, f)
        self.proc = None
        self.res = None

    def start(self):
        self.t0 = time.time()
        self.proc = subprocess.Popen(
            [PY, "-m", "pbt.worker", self.spec],
            cwd=self.scratch, env=worker_env(self.scratch, self.shard),
            stdout=open(self.log, "wb"), stderr=subprocess.STDOUT,
            start_new_session=True)

    def kill(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()

    def poll(self):
        """None while running, else the result dict."""
        from pbt.core import read_marker

        rc = self.proc.poll()
        if rc is None:
            n, t, case = read_marker(self.marker)
            if t and time.time() - t > HANG_S:
                n2, t2, case2 = read_marker(self.marker)
                if (n2, t2) == (n, t):
                    self.kill()
                    return {"status": "violation", "case": case,
                            "detail": f"a call did not return within {HANG_S:.0f} s",
                            "shard": self.shard["name"]}
            return None
        if os.path.exists(self.out):
            return json.load(open(self.out))
        n, t, case = read_marker(self.marker)
        if rc < 0 and rc != -signal.SIGKILL and t:
            return {"status": "violation", "case": case,
                    "detail": f"the interpreter died with signal {-rc} inside a call",
                    "shard": self.shard["name"]}
        return {"status": "error", "shard": self.shard["name"],
                "detail": f"worker ended with {rc}: "
                + open(self.log, errors="replace").read()[-3000:]}


def run_jobs(jobs, ncpu, deadline):
    """Runs all; stops everything after the first violation."""
    pending = list(jobs)
    running = []
    results = []
    stop_at = None
    while pending or running:
        while pending and len(running) < ncpu and stop_at is None:
            j = pending.pop(0)
            j.start()
            running.append(j)
        time.sleep(0.05)
        for j in list(running):
            r = j.poll()
            if r is not None:
                j.res = r
                running.remove(j)
                results.append(r)
                if r["status"] in ("violation", "error") and stop_at is None:
                    stop_at = time.time() + (3.0 if r["status"] == "violation" else 60.0)
                    if r["status"] == "error":
                        # an error may hide a violation in another shard
                        stop_at = None
        now = time.time()
        if stop_at is not None and now > stop_at:
            break
        if now > deadline:
            results.append({"status": "error", "detail": "time budget exhausted",
                            "shard": ",".join(j.shard["name"] for j in running)})
            break
    for j in running:
        j.kill()
        if os.path.exists(j.out + ".first"):
            results.append(json.load(open(j.out + ".first")))
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shard", help="only shards whose name contains this")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("PBT_SCALE", "1")))
    a = ap.parse_args()
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("pbt.props." + prop.lower())
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="pbt-")
    rc = 2
    try:
        rc = check(mod, prop, a, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(mod, prop, a, seed, scratch, t0):
    known = load_known(prop)
    corpus = load_corpus(prop)
    ncpu = min(8, os.cpu_count() or 1)
    budget = 780 if a.tier == "quick" else 6 * 3600

    if a.replay:
        rp = json.load(open(a.replay))
        job = Job(prop, 0, dict(rp["shard"], n=0), a.tier, seed, scratch, [], [rp["case"]])
        r = run_jobs([job], 1, time.time() + 700)[0]
        print(json.dumps({k: r.get(k) for k in ("status", "detail", "case")}, indent=1))
        if r["status"] == "violation":
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if r["status"] == "ok" else 2

    shards = mod.shards(a.tier)
    if a.shard:
        shards = [s for s in shards if a.shard in s["name"]]
    for s in shards:
        if "n" in s:
            s["n"] = max(1, int(s["n"] * a.scale))
    kcases = [k["case"] for k in known if k["kind"] == "known"]
    jobs = []
    # known findings are replayed by one extra job each
    for i, s in enumerate(shards):
        sub = [c["case"] for c in corpus if c["shard"] == s["name"]]
        jobs.append(Job(prop, i, s, a.tier, seed, scratch, kcases, sub))
    order = sorted(jobs, key=lambda j: -j.shard.get("cost", 1.0))
    results = run_jobs(order, ncpu, t0 + budget)

    known_lines = []
    kjobs = []
    for i, k in enumerate(k for k in known if k["kind"] == "known"):
        kjobs.append((k, Job(prop, 1000 + i, dict(k["shard"], n=0), a.tier, seed,
                             scratch, [], [k["case"]])))
    if kjobs and not any(r["status"] == "violation" for r in results):
        run_jobs_all([j for _, j in kjobs], ncpu, t0 + budget + 100)
        for k, j in kjobs:
            if j.res and j.res["status"] == "violation":
                known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
            elif j.res and j.res["status"] == "error":
                results.append(j.res)

    # evidence ---------------------------------------------------------
    hashes, classes, extra, samples = set(), {}, {}, []
    evals = 0
    for r in results:
        evals += r.get("evaluations", 0)
        for h in r.get("hashes", []):
            hashes.add((r["shard"], h))
        for k, v in r.get("classes", {}).items():
            classes[f"{r['shard']}: {k}"] = classes.get(f"{r['shard']}: {k}", 0) + v
        for k, v in r.get("extra", {}).items():
            extra[f"{r['shard']}: {k}"] = v
        for s in r.get("samples", [])[:2]:
            if len(samples) < 12:
                samples.append({"shard": r["shard"], "case": s})
    viol = [r for r in results if r["status"] == "violation"]
    errs = [r for r in results if r["status"] == "error"]
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples,
            "classes": classes,
            "measured": extra,
            "regression_inputs": len(corpus),
            "shards": [s["name"] for s in shards],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for line in known_lines:
        print(line)
    if viol:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for i, r in enumerate(viol):
            path = os.path.join(VERIF, "evidence", "replay", f"{prop}-{i}.json")
            shard = next(s for s in shards if s["name"] == r["shard"])
            with open(path, "w") as f:
                json.dump({"property": prop, "shard": shard, "case": r.get("case"),
                           "detail": r["detail"], "seed": seed}, f, indent=1)
            print(f"{prop} [{r['shard']}] {r['detail']}")
            print(f"  case: {json.dumps(r.get('case'))}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        for r in errs:
            print(f"ERROR {prop} [{r['shard']}] {r['detail']}", file=sys.stderr)
        return 2
    print(f"OK {prop}: {evals} cases, {len(hashes)} distinct non-trivial, "
          f"{time.time() - t0:.1f} s")
    return 0


def run_jobs_all(jobs, ncpu, deadline):
    """As run_jobs, to the end, whatever each reports."""
    pending, running = list(jobs), []
    while pending or running:
        while pending and len(running) < ncpu:
            j = pending.pop(0)
            j.start()
            running.append(j)
        time.sleep(0.05)
        for j in list(running):
            r = j.poll()
            if r is not None:
                j.res = r
                running.remove(j)
        if time.time() > deadline:
            for j in running:
                j.kill()
                j.res = {"status": "error", "detail": "time budget exhausted",
                         "shard": j.shard["name"]}
            return


if __name__ == "__main__":
    main()
