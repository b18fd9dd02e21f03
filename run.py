#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--only SUB] -- run the check of one property.

exit 0: held on everything explored; exit 1: VIOLATION line(s); exit 2: the machinery itself failed.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
from checks.registry import REGISTRY  # noqa: E402


def child_env(mode, scratch):
    env = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": scratch,
        "TMPDIR": scratch,
        "LANG": "C.UTF-8",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONPATH": ":".join([os.environ.get("VERIF_REPO", "/repo"), os.path.join(HERE, "lib"), HERE, os.path.join(HERE, "vendor")]),
        "PYTHONWARNINGS": "ignore",
        "JAX_PLATFORMS": "cpu",
        "JAX_ENABLE_X64": "1" if mode == "x64" else "0",
        "MPLBACKEND": "Agg",
        "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(scratch, "hypothesis"),
        "VERIF_REPO": os.environ.get("VERIF_REPO", "/repo"),
        "VERIF_SCRATCH": scratch,
        "TQDM_DISABLE": "1",
    }
    if os.environ.get("VERIF_FIRST_FAILURE"):
        env["VERIF_STOP_FILE"] = os.path.join(os.environ["VERIF_FIRST_FAILURE"], "stop")
    return env


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.json")
    if os.path.exists(path):
        for e in json.load(open(path))["findings"]:
            if e["property"] == prop:
                out.append(e)
    return out


def matches(entry, sub, violation):
    return entry["sub"] == sub and all(m in violation["message"] for m in entry["message_contains"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    reg = REGISTRY[args.prop]
    module, modes = reg["module"], reg["modes"]
    scratch = tempfile.mkdtemp(prefix="verif_")
    try:
        if args.replay:
            rep = json.load(open(args.replay))
            code = f"import harness,json,sys; sys.exit(harness.main_replay({module!r}, {rep['sub']!r}, json.loads({json.dumps(rep['case'])!r})))"
            return subprocess.call([PY, "-W", "ignore", "-c", code], env=child_env(rep["mode"], scratch), cwd=scratch)
        return run(args, module, modes, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(args, module, modes, scratch):
    t0 = time.time()
    total = 8
    if args.tier == "quick":
        workers = REGISTRY[args.prop].get("workers", {m: 8 // len(modes) for m in modes})
        shards, limit = 1, 800
    else:
        workers = {m: max(1, total // len(modes)) for m in modes}
        shards, limit = 4, 6 * 3600
    procs = []
    for m in modes:
        n = workers[m]
        for i in range(n):
            wdir = os.path.join(scratch, f"{m}_{i}")
            os.makedirs(wdir)
            res = os.path.join(wdir, "result.json")
            code = (
                f"import harness; harness.main_worker({module!r}, {m!r}, {args.tier!r}, {args.seed}, {i}, {n}, {shards}, {res!r}, {args.only!r})"
            )
            log = open(os.path.join(wdir, "log"), "wb")
            p = subprocess.Popen([PY, "-W", "ignore", "-c", code], env=child_env(m, wdir), cwd=wdir, stdout=log, stderr=subprocess.STDOUT)
            procs.append((m, i, p, res, log))
    results, errors = [], []
    for m, i, p, res, log in procs:
        try:
            p.wait(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"worker {m}/{i} exceeded {limit} s")
        log.close()
        path = res if os.path.exists(res) else res + ".tmp"
        if os.path.exists(path):
            try:
                results += json.load(open(path))
            except ValueError:
                pass
        if p.returncode != 0 and not os.path.exists(res):
            errors.append(f"worker {m}/{i} ended with {p.returncode}:\n" + open(log.name, errors="replace").read()[-3000:])

    evals = sum(r["evaluations"] for r in results)
    keys, labels, samples, per = set(), {}, [], []
    for r in results:
        keys |= {f"{r['sub']}/{r['mode']}/{k}" for k in r["keys"]}
        for k, v in r["labels"].items():
            labels[f"{r['sub']}: {k}"] = labels.get(f"{r['sub']}: {k}", 0) + v
        samples += r["samples"]
        per.append(dict(sub=r["sub"], mode=r["mode"], evaluations=r["evaluations"], nontrivial=len(r["keys"]), wall_s=r["wall_s"], stopped=r["stopped"]))
        if r["error"]:
            errors.append(f"{r['sub']}/{r['mode']}: " + r["error"]["trace"] + "\ncase: " + json.dumps(r["error"]["case"]))
    known = known_findings(args.prop)
    seen_known, violations = [], []
    for r in results:
        v = r["violation"]
        if not v:
            continue
        hit = [e for e in known if matches(e, r["sub"], v)]
        if hit:
            seen_known.append(hit[0])
            continue
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{args.prop}-{r['sub']}-{r['mode']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=args.prop, sub=r["sub"], mode=r["mode"], case=v["case"], message=v["message"]), f, indent=1)
        violations.append((path, r["sub"], r["mode"], v["message"]))
    for e in known:
        print(f"KNOWN-FINDING: property={args.prop} {e['what']}")

    meta = REGISTRY[args.prop]
    evidence = dict(
        property=args.prop,
        tier=args.tier,
        seed=args.seed,
        level="exploration",
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(keys),
            rule=meta["rule"],
            samples=samples[:12],
            labels=labels,
            sub_checks=per,
        ),
        assumptions=meta["assumptions"],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    if not os.environ.get("VERIF_FIRST_FAILURE"):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{args.prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    if args.v:
        for r in sorted(per, key=lambda r: -r["wall_s"]):
            print(r)
        print(labels)
    for path, sub, mode, msg in violations:
        print(f"{sub}/{mode}: {msg}")
        print(f"VIOLATION property={args.prop} replay={path}")
    for e in errors:
        print("ERROR:", e, file=sys.stderr)
    print(f"{args.prop} {args.tier} seed={args.seed}: {evals} cases, {len(keys)} distinct non-trivial, {evidence['wall_s']} s")
    if violations:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
