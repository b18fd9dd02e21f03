"""Common machinery of the property checks.

A check module (checks/<id>.py) registers *sub-checks*: functions of one
JSON-able case drawn from a Hypothesis strategy.  A sub-check

* raises ``Violation`` (through ``fail``/``close``/... below) when the property
  does not hold on the case,
* returns a non-empty label when the case was non-trivial (see the module's
  ``RULE``) and ``None`` when it was trivial.

``run_job`` drives a sub-check with Hypothesis (seeded by VERIF_SEED), counts
the cases, shrinks a failure and returns everything the parent process needs.
"""

import errno
import hashlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")

SUBS = []
INFRA = {errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EDQUOT, errno.EIO}


class Violation(AssertionError):
    """the property does not hold on this case"""


class StopRun(KeyboardInterrupt):
    """stop a Hypothesis run from inside (KeyboardInterrupt is never swallowed)"""


class Sub:
    def __init__(self, name, strategy, func, quick, thorough, modes, corpus, budget, split, limit):
        self.name, self.strategy, self.func = name, strategy, func
        self.quick, self.thorough, self.modes, self.corpus = quick, thorough, modes, corpus
        self.budget, self.split, self.limit = budget, split, limit


def sub(strategy, quick=50, thorough=1000, modes=("x64",), corpus=(), name=None, budget=150, split=1, limit=240):
    """register a sub-check; ``corpus`` holds explicit cases which run first, ``split`` spreads the quick tier over processes"""

    def deco(func):
        SUBS.append(Sub(name or func.__name__, strategy, func, quick, thorough, modes, list(corpus), budget, split, limit))
        return func

    return deco


# ---------------------------------------------------------------- assertions


def fail(msg, /, **info):
    if info:
        msg = msg + " | " + ", ".join(f"{k}={_short(v)}" for k, v in info.items())
    raise Violation(msg)


def require(cond, msg, /, **info):
    if not bool(cond):
        fail(msg, **info)


def _short(v):
    if isinstance(v, np.ndarray) or hasattr(v, "shape"):
        v = np.asarray(v)
        if v.size > 8:
            return f"array{v.shape}[{np.array2string(v.ravel()[:8], precision=6)}...]"
        return np.array2string(v, precision=8)
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def arr(x, what="result", shape=None, dtype=float):
    """the value as a float64 numpy array; a wrong kind or shape is a violation"""
    try:
        out = np.asarray(x, dtype=dtype)
    except Exception as e:  # not an array of numbers at all
        raise Violation(f"{what}: not numeric ({type(x).__name__}: {e})")
    if shape is not None and out.shape != tuple(shape):
        fail(f"{what}: shape {out.shape}, expected {tuple(shape)}")
    return out


def close(got, want, what, /, rtol=1e-5, atol=0.0, **info):
    """|got - want| <= atol + rtol*|want| elementwise; infinities must agree; NaN never does"""
    got, want = arr(got, what), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        try:
            got, want = np.broadcast_arrays(got, want) if want.ndim == 0 else (got, np.broadcast_to(want, got.shape))
        except ValueError:
            fail(f"{what}: shape {got.shape}, expected {want.shape}", **info)
    with np.errstate(invalid="ignore", over="ignore"):
        ok = np.abs(got - want) <= atol + rtol * np.abs(want)
    ok = np.where(np.isinf(want) | np.isinf(got), got == want, ok)
    if not np.all(ok):
        bad = np.argwhere(~ok)
        i = tuple(bad[0])
        fail(
            f"{what}: {len(bad)} of {ok.size} values differ, first at {[int(k) for k in i]}: got {got[i]!r}, expected {want[i]!r} "
            f"(rtol={rtol:g}, atol={atol:g})",
            **info,
        )


def finite(x, what, /, **info):
    x = arr(x, what)
    if not np.all(np.isfinite(x)):
        fail(f"{what}: not finite", value=x, **info)
    return x


def is_x64():
    return os.environ.get("JAX_ENABLE_X64") == "1"


def tol(x64, f32):
    return x64 if is_x64() else f32


def cast(x):
    """round to the precision the code under test works in, so that the oracle sees the same numbers"""
    if is_x64():
        return np.asarray(x, dtype=float)
    return np.asarray(np.asarray(x, dtype=np.float32), dtype=float)


def fnum(x):
    return float(cast(x))


HOW = ["eager", "eager", "jit", "vmap"]


def lift(f, how):
    """a function of population parameters as its users call it: directly, compiled, or mapped over several parameter sets (vectorised chains, predictive draws)"""
    import jax
    import jax.numpy as jnp

    if how == "jit":
        return jax.jit(f)
    if how != "vmap":
        return f

    def mapped(*args):
        args = [jnp.asarray(a, dtype=float) for a in args]
        out = jax.vmap(f)(*[jnp.stack([0.9 * a, a, 1.05 * a]) for a in args])
        return jax.tree_util.tree_map(lambda v: v[1], out)

    return mapped


# ---------------------------------------------------------------- running


def _in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO.rstrip("/") + "/"):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Violation("the call did not return within the time limit of one case")


def run_case(s, case):
    """('ok', label) | ('violation', message) | ('error', traceback)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(s.limit)
    try:
        return "ok", s.func(json.loads(json.dumps(case)))
    except Violation as e:
        return "violation", str(e)
    except Exception as e:
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if isinstance(e, MemoryError) or "RESOURCE_EXHAUSTED" in str(e) or getattr(e, "errno", None) in INFRA:
            return "error", text  # the sandbox ran out of something: says nothing about the property
        if _in_repo(e.__traceback__):
            return "violation", f"raised {type(e).__name__}: {str(e)[:400]}"
        return "violation", f"the result could not be examined ({type(e).__name__}: {str(e)[:400]})\n{text[-1500:]}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_job(s, mode, tier, seed, shard):
    from hypothesis import HealthCheck
    from hypothesis import Phase
    from hypothesis import given
    from hypothesis import seed as hseed
    from hypothesis import settings

    t0 = time.time()
    out = dict(sub=s.name, mode=mode, evaluations=0, keys=set(), labels={}, samples=[], violation=None, error=None, stopped=None)
    n = -(-s.quick // s.split) if tier == "quick" else s.thorough
    budget = s.budget if tier == "quick" else s.budget * 12
    state = dict(first_fail=None)
    shrink_limit = 40 if tier == "quick" else 120

    stop = os.environ.get("VERIF_STOP_FILE")  # sensitivity campaigns only: end everything at the first failure

    def one(case):
        now = time.time()
        if stop and os.path.exists(stop):
            raise StopRun()
        if state["first_fail"] is not None and now - state["first_fail"] > shrink_limit:
            raise StopRun()
        if state["first_fail"] is None and now - t0 > budget:
            out["stopped"] = "time budget"
            raise StopRun()
        status, info = run_case(s, case)
        out["evaluations"] += 1
        if status == "violation":
            size = len(json.dumps(case))
            if out["violation"] is None or size <= out["violation"]["size"]:
                out["violation"] = dict(case=case, message=info, size=size)
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            if stop:
                open(stop, "w").close()
            raise Violation(info)
        if status == "error":
            out["error"] = dict(case=case, trace=info)
            raise StopRun()
        if info:
            key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            if key not in out["keys"]:
                out["keys"].add(key)
                out["labels"][info] = out["labels"].get(info, 0) + 1
                if len(out["samples"]) < 2:
                    out["samples"].append(dict(sub=s.name, mode=mode, label=info, case=case))

    try:
        parts = s.split if tier == "quick" else 1
        for case in s.corpus[shard::parts] if shard < parts else ():
            try:
                one(case)
            except Violation:
                out["violation"]["corpus"] = True
                raise StopRun()

        @hseed(seed * 1000003 + shard + (500 if mode == "f32" else 0))
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            report_multiple_bugs=False,
            print_blob=False,
        )
        @given(s.strategy)
        def test(case):
            one(case)

        test()
    except StopRun:
        pass
    except Violation:
        pass
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if out["violation"] is None:
            out["error"] = dict(case=None, trace="".join(traceback.format_exception(type(e), e, e.__traceback__)))
    out["wall_s"] = round(time.time() - t0, 2)
    out["keys"] = sorted(out["keys"])
    return out


def main_worker(module_name, mode, tier, seed, index, count, shards, result_path, only=None):
    import importlib

    mod = importlib.import_module("checks." + module_name)
    del mod
    mine = [s for s in SUBS if mode in s.modes and (not only or s.name in only)]
    jobs = [(s, k) for s in mine for k in range(s.split if tier == "quick" else shards)]
    results = []
    for j, (s, k) in enumerate(jobs):
        if j % count != index:
            continue
        results.append(run_job(s, mode, tier, seed, k))
        with open(result_path + ".tmp", "w") as f:
            json.dump(results, f)
    with open(result_path + ".tmp", "w") as f:
        json.dump(results, f)
    os.replace(result_path + ".tmp", result_path)


def main_replay(module_name, sub_name, case):
    import importlib

    importlib.import_module("checks." + module_name)
    (s,) = [s for s in SUBS if s.name == sub_name]
    status, info = run_case(s, case)
    print(status, info if info else "")
    return {"ok": 0, "violation": 1, "error": 2}[status]
