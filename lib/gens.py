"""Strategies shared by the check modules. Everything they produce is JSON-able."""

import numpy as np
from hypothesis import strategies as st


def _sig(x, n=6):
    return 0.0 if abs(x) < 1e-9 else float(f"{x:.{n}g}")


def reals(lo, hi, special=()):
    """floats in [lo, hi] rounded to six significant digits, the bounds and the special values over-represented"""
    base = st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64).map(_sig).filter(lambda x: lo <= x <= hi)
    # a uniform draw as well: Hypothesis floats cluster around "nice" numbers
    uni = st.integers(0, 10**6).map(lambda k: _sig(lo + (hi - lo) * k / 10**6)).filter(lambda x: lo <= x <= hi)
    opts = [uni, uni, base]
    sp = [s for s in special if lo <= s <= hi]
    if sp:
        opts.append(st.sampled_from(sp))
    return st.one_of(opts)


def logreals(lo, hi, special=()):
    llo, lhi = np.log(lo), np.log(hi)
    uni = st.integers(0, 10**6).map(lambda k: _sig(np.exp(llo + (lhi - llo) * k / 10**6))).filter(lambda x: lo <= x <= hi)
    sp = [s for s in special if lo <= s <= hi]
    return st.one_of([uni, uni, st.sampled_from(sp)]) if sp else uni


SHAPES = [[], [1], [5], [2, 3], [24]]


def shapes(opts=None):
    return st.sampled_from(opts or SHAPES)


seeds = st.integers(0, 2**31 - 1)


def rng(seed):
    return np.random.default_rng(seed)


@st.composite
def fdict(draw, **kw):
    """a case: dictionary of independently drawn fields"""
    return {k: draw(v) for k, v in kw.items()}


def reshape(values, shape):
    a = np.asarray(values, dtype=float)
    return a.reshape(tuple(shape))
