"""P21: effective-spin priors implied by uniform magnitudes."""

import numpy as np
from c_spin_priors_ref import conditional_ref, largest_chi_p
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import arr, close, require, sub
from hypothesis import strategies as st
from scipy.integrate import quad

from gwinferno.preprocess import priors as P

Q = logreals(0.03, 0.995, special=[0.1, 0.3, 0.5, 0.8])
AM = st.sampled_from([1.0, 1.0, 0.9, 0.6, 0.3])


def s_pdf(s, a):
    """density of one aligned spin component, magnitude uniform on [0, a] and isotropic tilt"""
    s = np.abs(s)
    return np.where((s < a) & (s > 0), -np.log(np.maximum(s, 1e-300) / a) / (2 * a), 0.0)


def iso_ref(x, q, a):
    """p(chi_eff | q) = (1+q) * integral p(s2) p(s1 = (1+q) x - q s2) ds2, integrated piecewise with the log singularities at the ends"""
    y = (1 + q) * x
    pts = sorted({-a, 0.0, a, *[p for p in (y / q, (y - a) / q, (y + a) / q) if -a < p < a]})
    tot = 0.0
    f = lambda s: float(s_pdf(s, a) * s_pdf(y - q * s, a))
    for lo, hi in zip(pts[:-1], pts[1:]):
        if max(f(0.5 * (lo + hi)), f(lo + 0.01 * (hi - lo)), f(hi - 0.01 * (hi - lo))) == 0:
            continue
        m = 0.5 * (lo + hi)
        # t^3 substitution from either end tames the logarithm
        for e, sgn in ((lo, 1.0), (hi, -1.0)):
            h = (m - lo) ** (1 / 3.0)
            tot += quad(lambda t: f(e + sgn * t**3) * 3 * t * t, 0, h, epsabs=1e-11, epsrel=1e-9, limit=200)[0]
    return (1 + q) * tot


@sub(
    fdict(q=Q, a=AM, s=seeds, n=st.integers(1, 12)),
    quick=60, thorough=1500, split=2,
    corpus=[dict(q=q, a=a, s=1, n=10) for q in (0.05, 0.2, 0.45, 0.5, 0.55, 0.9, 0.99) for a in (1.0, 0.6)],
)
def isotropic_chi_eff(c):
    """against the convolution integral, over every branch of the closed form; symmetric; zero outside"""
    r, q, a = rng(c["s"]), c["q"], c["a"]
    edges = np.unique(np.clip([0.0, a * (1 - q) / (1 + q), q * a / (1 + q), a / (1 + q), a], 0, a))
    x = []
    for lo, hi in zip(edges[:-1], edges[1:]):  # every branch
        if hi - lo > 1e-3 * a:
            x += list(lo + (hi - lo) * r.uniform(0.02, 0.98, 2))
    x = np.array(x + list(r.uniform(0, a, c["n"])))
    x = x[np.min(np.abs(x[:, None] - edges[None]), axis=1) > 2e-4 * a]
    x *= np.where(r.random(x.size) < 0.5, -1, 1)
    got = arr(P.chi_effective_prior_from_isotropic_spins(x, q, a_max=a), "density", x.shape)
    want = np.array([iso_ref(v, q, a) for v in x])
    close(got, want, "isotropic effective spin prior", rtol=2e-5, atol=2e-5 / a, q=q, a=a, x=x)
    close(P.chi_effective_prior_from_isotropic_spins(-x, q, a_max=a), got, "symmetry", rtol=1e-12)
    qa = np.full(x.shape, q)
    close(P.chi_effective_prior_from_isotropic_spins(x, qa, a_max=a), got, "an array of mass ratios", rtol=1e-12)
    for i in (0, x.size - 1):
        close(arr(P.chi_effective_prior_from_isotropic_spins(float(x[i]), q, a_max=a), "scalar", (1,)), got[i : i + 1], "a single number", rtol=1e-12)
    out = a * (1 + r.random(4)) + 1e-9
    close(P.chi_effective_prior_from_isotropic_spins(np.concatenate([out, -out]), q, a_max=a), np.zeros(8), "outside the range")
    if a == 1.0:
        close(P.chi_effective_prior_from_isotropic_spins(x, q), got, "default maximum spin", rtol=1e-12)
    # the closed form at zero and on the seams of the branches
    close(arr(P.chi_effective_prior_from_isotropic_spins(0.0, q, a_max=a), "at zero", (1,)), (1 + q) / (2 * a) * (2 - np.log(q)), "at zero", rtol=1e-9)
    seam = edges[(edges > 0.01 * a) & (edges < 0.99 * a)]
    if seam.size:
        close(P.chi_effective_prior_from_isotropic_spins(seam, q, a_max=a), [iso_ref(v, q, a) for v in seam], "on the seams", rtol=5e-3, q=q, a=a)
    return f"q {'<' if q < 0.5 else '>='} 0.5, a_max {a}"


@sub(fdict(q=Q, a=AM, shape=shapes(), s=seeds), quick=120, thorough=3000)
def aligned_chi_eff(c):
    """the trapezoid law of a weighted sum of two uniform numbers"""
    r, q, a = rng(c["s"]), c["q"], c["a"]
    x = a * r.uniform(-1.2, 1.2, c["shape"])
    y = (1 + q) * np.abs(x)
    # overlap of s1 = y - q s2 with [-a, a]
    lo, hi = np.maximum(-a, (y - a) / q), np.minimum(a, (y + a) / q)
    want = (1 + q) * np.maximum(hi - lo, 0) / (4 * a * a)
    f = P.chi_effective_prior_from_aligned_spins
    close(arr(f(x, q, a_max=a), "density", np.atleast_1d(x).shape), np.atleast_1d(want), "aligned effective spin prior", rtol=1e-9, atol=1e-12)
    close(f(-x, q, a_max=a), np.atleast_1d(want), "symmetry", rtol=1e-9, atol=1e-12)
    qs = 0.05 + 0.9 * r.random(np.shape(x))
    lo, hi = np.maximum(-a, ((1 + qs) * np.abs(x) - a) / qs), np.minimum(a, ((1 + qs) * np.abs(x) + a) / qs)
    close(f(x, qs, a_max=a), np.atleast_1d((1 + qs) * np.maximum(hi - lo, 0) / (4 * a * a)), "an array of mass ratios", rtol=1e-9, atol=1e-12)
    if a == 1.0:
        close(f(x, q), np.atleast_1d(want), "default maximum spin", rtol=1e-9, atol=1e-12)
    g = np.linspace(-a, a, 4001)
    close(np.trapz(f(g, q, a_max=a), g), 1.0, "normalisation", rtol=2e-4)
    return f"{np.ndim(x)}d, a_max {a}"


@sub(fdict(q=Q, a=AM, shape=shapes(), s=seeds), quick=120, thorough=3000)
def isotropic_chi_p(c):
    """against the density of the larger of two in-plane spins"""
    r, q, a = rng(c["s"]), c["q"], c["a"]
    k = q * (3 + 4 * q) / (4 + 3 * q)
    x = a * r.uniform(0.0, 1.2, c["shape"])
    x = np.where(np.abs(x - k * a) < 1e-6 * a, x * 1.01, x)

    def pdf(v, m):  # m * a uniform * sin(isotropic)
        v = np.minimum(v / m, 1.0)
        return np.arccos(v) / m

    def cdf(v, m):
        v = np.minimum(v / m, 1.0)
        return v * np.arccos(v) - np.sqrt(1 - v * v) + 1

    want = lambda x, k: np.where(x < a, pdf(x, a) * cdf(x, k * a) + pdf(x, k * a) * cdf(x, a), 0.0)
    f = P.chi_p_prior_from_isotropic_spins
    close(arr(f(x, q, a_max=a), "density", np.atleast_1d(x).shape), np.atleast_1d(want(x, k)), "isotropic precessing spin prior", rtol=1e-8, atol=1e-9, q=q, a=a)
    qs = 0.05 + 0.9 * r.random(np.shape(x))
    close(f(x, qs, a_max=a), np.atleast_1d(want(x, qs * (3 + 4 * qs) / (4 + 3 * qs))), "an array of mass ratios", rtol=1e-8, atol=1e-7)
    if a == 1.0:
        close(f(x, q), np.atleast_1d(want(x, k)), "default maximum spin", rtol=1e-8, atol=1e-9)
    g = np.linspace(0, a, 8001)
    close(np.trapz(f(g, q, a_max=a), g), 1.0, "normalisation", rtol=2e-4)
    return f"{np.ndim(x)}d, a_max {a}"


@sub(
    fdict(q=logreals(0.1, 0.99), a=AM, x=reals(-0.75, 0.75, special=[0.0]), s=seeds),
    quick=24, thorough=600, split=2,
    corpus=[dict(q=q, a=a, x=x, s=1) for q in (0.2, 0.8) for a in (1.0, 0.5) for x in (0.0, -0.3, 0.7)],
)
def conditional_chi_p(c):
    """Monte Carlo: moments and cumulative masses of p(chi_p | chi_eff, q); the joint prior is its product with the marginal; integrates to one; zero outside"""
    r, q, a, xe = rng(c["s"]), c["q"], c["a"], c["x"] * c["a"]
    np.random.seed(c["s"] % 2**32)
    g = np.linspace(0, 1.2 * a, 601)
    p = arr(P.chi_p_prior_given_chi_eff_q(g, xe, q, a_max=a, ndraws=20000), "density", g.shape)
    require(np.all(p >= 0), "negative density")
    close(np.trapz(p, g), 1.0, "normalisation", rtol=2e-2)
    top = largest_chi_p(xe, q, a)
    require(np.all(p[g > top * 1.0001] == 0), "density beyond the largest possible value", top=top, q=q, chi_eff=xe)
    n = 20000
    reps = [conditional_ref(r, xe, q, a, top, g, n) for _ in range(8)]
    cdf = np.concatenate([[0], np.cumsum(0.5 * (p[1:] + p[:-1]) * np.diff(g))])
    means = np.array([m for _, m in reps])
    close(np.trapz(p * g, g), means.mean(), "mean of chi_p given chi_eff", atol=0.03 * a + 8 * means.std(), q=q, a=a, chi_eff=xe)
    cs = np.array([v for v, _ in reps])
    dev = np.abs(cdf - cs.mean(axis=0)) - 8 * cs.std(axis=0)
    require(np.max(dev) < 0.04, "cumulative mass of chi_p given chi_eff", deviation=np.max(dev), q=q, a=a, chi_eff=xe)
    pt = np.array([0.3, 0.6]) * top
    np.random.seed(7)
    cond = np.array([float(P.chi_p_prior_given_chi_eff_q(v, xe, q, a_max=a)) for v in pt])
    np.random.seed(7)
    joint = arr(P.joint_prior_from_isotropic_spins(pt, np.full(2, xe), np.full(2, q), a_max=a), "joint prior", (2,))
    marg = arr(P.chi_effective_prior_from_isotropic_spins(np.full(2, xe), q, a_max=a))
    close(joint, cond * marg, "joint prior", rtol=0.15, atol=0.03 * np.max(marg) / a, q=q, a=a, chi_eff=xe)
    return f"a_max {a}, {'full' if top == a else 'reduced'} range"


@sub(fdict(q=logreals(0.1, 0.99), a=AM, x=reals(1.0, 3.0, special=[1.0]), sign=st.sampled_from([-1, 1]), shape=shapes(), s=seeds), quick=40, thorough=400, limit=20)
def impossible_chi_eff(c):
    """effective spins which no component spins reach have no density: zero, and the call returns"""
    r, q, a, xe = rng(c["s"]), c["q"], c["a"], c["sign"] * c["x"] * c["a"]
    x = a * r.random(c["shape"])
    got = arr(P.chi_p_prior_given_chi_eff_q(x, xe, q, a_max=a, ndraws=50), "conditional density", np.shape(x))
    require(np.all(got == 0), "density of chi_p at an impossible chi_eff", got=got, chi_eff=xe, a=a)
    v = np.atleast_1d(x).reshape(-1)[:3]
    joint = arr(P.joint_prior_from_isotropic_spins(v, np.full(v.shape, xe), np.full(v.shape, q), a_max=a, ndraws=50), "joint prior", v.shape)
    require(np.all(joint == 0), "joint prior at an impossible chi_eff", got=joint, chi_eff=xe, a=a)
    return f"a_max {a}"
