"""P02: redshift <-> distance inversion and independence of the query history."""

import numpy as np
from cosmo_ref import Ref, make, params
from gens import fdict, logreals, reals
from harness import arr, cast, close, require, sub, tol
from hypothesis import strategies as st

import jax.numpy as jnp

Q = st.fixed_dictionaries(
    dict(
        op=st.sampled_from(["z2Dc", "z2DL", "DL2z", "dVcdz", "logdVcdz", "roundtrip", "extend"]),
        z=st.one_of(reals(0.01, 2.0), reals(0.01, 2.0), reals(2.0, 14.0)),
        more=st.lists(reals(0.0, 1.0), min_size=3, max_size=3),
        shape=st.sampled_from([[], [1], [4], [2, 2]]),
    )
)


def points(q):
    n = int(np.prod(q["shape"]))
    z = np.array([q["z"]] + [q["z"] * f for f in q["more"]])[:n]
    if n == 4 and q["more"][0] > 0.5:  # the largest redshift is not always the first
        z = z[::-1]
    return cast(np.where(z < 1e-3, 1e-3, z)).reshape(q["shape"])


def step_error(ref):
    """error of trapezoid integration plus linear interpolation per squared step, for this cosmology (with a third on top)"""
    z = np.linspace(0, 40, 4001)
    return 1.3 * ref.dh * np.max(np.abs(np.gradient(1 / ref.E(z), z))) * (1 / 8 + 1 / 12)


def ask(cosmo, ref, q, dz, step=None):
    z = points(q)
    zj = jnp.asarray(z)
    h = ref.dh
    own, dz = dz, step or dz  # the step asked for when the table has to grow, the largest step it may have
    at = step_error(ref) * dz**2
    rt = tol(1e-6, 1e-4)
    info = dict(op=q["op"], z=z, dz=dz)
    if q["op"] == "z2Dc":
        close(arr(cosmo.z2Dc(zj, dz=own), shape=z.shape), ref.Dc(z), "comoving distance", rtol=rt, atol=at, **info)
    elif q["op"] == "z2DL":
        close(arr(cosmo.z2DL(zj, dz=own), shape=z.shape), ref.DL(z), "luminosity distance", rtol=rt, atol=at * (1 + z) + ref.dh * dz**2 / 3, **info)
    elif q["op"] in ("dVcdz", "logdVcdz"):
        dc = ref.Dc(z)
        want, slack = ref.dVcdz(z), 4 * np.pi * h / ref.E(z) * at * (2 * dc + at)
        got = arr(getattr(cosmo, q["op"])(zj, dz=own), shape=z.shape)
        if q["op"] == "logdVcdz":
            got = np.exp(got)
        require(np.all(np.abs(got - want) <= 6 * rt * want + slack), f"{q['op']} is off", got=got, want=want, **info)
    elif q["op"] == "DL2z":
        dl = cast(ref.DL(z))
        # one table cell of slack: dz^2 in redshift for a smooth function
        close(arr(cosmo.DL2z(jnp.asarray(dl), dz=own), shape=z.shape), z, "redshift at a luminosity distance", rtol=2 * rt, atol=3 * dz**2 + tol(0, 1e-6), **info)
    else:
        back = arr(cosmo.DL2z(cosmo.z2DL(zj, dz=own), dz=own), shape=z.shape)
        close(back, z, "DL2z(z2DL(z))", rtol=tol(1e-9, 2e-5), atol=tol(1e-9, 2e-6), **info)


@sub(
    fdict(par=params, ztop=reals(0.2, 3.0), dz=st.sampled_from([0.005, 0.01, 0.02]), ops=st.lists(Q, min_size=1, max_size=6)),
    quick=40, thorough=800, modes=("x64", "f32"), split=4,
    corpus=[
        dict(par=[0.3, 0.0, 70.0], ztop=1.0, dz=0.01, ops=[
            dict(op="z2Dc", z=3.0, more=[0.1, 0.2, 0.3], shape=[4]),
            dict(op="DL2z", z=9.0, more=[0.9, 0.01, 0.3], shape=[2, 2]),
            dict(op="roundtrip", z=0.5, more=[0.1, 0.2, 0.3], shape=[]),
        ]),
        # the same number of steps, to twice the redshift
        dict(par=[0.3, 0.0, 70.0], ztop=1.0, dz=0.005, ops=[dict(op=o, z=0.7, more=[0.1, 0.6, 0.3], shape=[4]) for o in ("z2DL", "DL2z", "dVcdz", "extend", "z2DL", "DL2z", "z2Dc", "dVcdz")]),
        dict(par=[0.3, 0.0, 70.0], ztop=0.5, dz=0.02, ops=[dict(op="DL2z", z=14.0, more=[0.1, 0.2, 0.3], shape=[1])]),
    ],
)
def history(c):
    """a sequence of queries on one object, each answered as a fresh exact cosmology would"""
    cosmo = make(c["par"], c["ztop"], c["dz"])
    ref = Ref(c["par"])
    beyond = False
    step = reach = None
    for q in c["ops"]:
        if q["op"] == "extend":  # tabulated anew by the user: as many steps to another redshift, or other steps
            f = [0.5, 2.0, 3.0][int(q["more"][1] * 2.99)]
            reach = max(c["ztop"] * f if q["more"][0] < 0.5 else q["z"], 0.1)
            cosmo.extend(reach, dz=c["dz"] * f)
            step = max(f, 1.0) * c["dz"]
            continue
        beyond |= bool(np.max(points(q)) > c["ztop"])
        ask(cosmo, ref, q, c["dz"], step)
    top = float(np.max(arr(cosmo.z)))
    require(top >= (reach or c["ztop"]) * (1 - 1e-6), "the tabulated range shrank", top=top)
    return ("extended" if beyond else "within") if len(c["ops"]) > 1 else None


@sub(
    fdict(ops=st.lists(st.tuples(st.sampled_from(["z2DL", "z2Dc", "DL2z", "dVcdz"]), reals(0.002, 9.9)), min_size=2, max_size=6), which=st.sampled_from(["planck", "lvk"])),
    quick=30, thorough=600, modes=("f32",),
)
def shared_instances(c):
    """queries of the shipped module-level cosmologies do not influence one another"""
    import gwinferno.cosmology as g

    cosmo = {"planck": g.PLANCK_2015_Cosmology, "lvk": g.PLANCK_2015_LVK_Cosmology}[c["which"]]
    par = {"planck": [0.3089, 0.0, 67.74], "lvk": [0.3065, 0.0, 67.90]}[c["which"]]
    ref = Ref(par)
    for op, z in c["ops"]:
        ask(cosmo, ref, dict(op=op, z=z, more=[0.5, 0.1, 0.9], shape=[4]), 1e-3)
    # repeating the first question gives the same bits
    op, z = c["ops"][0]
    x = jnp.asarray(cast(z if op != "DL2z" else ref.DL(z)))
    a, b = arr(getattr(cosmo, op)(x)), arr(getattr(cosmo, op)(x))
    require(np.array_equal(a, b), "the same question got two answers", a=a, b=b)
    return c["which"]


@sub(
    fdict(par=params, ztop=st.sampled_from([0.5, 1.0, 2.0]), ops=st.lists(st.tuples(st.sampled_from(["z2DL", "z2Dc", "DL2z", "dVcdz", "logdVcdz"]), st.one_of(logreals(2e-3, 0.5), reals(0.1, 2.0), reals(2.0, 6.0))), min_size=1, max_size=3), last=logreals(2e-3, 0.3)),
    quick=14, thorough=300, modes=("x64", "f32"), split=2,
    corpus=[dict(par=[0.3125, 0.0, 70.0], ztop=1.0, ops=[["z2DL", 6.0]], last=0.0055), dict(par=[0.3125, 0.0, 70.0], ztop=2.0, ops=[["DL2z", 5.0], ["z2Dc", 5.9]], last=0.0173)],
)
def default_step(c):
    """with the default step: after any history every kind of question is answered as a fresh object answers it"""
    kw = {}
    used = make(c["par"], c["ztop"], None)
    ref = Ref(c["par"])
    at = step_error(ref) * 1e-6
    for op, z in c["ops"]:
        x = cast([z * 0.7, z])
        getattr(used, op)(jnp.asarray(x if op != "DL2z" else ref.DL(x)), **kw)
    z = cast([c["last"], 1.37 * c["last"], 0.4 * c["ztop"]])
    fresh = make(c["par"], c["ztop"], None)
    for op in ("z2DL", "z2Dc", "DL2z", "dVcdz", "logdVcdz"):
        x = jnp.asarray(z if op != "DL2z" else cast(ref.DL(z)))
        a, b = arr(getattr(used, op)(x), op, z.shape), arr(getattr(fresh, op)(x), op, z.shape)
        if op in ("z2DL", "z2Dc"):
            close(a, b, f"{op} after a history and on a fresh object", rtol=tol(1e-9, 2e-6), atol=at * (1 + z) + ref.dh * 1e-6 / 3 + tol(0, 1e-4), z=z)
            want = getattr(ref, op[2:])(z)
            close(a, want, f"{op} after a history", rtol=tol(1e-9, 1e-4), atol=at * (1 + z) + ref.dh * 1e-6 / 3, z=z)
        elif op == "DL2z":
            close(a, b, "DL2z after a history and on a fresh object", rtol=tol(1e-9, 2e-5), atol=4e-6, z=z)
        elif op == "dVcdz":
            close(a / b, 1.0, "dVcdz after a history and on a fresh object", rtol=tol(1e-9, 1e-4) + 4 * (at + ref.dh * 1e-6 / 3) / ref.Dc(z).min())
        else:
            close(a, b, "logdVcdz after a history and on a fresh object", atol=tol(1e-9, 1e-4) + 4 * (at + ref.dh * 1e-6 / 3) / ref.Dc(z).min())
    top = max(v for o, v in c["ops"])
    return "extended" if top > c["ztop"] else "within"
