"""P29: figures."""

import os
import shutil
import tempfile

import numpy as np
from gens import fdict, rng, seeds
from harness import close, require, sub
from hypothesis import strategies as st

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.collections import PolyCollection  # noqa: E402

from gwinferno.postprocess import plot as P  # noqa: E402


def quantile(v, f):
    """linear interpolation between order statistics, along the draws"""
    s = np.sort(v, axis=0)
    k = f * (len(v) - 1)
    i = int(np.floor(k))
    j = min(i + 1, len(v) - 1)
    return s[i] + (k - i) * (s[j] - s[i])


def band(x, poly):
    """lower and upper edge of a filled band at every x"""
    v = poly.get_paths()[0].vertices
    lo, hi = [], []
    for t in x:
        ys = v[np.abs(v[:, 0] - t) <= 1e-9 * (1 + abs(t)), 1]
        lo.append(ys.min())
        hi.append(ys.max())
    return np.array(lo), np.array(hi)


@sub(
    fdict(n=st.sampled_from([1, 2, 11, 60, 101]), m=st.integers(2, 12), loglog=st.booleans(), default=st.booleans(), s=seeds, color=st.sampled_from(["red", "k", "tab:blue"]), skew=st.booleans()), quick=80, thorough=1500, split=2,
    corpus=[dict(n=4000, m=40, loglog=False, default=False, s=1, color="k", skew=True)],
)
def credible_band(c):
    """the line is the median over the draws at every point, the band runs from the 5th to the 95th percentile"""
    r = rng(c["s"])
    x = np.sort(r.uniform(0.1, 10, c["m"])) + np.arange(c["m"]) * 1e-3
    v = np.exp(r.normal(size=(c["n"], c["m"])) * (2 if c["skew"] else 0.3))
    keep = v.copy()
    fig = plt.figure()
    try:
        loglog = True if c["default"] else c["loglog"]
        P.plot_pdf(x, v, "some label", **({} if c["default"] else dict(color=c["color"], loglog=loglog, alpha=0.7)))
        require(np.array_equal(v, keep), "the densities were changed")
        ax = fig.axes[0]
        lines = [ln for ln in ax.get_lines() if ln.get_label() == "some label"]
        require(len(lines) == 1, "one labelled line", got=len(lines))
        ln = lines[0]
        close(ln.get_xdata(), x, "abscissa of the line", rtol=1e-9)
        close(ln.get_ydata(), quantile(v, 0.5), "median", rtol=1e-6)
        require(ax.get_xscale() == ("log" if loglog else "linear") and ax.get_yscale() == ax.get_xscale(), "scales", got=(ax.get_xscale(), ax.get_yscale()))
        if not c["default"]:
            require(matplotlib.colors.to_rgb(ln.get_color()) == matplotlib.colors.to_rgb(c["color"]), "colour", got=ln.get_color())
        polys = [p for p in ax.collections if isinstance(p, PolyCollection)]
        require(len(polys) == 1, "one band", got=len(polys))
        lo, hi = band(x, polys[0])
        close(lo, quantile(v, 0.05), "lower edge of the band", rtol=1e-6)
        close(hi, quantile(v, 0.95), "upper edge of the band", rtol=1e-6)
        return f"{'loglog' if loglog else 'linear'}, {c['n']} draws" if c["n"] > 1 else None
    finally:
        plt.close("all")


@sub(
    fdict(which=st.sampled_from(["mass", "spin", "spin2", "redshift"]), pops=st.integers(1, 3), colors=st.sampled_from([[], ["k", "tab:orange", "C4"], ["red", "red", "gold", "blue"]]), save=st.booleans(), label=st.sampled_from(["run", "a_b", "v1.2"]), default=st.booleans(), s=seeds), quick=16, thorough=200, split=4,
    corpus=[dict(which=w, pops=p, colors=["k", "gold", "C4"] if p == 2 else [], save=s, label="run", default=False, s=1) for w, p, s in (("mass", 2, True), ("spin", 3, True), ("spin2", 1, True), ("redshift", 1, True), ("mass", 1, False), ("redshift", 1, False))],
)
def figure_files(c):
    """every population appears in every figure with its own draws; files are written where asked and only when asked; no figure is left open"""
    r = rng(c["s"])
    root = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    x, y = np.linspace(3, 90, 15), np.linspace(0.05, 1, 12)
    names = ["A", "B", "C"][: c["pops"]]
    mk = lambda n: [np.exp(r.normal(size=(9, n))) for _ in range(c["pops"])]
    a, b = mk(15), mk(12)
    drawn = []
    orig = P.plt.savefig
    show = P.plt.show

    def record(*args, **kw):
        fig = plt.gcf()
        for ax in fig.axes:
            lines = [(ln.get_label(), np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float), matplotlib.colors.to_hex(ln.get_color())) for ln in ax.get_lines()]
            drawn.append((os.path.basename(str(args[0])) if args else "", ax.get_xlabel(), lines))
        return orig(*args, **kw)

    P.plt.savefig = record
    P.plt.show = lambda *k, **kw: None
    before = set(plt.get_fignums())
    try:
        kw = {} if c["default"] and c["save"] else dict(save=c["save"])
        given = list(c["colors"])
        if given and c["which"] != "redshift":
            kw["colors"] = given
        if c["which"] == "mass":
            P.plot_mass_pdfs(a, b, x, y, names, c["label"], root, **kw)
            want = {f"mass_pdf_{c['label']}.png": (x, a), f"mass_ratio_pdf_{c['label']}.png": (y, b)}
        elif c["which"] == "redshift":
            P.plot_rate_of_z_pdfs(a[0], x, c["label"], root, **kw)
            want = {f"redshift_pdf_{c['label']}.png": (x, a[:1])}
        else:
            k = "2" if c["which"] == "spin2" else "1"
            P.plot_spin_pdfs(a, b, x, y, names, c["label"], root, **kw, **(dict(secondary=True) if k == "2" else {}))
            want = {f"spin_mag{k}_pdf_{c['label']}.png": (x, a), f"cos_tilt{k}_pdf_{c['label']}.png": (y, b)}
        files = sorted(os.listdir(root))
        require(files == (sorted(want) if c["save"] else []), "files written", got=files, want=sorted(want) if c["save"] else [])
        require(all(os.path.getsize(os.path.join(root, f)) > 500 for f in files), "empty figure")
        require(set(plt.get_fignums()) == before, "a figure was left open")
        require(given == c["colors"], "the list of colours was changed")
        hues = {}
        for f, _, lines in drawn:
            g, v = want[f]
            got = [ln for ln in lines if not ln[0].startswith("_")]
            require(len(got) == len(v), "populations in the figure", file=f, got=[ln[0] for ln in got])
            for i, d in enumerate(v):
                if c["which"] != "redshift":
                    require(got[i][0] == names[i], "label of a population", got=got[i][0], want=names[i])
                    hue = hues.setdefault(names[i], got[i][3])
                    require(hue == got[i][3], "a population changes its colour between figures", name=names[i], got=(hue, got[i][3]))
                    require(not given or hue == matplotlib.colors.to_hex(given[i]), "colour of a population", name=names[i], got=hue, want=given)
                close(got[i][1], g, "abscissa", rtol=1e-9)
                close(got[i][2], quantile(d, 0.5), f"median in {f}", rtol=1e-6)
        require(given or len(set(hues.values())) == len(hues), "populations of one colour", got=hues)
        return f"{c['which']}, {'saved' if c['save'] else 'not saved'}"
    finally:
        P.plt.savefig = orig
        P.plt.show = show
        plt.close("all")
        shutil.rmtree(root)
