"""P19: the model file and the command line options a user gives are the ones that take effect."""

import os
import shutil
import sys
import tempfile
import types

import numpy as np
import yaml
from gens import fdict, reals, rng, seeds
from harness import require, sub
from hypothesis import strategies as st

from gwinferno.pipeline import parser as P
from gwinferno.pipeline import utils as U

FILES = ["model.py", "model.py", "my_model.py", "population-1.py", "json.py", "v1.2.py", "taken.py", "__main__.py"]
OP = st.fixed_dictionaries(
    dict(
        op=st.sampled_from(["load", "load", "load", "rewrite", "config"]),
        d=st.integers(0, 3),
        f=st.integers(0, len(FILES) - 1),
        how=st.sampled_from(["absolute", "relative", "bare", "dotted"]),
    )
)


def write(d, name, value, helper):
    with open(os.path.join(d, name), "w") as f:
        if helper:
            f.write(f"from {helper} import K\n")
        else:
            f.write("K = 0\n")
        late = f"    from {helper}_late import L\n" if helper else "    L = 0\n"
        f.write(f"V = {value}\n\n\ndef other(x):\n    return -1\n\n\ndef model(x=0):\n{late}    return (V + K + L, x, __file__)\n")


@sub(
    fdict(ops=st.lists(OP, min_size=2, max_size=12), helpers=st.booleans()),
    quick=150, thorough=4000,
    corpus=[
        dict(ops=[dict(op="load", d=d, f=0, how=h) for d in (0, 1, 2, 0)] + [dict(op="rewrite", d=0, f=0, how=h), dict(op="load", d=0, f=0, how=h)], helpers=hp)
        for h in ("absolute", "relative", "bare")
        for hp in (True, False)
    ],
)
def model_files(c):
    """files of equal names in several directories, loaded, rewritten and loaded again in any order, by absolute or relative path"""
    root = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    cwd, path0, mods0 = os.getcwd(), list(sys.path), set(sys.modules)
    state, loaded, n = {}, [], 0
    # a module of the same name, with a model of its own, that is already loaded
    taken = types.ModuleType("taken")
    taken.model = lambda x=0: (-5, x, "elsewhere")
    sys.modules["taken"] = taken
    try:
        for d in range(4):
            os.makedirs(os.path.join(root, f"dir{d}"))
            if c["helpers"]:
                with open(os.path.join(root, f"dir{d}", f"helper_{d}.py"), "w") as f:
                    f.write(f"K = {1000 * (d + 1)}\n")
                with open(os.path.join(root, f"dir{d}", f"helper_{d}_late.py"), "w") as f:
                    f.write(f"L = {100000 * (d + 1)}\n")
        for o in c["ops"]:
            d = os.path.realpath(os.path.join(root, f"dir{o['d']}"))
            key = (o["d"], FILES[o["f"]])
            if key not in state or o["op"] == "rewrite":
                n += 1
                # a different length every time, so that no cache keyed by size and time can hide a rewrite
                state[key] = 10 ** (n % 30) + n
                write(d, key[1], state[key], f"helper_{o['d']}" if c["helpers"] else None)
            if o["op"] == "rewrite":
                continue
            want = state[key] + (101000 * (o["d"] + 1) if c["helpers"] else 0)
            path = os.path.join(d, key[1])
            if o["how"] == "absolute":
                os.chdir(cwd)
            elif o["how"] == "relative":
                os.chdir(root)
                path = os.path.join(f"dir{o['d']}", key[1])
            elif o["how"] == "bare":
                os.chdir(d)
                path = key[1]
            else:
                os.chdir(d)
                path = os.path.join("..", f"dir{o['d']}", ".", key[1])
            if o["op"] == "config":
                with open(os.path.join(root, "c.yml"), "w") as f:
                    yaml.safe_dump(dict(models=dict(python_file=path)), f)
                cr = P.ConfigReader()
                cr.parse(os.path.join(root, "c.yml"))
                require(list(cr.models) == ["file_path"] and not cr.priors and not cr.sampling_params, "configuration of a python model", got=cr.models)
                path = cr.models["file_path"]
            f = P.load_model_from_python_file(path)
            loaded.append((f, want, os.path.join(d, key[1])))
            os.chdir(cwd)
            for g, w, p in loaded:
                got = g(7)
                require(got[0] == w and got[1] == 7, "a model loaded from a file is not the one in that file", file=p, got=got, want=w)
                require(os.path.realpath(got[2]) == p, "the model's file", got=got[2], want=p)
        return f"{min(len(loaded), 6)} loads of {len({p for _, _, p in loaded})} files" if len(loaded) > 1 else None
    finally:
        os.chdir(cwd)
        sys.path[:] = path0
        for m in set(sys.modules) - mods0:
            if m.startswith("helper_") or m == "taken":
                del sys.modules[m]
        shutil.rmtree(root)


WORDS = ["a", "results/run 1", "x.h5", "-", "é", "out"]
UTILS = dict(
    pe_inj_file=(str, None), run_label=(str, None), result_dir=(str, None), m_nsplines=(int, 50), q_nsplines=(int, 30), a_nsplines=(int, 16), tilt_nsplines=(int, 16),
    z_nsplines=(int, 20), mmin=(float, 3.0), mmax=(float, 100.0), chains=(int, 1), samples=(int, 1500), thinning=(int, 1), warmup=(int, 1000), skip_inference=("flag", False),
    rngkey=(int, 1), save_plots=("bool", True),
)
BASE = dict(
    data_dir=(str, ...), inj_file=(str, ...), outdir=(str, "results"), mmin=(float, 3.0), mmax=(float, 100.0), chains=(int, 1), samples=(int, 1500), thinning=(int, 1),
    warmup=(int, 500), skip_inference=("flag", False),
)


@sub(
    fdict(which=st.sampled_from(["utils", "base"]), s=seeds, n=st.integers(0, 10), eq=st.booleans(), extra=st.booleans()),
    quick=300, thorough=5000,
    corpus=[dict(which=w, s=s, n=30, eq=e, extra=x) for w in ("utils", "base") for s in range(4) for e in (True, False) for x in (True, False)]
    + [dict(which=w, s=0, n=0, eq=False, extra=False) for w in ("utils", "base")],
)
def command_line(c):
    """every option given takes the value given, with its type; every other option keeps its default; parsers do not influence one another"""
    r = rng(c["s"])
    table = UTILS if c["which"] == "utils" else BASE
    make = U.load_base_parser if c["which"] == "utils" else P.load_base_parser
    names = list(table)
    chosen = [names[i] for i in r.permutation(len(names))[: c["n"]]]
    argv, want = [], {}
    for nm in chosen:
        kind = table[nm][0]
        flag = "--" + nm.replace("_", "-")
        if kind == "flag":
            argv.append(flag)
            want[nm] = True
            continue
        if kind == "bool":
            v = bool(r.integers(2))
            txt = [["False", "false"], ["True", "true"]][v][r.integers(2)]
        elif kind is int:
            v = int(r.integers(0, 5000)) if r.random() < 0.8 else 0
            txt = str(v)
        elif kind is float:
            v = float(np.round(r.random() * 10 ** r.integers(0, 4), 4))
            txt = [str(v), f"{v:e}"][r.integers(2)]
            if r.random() < 0.2:
                txt = ["0", "0.0", "1e-3"][r.integers(3)]
            v = float(txt)
        else:
            v = WORDS[r.integers(len(WORDS))]
            txt = v
        want[nm] = v
        argv += [f"{flag}={txt}"] if c["eq"] else [flag, txt]
    p = make()
    if c["extra"]:
        p.add_argument("--example", type=str)
        argv += ["--example", "abc"]
    try:
        args = vars(p.parse_args(argv))
    except SystemExit:
        require(False, "valid options were rejected", argv=argv)
    if c["extra"]:
        require(args.pop("example") == "abc", "option added by the user")
    require(set(table) <= set(args), "missing options", missing=sorted(set(table) - set(args)))
    for nm in names:
        kind, default = table[nm]
        if nm in want:
            require(args[nm] == want[nm] and type(args[nm]) is type(want[nm]), f"option {nm}", got=args[nm], want=want[nm])
        elif default is not ...:
            require(args[nm] == default and type(args[nm]) is type(default), f"default of {nm}", got=args[nm], want=default)
    return f"{c['which']}: {len(chosen)} options" if chosen else None


@sub(fdict(kind=st.sampled_from(["no file", "no model", "broken"]), f=st.integers(0, len(FILES) - 1), after=st.booleans()), quick=30, thorough=200)
def nothing_to_load(c):
    """a missing file, or one without a model, is reported and never answered with a model loaded before"""
    root = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    path0 = list(sys.path)
    try:
        for d in ("good", "bad"):
            os.makedirs(os.path.join(root, d))
        write(os.path.join(root, "good"), FILES[c["f"]], 5, None)
        if c["after"]:
            P.load_model_from_python_file(os.path.join(root, "good", FILES[c["f"]]))
        bad = os.path.join(root, "bad", FILES[c["f"]])
        if c["kind"] != "no file":
            with open(bad, "w") as f:
                f.write("def other():\n    return 1\n" if c["kind"] == "no model" else "def model(:\n")
        try:
            got = P.load_model_from_python_file(bad)
        except Exception:
            return c["kind"]
        require(False, "a model was returned although the file has none", kind=c["kind"], got=got)
    finally:
        sys.path[:] = path0
        shutil.rmtree(root)
