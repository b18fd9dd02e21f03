#!/usr/bin/env python3
"""Sensitivity campaign (not part of any check): small syntactic changes in a copy of the library, one at a time.

mutate.py WORKDIR SEED COUNT [FILE-SUBSTRING]  -- writes WORKDIR/log.jsonl; survivors are read by hand.
"""

import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "gwinferno/"
MAP = [
    ("cosmology.py", None, ["P01", "P02"]),
    ("distributions.py", "smooth logistic_function logistic_unit log_logistic_unit powerlaw_logit_pdf", ["P04", "P05"]),
    ("distributions.py", None, ["P03"]),
    ("interpolation.py", "NaturalCubicUnivariateSpline", ["P09"]),
    ("interpolation.py", None, ["P08", "P07"]),
    ("numpyro_distributions.py", None, ["P06"]),
    ("models/bsplines/single.py", "BSplineRedshift", ["P12"]),
    ("models/bsplines/single.py", None, ["P10"]),
    ("models/bsplines/separable.py", None, ["P11"]),
    ("models/bsplines/smoothing.py", None, ["P14"]),
    ("models/spline_perturbation.py", "PowerlawSplineRedshiftModel", ["P12"]),
    ("models/spline_perturbation.py", None, ["P13"]),
    ("models/parametric/parametric.py", "PowerlawRedshiftModel", ["P12"]),
    ("models/parametric/parametric.py", None, ["P05"]),
    ("pipeline/analysis.py", "find_map", ["P30"]),
    ("pipeline/analysis.py", "per_event_log_bayes_factors detection_efficiency", ["P15"]),
    ("pipeline/analysis.py", "hierarchical_likelihood", ["P16", "P17"]),
    ("pipeline/analysis.py", "construct_hierarchical_model", ["P18"]),
    ("pipeline/parser.py", "load_model_from_python_file load_base_parser", ["P19"]),
    ("pipeline/parser.py", None, ["P18", "P19"]),
    ("pipeline/utils.py", "load_base_parser", ["P19"]),
    ("pipeline/utils.py", "load_pe_and_injections_as_dict", ["P24"]),
    ("pipeline/utils.py", "posterior_dict_to_xarray pdf_dict_to_xarray", ["P28"]),
    ("pipeline/utils.py", None, ["P14"]),
    ("preprocess/data_collection.py", None, ["P22", "P23", "P24", "P25"]),
    ("preprocess/priors.py", None, ["P21"]),
    ("preprocess/conversions.py", None, ["P20"]),
    ("preprocess/selection.py", "resample_injections", ["P26"]),
    ("preprocess/selection.py", None, ["P23"]),
    ("postprocess/calculations.py", None, ["P27"]),
    ("postprocess/plot.py", None, ["P29"]),
]

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Pow: ast.Mult}
FN = {"less": "less_equal", "less_equal": "less", "greater": "greater_equal", "greater_equal": "greater", "min": "max", "max": "min", "zeros": "ones", "ones": "zeros", "exp": "expm1", "log": "log1p", "sin": "cos", "cos": "sin", "log1p": "log", "minimum": "maximum", "maximum": "minimum", "all": "any", "any": "all"}
PAIR = [("a_1", "a_2"), ("a1", "a2"), ("ct1", "ct2"), ("mass_1", "mass_2"), ("cos_tilt_1", "cos_tilt_2"), ("m1", "m2"), ("mmin", "mmax"), ("low", "high"), ("alpha", "beta"), ("pe", "inj"), ("minimum", "maximum"), ("q", "m1"), ("m_cs", "q_cs"), ("m_tau", "q_tau"), ("a_tau", "ct_tau")]
PAIR = dict(PAIR + [(b, a) for a, b in PAIR])


def sites(tree, in_repo_lines):
    """list of (node path description, function applying the change to a deep copy's node)"""
    out = []
    for node in ast.walk(tree):
        ln = getattr(node, "lineno", None)
        if ln is None:
            continue
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                if type(op) in CMP:
                    out.append((node, ("cmp", i)))
        elif isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in BIN:
            out.append((node, ("bin",)))
            if isinstance(node, ast.BinOp) and type(node.op) in (ast.Sub, ast.Div, ast.Pow):
                out.append((node, ("swap",)))
        elif isinstance(node, ast.BoolOp):
            out.append((node, ("bool",)))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            out.append((node, ("unary",)))
        elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)) and node.value is not Ellipsis and node.value is not None:
            out.append((node, ("const",)))
        elif isinstance(node, ast.Constant) and isinstance(node.value, str) and node.value in PAIR:
            out.append((node, ("str",)))
        elif isinstance(node, ast.Name) and node.id in PAIR and isinstance(node.ctx, ast.Load):
            out.append((node, ("name",)))
        elif isinstance(node, ast.Attribute) and node.attr in FN:
            out.append((node, ("fn",)))
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2:
                out.append((node, ("args",)))
            for i in range(len(node.keywords)):
                out.append((node, ("dropkw", i)))
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            out.append((node, ("drop",)))
        elif isinstance(node, ast.If):
            out.append((node, ("ifnot",)))
    return out


def apply(node, how, rnd):
    k = how[0]
    if k == "cmp":
        node.ops[how[1]] = CMP[type(node.ops[how[1]])]()
    elif k == "bin":
        node.op = BIN[type(node.op)]()
    elif k == "swap":
        node.left, node.right = node.right, node.left
    elif k == "bool":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif k == "unary":
        node.op = ast.UAdd() if isinstance(node.op, ast.USub) else ast.UAdd()
    elif k == "const":
        v = node.value
        node.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else (v * 1.1 if v else 0.1)
    elif k == "str":
        node.value = PAIR[node.value]
    elif k == "name":
        node.id = PAIR[node.id]
    elif k == "fn":
        node.attr = FN[node.attr]
    elif k == "args":
        i = rnd.randrange(len(node.args) - 1)
        node.args[i], node.args[i + 1] = node.args[i + 1], node.args[i]
    elif k == "dropkw":
        del node.keywords[how[1]]
    elif k == "drop":
        node.__class__ = ast.Pass
        node._fields = ()
    elif k == "ifnot":
        node.test = ast.UnaryOp(op=ast.Not(), operand=node.test)


def top(tree, lineno):
    for n in tree.body:
        if n.lineno <= lineno <= n.end_lineno and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return n.name
    return None


def main():
    work, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pat = sys.argv[4] if len(sys.argv) > 4 else ""
    rnd = random.Random(seed)
    os.makedirs(work, exist_ok=True)
    repo = os.path.join(work, "repo")
    if not os.path.exists(repo):
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    pool = []
    for f in sorted({m[0] for m in MAP}):
        if pat and pat not in f:
            continue
        src = open(os.path.join("/repo", G, f)).read()
        tree = ast.parse(src)
        n = len(sites(tree, None))
        pool += [(f, i) for i in range(n) if True]
    rnd.shuffle(pool)
    # equal shares per file
    byfile = {}
    for f, i in pool:
        byfile.setdefault(f, []).append(i)
    order = []
    while byfile:
        for f in list(byfile):
            order.append((f, byfile[f].pop()))
            if not byfile[f]:
                del byfile[f]
    log = open(os.path.join(work, "log.jsonl"), "a")
    done = 0
    for f, i in order:
        if done >= count:
            break
        src = open(os.path.join("/repo", G, f)).read()
        tree = ast.parse(src)
        node, how = sites(tree, None)[i]
        t = top(tree, node.lineno)
        if t is None:
            continue
        checks = next(m[2] for m in MAP if m[0] == f and (m[1] is None or t in m[1].split()))
        before = ast.unparse(tree)
        line, old = node.lineno, ast.unparse(node)[:160]
        try:
            apply(node, how, rnd)
            new_src = ast.unparse(ast.fix_missing_locations(tree))
            new = ast.unparse(node)[:160]
            compile(new_src, f, "exec")
        except Exception:
            continue
        if new_src == before:
            continue
        done += 1
        with open(os.path.join(repo, G, f), "w") as g:
            g.write(new_src)
        res = {}
        for c in checks:
            d = tempfile.mkdtemp(dir=work)
            env = dict(os.environ, VERIF_REPO=repo, VERIF_FIRST_FAILURE=d)
            p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), c], env=env, capture_output=True, text=True)
            shutil.rmtree(d)
            res[c] = p.returncode
            if p.returncode == 1:
                break
        with open(os.path.join(repo, G, f), "w") as g:
            g.write(src)
        log.write(json.dumps(dict(file=f, line=line, top=t, how=how, old=old, new=new, res=res, caught=1 in res.values(), error=2 in res.values())) + "\n")
        log.flush()


if __name__ == "__main__":
    main()
