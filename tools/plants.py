"""Run the quick check of its property against every planted change in seeded/ (on a scratch clone of /repo) and rewrite the table in DESIGN.md.

usage: plants.py [id ...]     results are kept in tools/plants.json
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
MARK = "<!-- planted -->"


def main():
    only = sys.argv[1:]
    store = os.path.join(HERE, "plants.json")
    res = json.load(open(store)) if os.path.exists(store) else {}
    ids = sorted(os.listdir(os.path.join(ROOT, "seeded")))
    work = tempfile.mkdtemp(prefix="plants")
    repo = os.path.join(work, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        for i in ids:
            if only and i not in only:
                continue
            d = os.path.join(ROOT, "seeded", i)
            meta = json.load(open(os.path.join(d, "meta.json")))
            if subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], capture_output=True).returncode:
                print(i, "patch does not apply", flush=True)
                res.pop(i, None)
                continue
            env = dict(os.environ, VERIF_REPO=repo)
            demo = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True).returncode
            p = subprocess.run([sys.executable, os.path.join(ROOT, "run.py"), meta["property"], "--tier", "quick", "--seed", "1"], cwd=ROOT, env=env, capture_output=True, text=True)
            subs = sorted({os.path.basename(l.split("replay=")[1]).split("-", 1)[1].removesuffix(".json") for l in p.stdout.splitlines() if l.startswith("VIOLATION")})
            res[i] = dict(property=meta["property"], demo=demo, code=p.returncode, subs=subs, needs=meta["needs"])
            print(i, meta["property"], "demo", demo, "check", p.returncode, subs, flush=True)
            subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
    finally:
        shutil.rmtree(work)
    res = {i: res[i] for i in ids if i in res}
    json.dump(res, open(store, "w"), indent=1)
    rows = ["| planted change | property | needs | quick check |", "|---|---|---|---|"]
    for i, v in sorted(res.items(), key=lambda kv: (kv[1]["property"], kv[0])):
        rows.append(f"| {i} | {v['property']} | {v['needs']} | {'caught: ' + ', '.join(v['subs']) if v['code'] == 1 else 'missed'} |")
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read().split(MARK)[0]
    open(p, "w").write(s + MARK + "\n\n" + "\n".join(rows) + "\n")


main()
