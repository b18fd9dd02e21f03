#!/usr/bin/env python3
"""setup_cmd: the interpreter, the vendored Hypothesis and the package under test can be imported."""

import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONPATH=":".join(["/repo", os.path.join(HERE, "lib"), HERE, os.path.join(HERE, "vendor")]), PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-W", "ignore", "-c", "import hypothesis, harness, gens; import gwinferno; print('ready', hypothesis.__version__)"], env=env, cwd="/tmp"))
