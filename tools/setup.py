#!/usr/bin/env python3
"""setup_cmd: compiles the Java operators of the specification and makes the data tables the repository does not carry."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import run
run.build_java()
env = dict(os.environ, PYTHONPATH=os.path.join(V, "harness"), PYTHONDONTWRITEBYTECODE="1")
code = "import lib; print(lib.harmonics_file())"
if "C28" in __import__("config").CHECKS:
    code += "; print(lib.peters_g_file(True))"
subprocess.run([run.PY, "-c", code], check=True, env=env)
