#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough]   (re-executes itself with the repository's python)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.environ.get("SYMX_CHILD") != "1":
    env = dict(os.environ, SYMX_CHILD="1", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="")
    os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
# z3's python bindings live in the verification venv: import only z3 from there
Z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if os.path.isdir(Z):
    sys.path.append(Z)
from symx import cli  # noqa: E402

sys.exit(cli.main())
