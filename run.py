#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys
from pathlib import Path

os.environ.setdefault("OPENBLAS_NUM_THREADS", "2")
os.environ.setdefault("OMP_NUM_THREADS", "2")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
here = Path(__file__).resolve().parent
sys.path[:0] = [str(here / "lib"), str(here)]
importlib.import_module("checks." + sys.argv[1]).main()
