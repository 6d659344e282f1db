"""rule.py MODULE.FUNCTION...: verdict summary of rules."""
import os, sys, importlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
from osa.model import Model
from osa.obligations import Check
from rules.common import show_verdicts
m = Model(os.environ.get("OSA_REPO", "/repo"))
for a in sys.argv[1:]:
    mod, fn = a.split(".")
    c = Check(m, fn.upper()); t = time.time()
    getattr(importlib.import_module("rules." + mod), fn)(c)
    show_verdicts(c); print(f"{time.time()-t:.1f}s")
