"""Apply one case to a scratch copy and keep it: python3 dev/show.py NAME -> path"""
import sys, os, shutil, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
name = sys.argv[1]
def load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(HERE, n + ".py")); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
src = open(os.path.join(HERE, "mutants.py")).read().replace("\nmain()\n", "\n")
ns = {"__file__": os.path.join(HERE, "mutants.py")}; exec(src, ns)
for f in sorted(os.listdir(HERE)):
    if f.startswith("cases"):
        for c in load(f[:-3]).CASES:
            if c[0] == name:
                d = "/tmp/mut_" + name; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                shutil.copytree("/repo/omemo", d + "/omemo"); ns["apply"](d, c[2]); print(d)
