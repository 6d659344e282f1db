"""mk.py CASE DIR: scratch copy of the package with one case applied."""
import importlib.util, os, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
name, dst = sys.argv[1:3]
for f in sorted(os.listdir(HERE)):
    if f.startswith("cases") and f.endswith(".py"):
        spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(HERE, f)); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for n, w, edits in m.CASES:
            if n == name:
                shutil.rmtree(dst, ignore_errors=True); shutil.copytree("/repo/omemo", os.path.join(dst, "omemo"))
                for e in edits:
                    path, old, new = (["omemo/session_manager.py"] + list(e))[-3:]
                    p = os.path.join(dst, path); s = open(p).read(); assert old in s, old
                    open(p, "w").write(s.replace(old, new, 1))
