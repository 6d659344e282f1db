"""Regression harness for the analysis itself (not a registered check): applies small edits to scratch copies of /repo's
package and reports which properties fire.  `python3 dev/mutants.py [filter]`.  Bugs must be caught by one of the named
properties; edits that keep the behaviour must stay quiet everywhere."""

import concurrent.futures, importlib.util, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def apply(dst, edits):
    for e in edits:
        path, old, new = (["omemo/session_manager.py"] + list(e))[-3:]
        p = os.path.join(dst, path)
        s = open(p, encoding="utf-8").read()
        n = s.count(old)
        if n == 0:
            raise ValueError(f"not found: {old[:80]!r}")
        if n > 1 and not old.startswith("\n#ALL"):
            k = None
        s = s.replace(old, new, 1) if n == 1 else s.replace(old, new, 1)
        if n > 1:
            print("   (ambiguous edit: first of", n, "used:", repr(old[:60]), ")")
        open(p, "w", encoding="utf-8").write(s)


def run(case):
    name, want, edits = case
    d = tempfile.mkdtemp(prefix="osa_mut_", dir="/tmp")
    try:
        shutil.copytree("/repo/omemo", os.path.join(d, "omemo"))
        try:
            apply(d, edits)
        except ValueError as ex:
            return name, want, None, f"EDIT FAILED {ex}"
        pr = subprocess.run([sys.executable, "-m", "compileall", "-q", os.path.join(d, "omemo")], capture_output=True, text=True)
        if pr.returncode:
            return name, want, None, "DOES NOT COMPILE " + pr.stdout[:300]
        ev = os.path.join(d, "evidence")
        # a bug only has to be caught by its own properties (--all: run everything and show what else fires)
        ids = ["all"] if want is None or "--all" in sys.argv else want
        out = ""
        for i in ids:
            p = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), i, "-v"], capture_output=True, text=True,
                               env=dict(os.environ, OSA_REPO=d, OSA_EVIDENCE=ev), timeout=900)
            out += p.stdout + p.stderr + f"\nrc={p.returncode}"
        fired = sorted(set(re.findall(r"VIOLATION property=(\w+)", out)))
        return name, want, fired, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    filt = [a for a in sys.argv[1:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    cases = []
    for f in sorted(os.listdir(HERE)):
        if f.startswith("cases") and f.endswith(".py"):
            cases += load(f[:-3]).CASES
    cases = [c for c in cases if not filt or any(x in c[0] for x in filt)]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for name, want, fired, out in ex.map(run, cases):
            if fired is None:
                print(f"?? {name}: {out}"); bad += 1
                continue
            und = [l for l in out.splitlines() if re.match(r"C\d+:", l) and " 0 undecided" not in l]
            if want is None:
                ok = not fired and "rc=0" in out
            else:
                ok = bool(set(want) & set(fired))
            extra = "" if want is None or set(fired) <= set(want) else f" (also {sorted(set(fired) - set(want))})"
            print(("ok " if ok else "BAD"), name, "want", want, "fired", fired, extra, "| undecided:",
                  [l.split(":")[0] + ":" + l.split(", ")[2] for l in und])
            if not ok or verbose:
                bad += not ok
                for l in out.splitlines():
                    if re.match(r"   (violated|undecided)|Trace|\w*Error|rc=2|  File", l):
                        print("      ", l[:330])
    print("bad:", bad, "of", len(cases))


main()
