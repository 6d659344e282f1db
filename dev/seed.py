"""Writes /verif/seeded/<id>/ from dev/seeds*.py: applies each edit in a scratch copy of /repo's HEAD, records the patch,
and confirms that the stable tests pass with it and that the demonstration fails with it and passes without it."""

import importlib.util, json, os, shutil, subprocess, sys, tempfile, concurrent.futures

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py" 2>/dev/null\n'


def load(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=300, **kw)


def build(s):
    sid, pid, needs, breaks, edits, demo = s
    d = tempfile.mkdtemp(prefix="osa_seed_", dir="/tmp")
    repo = os.path.join(d, "repo")
    try:
        sh(["git", "clone", "-q", "/repo", repo], "/tmp")
        out = os.path.join(d, "out")
        os.makedirs(out)
        open(os.path.join(out, "demo.py"), "w").write("from world import *\n" + demo.strip("\n") + "\n\n\nrun(main())\n")
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        shutil.copy(os.path.join(HERE, "demo", "world.py"), out)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        r = sh(["bash", os.path.join(out, "demo.sh")], repo)
        if r.returncode != 0:
            e = sh(["/opt/venv/bin/python", os.path.join(out, "demo.py")], repo)
            return sid, "demo fails on the unchanged tree: " + (e.stdout + e.stderr)[-600:]
        base = open("/repo/omemo/session_manager.py").read()
        for e in edits:
            path, old, new = (["omemo/session_manager.py"] + list(e))[-3:]
            p = os.path.join(repo, path)
            t = open(p).read()
            if t.count(old) != 1:
                return sid, f"edit matches {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        # only lines of the original repository may be changed or removed
        first = sh(["git", "rev-list", "--max-parents=0", "HEAD"], repo).stdout.split()[0]
        for path in {x.split(" b/")[1] for x in diff.splitlines() if x.startswith("diff --git")}:
            orig = set(sh(["git", "show", f"{first}:{path}"], repo).stdout.splitlines())
            gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
            if gone and all(l not in orig for l in gone):
                return sid, "changes no original line"
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(out, "demo.sh")], repo)
        if r.returncode == 0:
            return sid, "demo passes with the bug"
        r1 = sh(["/opt/venv/bin/python", os.path.join(out, "demo.py")], repo)
        t = sh("PYTHONPATH=. /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 2>&1 | tail -3", repo)
        if "2 passed" not in t.stdout:
            return sid, "tests: " + t.stdout[-300:]
        ev = os.path.join(d, "ev")
        c = sh([sys.executable, os.path.join(ROOT, "check.py"), "all"], ROOT, env=dict(os.environ, OSA_REPO=repo, OSA_EVIDENCE=ev))
        fired = sorted({l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")})
        dst = os.path.join(ROOT, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst, ignore=shutil.ignore_patterns("__pycache__"))
        why = (r1.stdout.strip().splitlines() or r1.stderr.strip().splitlines() or ["?"])[-1][:110]
        return sid, f"ok  [{pid}] fired {fired} {'CAUGHT' if pid in fired else 'MISSED'}  demo: {why}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    filt = sys.argv[1:]
    seeds = []
    for f in sorted(os.listdir(HERE)):
        if f.startswith("seeds") and f.endswith(".py"):
            seeds += load(f[:-3]).SEEDS
    seeds = [s for s in seeds if not filt or any(x in s[0] for x in filt)]
    res = os.path.join(HERE, "seeded.json")
    known = json.load(open(res)) if os.path.exists(res) else {}
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for sid, msg in ex.map(build, seeds):
            print(sid, "--", msg, flush=True)
            if "fired [" in msg:
                known[sid] = msg.split("fired [")[1].split("]")[0].replace("'", "")
    json.dump(dict(sorted(known.items())), open(res, "w"), indent=1)


main()
