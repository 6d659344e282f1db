"""vals.py ENTRY LINE [CLS]: distinct (args, guards) of the effects at a source line, abbreviated by naming subterms."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from osa.model import Model
from osa.query import items_of
from osa import terms
m = Model(os.environ.get("OSA_REPO", "/repo"))
r = m.run(sys.argv[1], sys.argv[3] if len(sys.argv) > 3 else "SessionManager")
names, seen = {}, set()
def ab(t):
    """Events get short names, printed once."""
    mp = {}
    for s in sorted(terms.subterms(t)):
        if s.op in ("ev", "pick") or s.op == "elem":
            mp[s] = s
    def sh(x):
        if x.op in ("ev", "elem", "pick"):
            if x not in names:
                names[x] = None
                n = (x.a[1] if x.op == "ev" else x.op) + str(len(names))
                kids = x
                names[x] = n
                if x.op == "ev":
                    s = f"{x.a[1]}({', '.join(rec(y) for y in x.a[3])})" + (f" on {rec(x.a[2])}" if isinstance(x.a[2], terms.T) else "")
                else:
                    s = x.op + "(" + ", ".join(rec(y) if isinstance(y, terms.T) else str(y) for y in x.a) + ")"
                print("      let", n, "=", s)
            return names[x]
        return None
    def rec(x):
        k = sh(x)
        if k: return k
        def conv(a):
            if isinstance(a, terms.T): return rec(a)
            if isinstance(a, tuple): return "(" + ", ".join(conv(y) for y in a) + ")"
            if isinstance(a, frozenset): return "{" + ", ".join(sorted(conv(y) for y in a)) + "}"
            return repr(a)
        if x.op in ("const", "role", "param"): return terms.show(x, 3)
        return x.op + "(" + ", ".join(conv(a) for a in x.a) + ")"
    return rec(t)
for k, o in enumerate(r.outs):
    for i in items_of(o):
        if i.ev.line == int(sys.argv[2]):
            kk = (id(i.cell))
            if kk in seen: continue
            seen.add(kk)
            print("path", k, i.name, i.ev.failed or "")
            for a, v in i.ev.args.items(): print("   ", a, "=", ab(v))
            for x in i.chain: print("    for", ab(x))
            for g in sorted(i.guards): print("    if", ab(g))
