"""dump.py ENTRY [CLS] [n]: the effects on each path of an entry point, as the rules see them."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from osa.model import Model
from osa.query import items_of, all_items
from osa import terms
m = Model(os.environ.get("OSA_REPO", "/repo"))
D = int(os.environ.get("D", "6"))
r = m.run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "SessionManager")
print("outs", len(r.outs), "unmodelled", dict(r.interp.unmodelled))
only = [int(x) for x in sys.argv[3].split(",")] if len(sys.argv) > 3 else range(len(r.outs))
for k in only:
    o = r.outs[k]
    print(f"== path {k}: {o.sig} {o.exc.cls if o.exc else ''} val={terms.show(r.interp.fz(o.st, o.val), D) if o.val is not None else None}")
    for f in sorted(o.st.facts) if not os.environ.get("NF") else []: print("    fact", terms.show(f, D))
    for i in items_of(o):
        if os.environ.get("F") and i.name not in os.environ["F"].split(","): continue
        print("  ", i.ev.line, i.ev.kind, i.name, "FAILED " + i.ev.failed if i.ev.failed else "", {a: terms.show(v, D) for a, v in i.ev.args.items()}, "SOME" if i.some else "")
        if i.chain: print("        for", [terms.show(x, D) for x in i.chain])
        if i.guards: print("        if", [terms.show(x, D) for x in sorted(i.guards)])
