"""debug: show.py FN... : traces / calls of functions"""
import sys
from lib import *
F = Facts(sys.argv[1])
for n in sys.argv[2:]:
    tr = n.startswith("t:"); n = n.split(":", 1)[1] if tr or n.startswith("c:") else n
    b0 = F.fn(n); b = prep(b0)
    print("==", b0.path, b0.where(), len(b.blocks), "blocks")
    if tr:
        for t in traces(b): print('   ', [(show(c[0], b), c[1], sorted(map(str, c[2]))) for c in t.conds], '=>', t.end, show(t.result, b) if t.result else None, "| W", [(show(a, b), show(v, b)) for a, v in t.writes], "| E", [e[0].split("::")[-1] for e in t.events])
    else:
        for c in b.calls(): print("   bb%d" % c.bb, c.fn, [show(a, b) for a in c.args()], "| G", [(show(g[0], b), g[1], sorted(map(str, g[2]))) for g in b.guards(c.bb)])
