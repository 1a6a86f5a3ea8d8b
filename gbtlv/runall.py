"""developer driver: verify all instances of the named functions in parallel"""
import sys, time, multiprocessing as mp
import z3, theory as th, specs as sp, cast as ca, symex as sx, contracts as co, verify as vf, index
from z3 import IntVal
from proofs import find
import re
def brief(t):
    t = re.sub(r"grb::|backend::|gv::|, SparseTag, DirectedMatrixTag|, grb::SparseTag, grb::DirectedMatrixTag|const |void ", "", t or "")
    return re.sub(r"LilSparseMatrix|BitmapSparseVector", lambda m: m.group(0)[:3], t).replace(" &", "")
def one(i):
    q, d, b = JOBS[i]
    try: r = vf.verify(IX, d, b, timeout=TO)
    except Exception as e:
        import traceback; return (i, 0, [("EXC", repr(e), 0, traceback.format_exc()[-1800:])], 0, None)
    bad = [(o.kind, o.label, o.line, o.fn) for o in r.obls if (o.status != "proved") != (o.kind == "vacuity")]
    return (i, len(r.obls), bad, r.time, r.unsupported)
if __name__ == "__main__":
    plat = "sequential"; tu = "/verif/gbtlv/tu_all.cpp"; names = []; TO = 4000; maxn = None; pat = None; sel = []
    for a in sys.argv[1:]:
        if a.startswith("--plat="): plat = a[7:]
        elif a.startswith("--tu="): tu = a[5:]
        elif a.startswith("--to="): TO = int(a[5:])
        elif a.startswith("--max="): maxn = int(a[6:])
        elif a.startswith("--pat="): pat = a[6:]
        elif a.startswith("--sel="):
            import proofs; sel = ["-DGV_SEL=%d" % proofs.sel(a[6:].split(","))]
        else: names.append(a)
    t0 = time.time()
    IX = index.Index(ca.load(tu, plat, "grb", sel)); sp.MERGE, sp.REPLACE = IntVal(0), IntVal(1)
    JOBS = [j for j in find(IX, names) if pat is None or re.search(pat, brief(j[1].type))]
    if maxn:
        c = {}; J = []
        for j in JOBS:
            c[j[0]] = c.get(j[0], 0) + 1
            if c[j[0]] <= maxn: J.append(j)
        JOBS = J
    print("load %.1fs, %d jobs" % (time.time() - t0, len(JOBS)))
    tot = 0; okn = 0
    with mp.get_context("fork").Pool(8, maxtasksperchild=4) as p:
        for i, n, bad, t, un in p.imap_unordered(one, range(len(JOBS))):
            q, d, b = JOBS[i]; tot += n
            if not bad and not un and n: okn += 1
            else:
                print("#%d %s %s: %d obls %.1fs %s" % (i, q, brief(d.type)[:300], n, t, un))
                for x in bad[:10]: print("     NOT", *x)
            if t > 20: print("  slow", q, brief(d.type)[:160], round(t, 1))
    print("ok %d/%d, %d obligations, %.1fs" % (okn, len(JOBS), tot, time.time() - t0))
