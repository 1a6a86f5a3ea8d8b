"""Contracts on the front-end operations grb::mxm .. grb::kronecker: the backend's
contract, with every shape requirement turned into "throws DimensionException
exactly when it is violated, and then nothing has changed"."""
from z3 import And, Or, Not, BoolVal
import contracts as co, contracts_ext as xt, contracts_asg as xa
from contracts import Eff, FRONT, isvec
from symex import Obj, Ref, LV, Unsupported
import cast as ca

def rejecting(spec):
    def f(cx):
        e = spec(cx)
        e.shapes = e.shapes + getattr(e, "toolong", [])
        rest = e.throws; e.throws = []; due = BoolVal(False)
        for exc, conds in (("DimensionException", e.shapes), ("InvalidIndexException", e.indexes)):
            e.requires = [(l, f) for l, f in e.requires if not any(f is g for _, g in conds)]
            if conds:
                bad = Not(And(*[f for l, f in conds])); e.throws.append((exc, And(Not(due), bad))); due = Or(due, bad)
        for exc, c in rest: e.throws.append((exc, And(Not(due), c)))
        e.partial = False
        return e
    return f
def front(name, spec, match=None): FRONT.setdefault(("", name), []).append((rejecting(spec), ("C19",), match))
def nparams(*k): return lambda q, d, a, this, eng, st: len(ca.params(d)) in k
def isobj(cx, i):
    v = cx.args[i]
    if isinstance(v, Ref): v = v.lv
    if isinstance(v, LV) and not isinstance(v, Obj): v = cx.e.rv(cx.st, v)
    return isinstance(v, Obj)

for n, f in [("mxm", co._mxm), ("mxv", co._mxv), ("vxm", co._vxm), ("eWiseAdd", co._ewise(co.sp.EOR)), ("eWiseMult", co._ewise(co.sp.EAND))]: front(n, f)
front("transpose", co._transpose, nparams(5))
un, b1, b2 = co._applyc("un"), co._applyc("1st"), co._applyc("2nd")
def _apply(cx):
    if len(ca.params(cx.decl)) == 6: return un(cx)
    return b2(cx) if isobj(cx, 4) else b1(cx)
front("apply", _apply)
def _reduce(cx):
    if len(ca.params(cx.decl)) == 6: return co._reduce(cx)
    return co._rvs(cx) if isvec(cx, 3) else co._rms(cx)
front("reduce", _reduce)
front("extract", xt._extract)
def _assign(cx):
    if isobj(cx, 3): return xa._assign(cx)
    return xa._acvec(cx) if isvec(cx, 0) else xa._acmat(cx)
front("assign", _assign)
