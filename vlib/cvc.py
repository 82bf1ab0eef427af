"""cvc5 back end (Python API shipped in the tooling venv)."""
from .poly import var_name, pvars
try:
    import cvc5
    from cvc5 import Kind
except Exception:  # pragma: no cover
    cvc5 = None


def cvc_entails(facts, rules, negated, timeout_s):
    """True iff facts /\\ rules /\\ negated is unsat"""
    if cvc5 is None:
        return None
    tm = cvc5.TermManager()
    s = cvc5.Solver(tm)
    s.setOption("tlimit-per", str(int(timeout_s * 1000)))
    s.setLogic("QF_NIA")
    I = tm.getIntegerSort()
    vs = {}

    def var(v):
        if v not in vs:
            vs[v] = tm.mkConst(I, "v%d" % v)
        return vs[v]

    def num(n):
        return tm.mkInteger(n)

    def poly(p):
        if isinstance(p, int):
            return num(p)
        ts = []
        for m, c in p.t.items():
            fs = [var(v) for v in m]
            if c != 1 or not fs:
                fs.insert(0, num(c))
            ts.append(fs[0] if len(fs) == 1 else tm.mkTerm(Kind.MULT, *fs))
        return ts[0] if len(ts) == 1 else tm.mkTerm(Kind.ADD, *ts)

    def atom(a):
        k, p = a
        if k in ("or", "and"):
            xs = [atom(x) for x in p]
            if len(xs) == 1:
                return xs[0]
            return tm.mkTerm(Kind.OR if k == "or" else Kind.AND, *xs)
        e = poly(p)
        if k == "ge":
            return tm.mkTerm(Kind.GEQ, e, num(0))
        t = tm.mkTerm(Kind.EQUAL, e, num(0))
        return t if k == "eq" else tm.mkTerm(Kind.NOT, t)

    for f in facts:
        s.assertFormula(atom(f))
    for v, r in rules.items():
        s.assertFormula(tm.mkTerm(Kind.EQUAL, var(v), poly(r)))
    s.assertFormula(atom(negated))
    try:
        r = s.checkSat()
    except Exception:
        return None
    if r.isUnsat():
        return True
    if r.isSat():
        return False
    return None
