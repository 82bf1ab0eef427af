"""Real-valued expressions (floating point read as exact real arithmetic).

Nodes are hash-consed tuples:
  ('c', Fraction)            constant
  ('v', name)                scalar parameter
  ('i', Poly)                integer expression converted to a real
  ('rd', arr, coords, seq)   array element as of program point seq
  ('cell', arr, coords)      initial array element
  ('+',a,b) ('-',a,b) ('*',a,b) ('/',a,b)
  ('f', name, args)          uninterpreted function (e.g. precision narrowing)
"""
from fractions import Fraction
import struct
from .poly import Poly, mk, psubst, pstr, pvars, peval

_tab = {}


class R:
    __slots__ = ("k", "a", "id", "__weakref__")

    def __repr__(self):
        return rstr(self)


def _node(k, *a):
    key = (k,) + tuple(x.id if isinstance(x, R) else x for x in a)
    if k in ("+", "-", "*", "/"):
        key = (k, a[0].id, a[1].id)
    r = _tab.get(key)
    if r is None:
        r = R()
        r.k = k
        r.a = a
        r.id = len(_tab)
        _tab[key] = r
    return r


def const(x):
    return _node("c", Fraction(x))


ZERO = const(0)
ONE = const(1)


def param(n):
    return _node("v", n)


def intval(p):
    if isinstance(p, int):
        return const(p)
    return _node("i", p)


def rd(arr, coords, seq):
    return _node("rd", arr, tuple(coords), seq)


def cell(arr, coords):
    return _node("cell", arr, tuple(coords))


def uf(name, *args):
    # args are R nodes
    key = ("f", name) + tuple(x.id for x in args)
    r = _tab.get(key)
    if r is None:
        r = R()
        r.k = "f"
        r.a = (name,) + tuple(args)
        r.id = len(_tab)
        _tab[key] = r
    return r


def add(a, b):
    if a.k == "c" and b.k == "c":
        return const(a.a[0] + b.a[0])
    return _node("+", a, b)


def sub(a, b):
    if a.k == "c" and b.k == "c":
        return const(a.a[0] - b.a[0])
    return _node("-", a, b)


def mul(a, b):
    if a.k == "c" and b.k == "c":
        return const(a.a[0] * b.a[0])
    return _node("*", a, b)


def div(a, b):
    if a.k == "c" and b.k == "c" and b.a[0] != 0:
        return const(a.a[0] / b.a[0])
    return _node("/", a, b)


def neg(a):
    if a.k == "c":
        return const(-a.a[0])
    return _node("-", ZERO, a)


_simp = {}


def from_double(x, bits=64):
    """simplest rational that rounds to x"""
    key = (x, bits)
    if key in _simp:
        return _simp[key]
    if x != x or x in (float("inf"), float("-inf")):
        r = uf("nonfinite:" + repr(x))
    else:
        f = Fraction(x)
        rt = (lambda q: float(q)) if bits == 64 else (
            lambda q: struct.unpack("f", struct.pack("f", float(q)))[0])
        best = f
        d = 1
        while d <= 1 << 20:
            q = f.limit_denominator(d)
            if rt(q) == x:
                best = q
                break
            d *= 2
        if best.denominator > 1:
            # smallest denominator
            for dd in range(1, min(best.denominator, 4096) + 1):
                q = f.limit_denominator(dd)
                if rt(q) == x:
                    best = q
                    break
        r = const(best)
    _simp[key] = r
    return r


def rstr(r, depth=6):
    k = r.k
    if k == "c":
        return str(r.a[0])
    if k == "v":
        return r.a[0]
    if k == "i":
        return f"({pstr(r.a[0])})"
    if k in ("rd", "cell"):
        s = f"{r.a[0]}[{','.join(pstr(c) for c in r.a[1])}]"
        return s if k == "cell" else s + f"@{r.a[2]}"
    if k == "f":
        return f"{r.a[0]}({','.join(rstr(x, depth-1) for x in r.a[1:])})"
    if depth <= 0:
        return "..."
    return f"({rstr(r.a[0], depth-1)} {k} {rstr(r.a[1], depth-1)})"


# ---- rational normal form ------------------------------------------------------
# polynomial: dict monomial(tuple of atom keys sorted) -> Fraction


def _padd(a, b, s=1):
    t = dict(a)
    for m, c in b.items():
        n = t.get(m, 0) + s * c
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return t


def _pmul(a, b):
    if len(a) == 1 and () in a:
        k = a[()]
        return {m: c * k for m, c in b.items()} if k else {}
    if len(b) == 1 and () in b:
        k = b[()]
        return {m: c * k for m, c in a.items()} if k else {}
    t = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            n = t.get(m, 0) + c1 * c2
            if n:
                t[m] = n
            else:
                t.pop(m, None)
    return t


class TooBig(Exception):
    pass


def normal(r, memo, intatom, limit=60000):
    """(num, den) over atoms; intatom(Poly) -> canonical Poly"""
    x = memo.get(r.id)
    if x is not None:
        return x
    k = r.k
    one = {(): Fraction(1)}
    if k == "c":
        x = ({(): r.a[0]} if r.a[0] else {}, one)
    elif k == "i":
        p = intatom(r.a[0])
        if isinstance(p, int):
            x = ({(): Fraction(p)} if p else {}, one)
        else:
            x = ({tuple(("I", v) for v in m): Fraction(c) for m, c in p.t.items()}, one)
    elif k == "v":
        x = ({(("v", r.a[0]),): Fraction(1)}, one)
    elif k == "cell":
        cs = tuple(intatom(c) for c in r.a[1])
        x = ({(("z", r.a[0], tuple(_ckey(c) for c in cs)),): Fraction(1)}, one)
    elif k == "rd":
        x = ({(("zrd", r.a[0], tuple(_ckey(intatom(c)) for c in r.a[1]), r.a[2]),): Fraction(1)}, one)
    elif k == "f" and r.a[0] == "sum":
        x = _normal_sum(r, memo, intatom, limit)
    elif k == "f":
        args = []
        for y in r.a[1:]:
            n, d = normal(y, memo, intatom, limit)
            args.append((tuple(sorted((repr(m), c) for m, c in n.items())),
                         tuple(sorted((repr(m), c) for m, c in d.items()))))
        x = ({(("zf", r.a[0], repr(args)),): Fraction(1)}, one)
    else:
        n1, d1 = normal(r.a[0], memo, intatom, limit)
        n2, d2 = normal(r.a[1], memo, intatom, limit)
        if k in "+-":
            s = 1 if k == "+" else -1
            if d1 == d2:
                x = (_padd(n1, n2, s), d1)
            else:
                x = (_padd(_pmul(n1, d2), _pmul(n2, d1), s), _pmul(d1, d2))
        elif k == "*":
            x = (_pmul(n1, n2), _pmul(d1, d2))
        else:
            x = (_pmul(n1, d2), _pmul(d1, n2))
        # cheap cancellation of common monomial factors and scaling
        x = _cancel(*x)
        if len(x[0]) + len(x[1]) > limit:
            raise TooBig()
    memo[r.id] = x
    return x


# sums: uf("sum", count, term); the term is over the bound position `s@`
# (0 <= s@ < count, count > 0) and over offsets named by an expression in it

SUMVARS = set()     # ids of the variables that depend on the bound position


def total(count, term):
    return uf("sum", intval(count), term)


def in_sum(atom):
    k = atom[0]
    if k == "I":
        return atom[1] in SUMVARS
    if k in ("z", "zrd"):
        return any(v in SUMVARS for c in atom[2] for m, _ in [y for y in c if isinstance(y, tuple) and len(y) == 2] for v in m)
    return k != "v"


def _normal_sum(r, memo, intatom, limit):
    """linear: factors that do not depend on the position leave the sum"""
    one = {(): Fraction(1)}
    count, term = r.a[1], r.a[2]
    cn, cd = normal(count, memo, intatom, limit)
    n, d = normal(term, memo, intatom, limit)
    ck = tuple(sorted((repr(m), c) for m, c in cn.items()))
    dk = ()
    if any(in_sum(a) for m in d for a in m):
        if any(len(m) and not all(in_sum(a) for a in m) for m in d):
            raise TooBig()
        dk = tuple(sorted((repr(m), c) for m, c in d.items()))
        d = one
    out = {}
    for m, c in n.items():
        dep = tuple(a for a in m if in_sum(a))
        ind = tuple(a for a in m if not in_sum(a))
        if dep or dk:
            t = {tuple(sorted(ind + (("zsum", ck, repr(dep), dk),))): c}
        else:
            t = _pmul(cn, {ind: c})
        out = _padd(out, t)
    return _cancel(out, _pmul(d, one))


def _ckey(c):
    if isinstance(c, int):
        return ((), c)
    return tuple(sorted((m, k) for m, k in c.t.items()))


def _cancel(n, d):
    if not n:
        return n, {(): Fraction(1)}
    common = None
    for m in list(n) + list(d):
        if common is None:
            common = list(m)
        else:
            mm = list(m)
            c2 = []
            for a in common:
                if a in mm:
                    mm.remove(a)
                    c2.append(a)
            common = c2
        if not common:
            break
    if common:
        def strip(m):
            mm = list(m)
            for a in common:
                mm.remove(a)
            return tuple(mm)
        n = {strip(m): c for m, c in n.items()}
        d = {strip(m): c for m, c in d.items()}
    lead = d[min(d)]
    if lead != 1:
        n = {m: c / lead for m, c in n.items()}
        d = {m: c / lead for m, c in d.items()}
    return n, d


def equal_real(a, b, intatom=lambda p: p):
    if a is b:
        return True
    memo = {}
    n1, d1 = normal(a, memo, intatom)
    n2, d2 = normal(b, memo, intatom)
    if n1 == n2 and d1 == d2:
        return True
    return not _padd(_pmul(n1, d2), _pmul(n2, d1), -1)


def subst_node(r, f_poly, f_read, memo=None):
    """rebuild r with polys mapped by f_poly and reads mapped by
    f_read(kind, arr, coords, seq)"""
    if memo is None:
        memo = {}
    x = memo.get(r.id)
    if x is not None:
        return x
    k = r.k
    if k in ("c", "v"):
        x = r
    elif k == "i":
        x = intval(f_poly(r.a[0]))
    elif k == "rd":
        x = f_read(r.a[0], tuple(f_poly(c) for c in r.a[1]), r.a[2])
    elif k == "cell":
        x = cell(r.a[0], tuple(f_poly(c) for c in r.a[1]))
    elif k == "f":
        x = uf(r.a[0], *[subst_node(y, f_poly, f_read, memo) for y in r.a[1:]])
    else:
        a = subst_node(r.a[0], f_poly, f_read, memo)
        b = subst_node(r.a[1], f_poly, f_read, memo)
        x = {"+": add, "-": sub, "*": mul, "/": div}[k](a, b)
    memo[r.id] = x
    return x


def reads(r, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if r.id in seen:
        return out
    seen.add(r.id)
    if r.k in ("rd", "cell"):
        out.append(r)
    for x in r.a:
        if isinstance(x, R):
            reads(x, out, seen)
    return out


def eval_node(r, env, readf, memo=None):
    """concrete value; env: int vars + scalar params; readf(arr, coords)"""
    if memo is None:
        memo = {}
    x = memo.get(r.id)
    if x is not None:
        return x
    k = r.k
    if k == "c":
        x = r.a[0]
    elif k == "v":
        x = env[r.a[0]]
    elif k == "i":
        x = Fraction(peval(r.a[0], env))
    elif k in ("rd", "cell"):
        x = readf(r.a[0], tuple(peval(c, env) for c in r.a[1]))
    elif k == "f":
        x = eval_node(r.a[1], env, readf, memo)
    else:
        a = eval_node(r.a[0], env, readf, memo)
        b = eval_node(r.a[1], env, readf, memo)
        if k == "+":
            x = a + b
        elif k == "-":
            x = a - b
        elif k == "*":
            x = a * b
        else:
            x = a / b
    memo[r.id] = x
    return x


# ---- divisors ------------------------------------------------------------------

def divisors(r, out=None, seen=None):
    """the divisors of all quotients of r"""
    if out is None:
        out, seen = [], set()
    if r.id in seen:
        return out
    seen.add(r.id)
    if r.k == "/" and r.a[1].k != "c":
        out.append(r.a[1])
    for x in r.a:
        if isinstance(x, R):
            divisors(x, out, seen)
    return out


def _prim(n):
    """polynomial up to a constant factor"""
    m = min(n)
    k = n[m]
    return tuple(sorted((a, c / k) for a, c in n.items()))


def _factors(n):
    """irreducible factors (up to constants): atoms and other polynomials"""
    if not n:
        return None
    ats = set()
    common = None
    for m in n:
        common = list(m) if common is None else [a for a in common if a in m]
    n = dict(n)
    for a in set(common):
        k = min(m.count(a) for m in n)
        ats.add(a)
        t = {}
        for m, c in n.items():
            mm = list(m)
            for _ in range(k):
                mm.remove(a)
            t[tuple(mm)] = c
        n = t
    return ats, (None if len(n) == 1 and () in n else n)


def undefined_more_often(a, b, intatom, nonzero=lambda atom: False, positive=lambda n: False):
    """a divisor of a that may vanish where no divisor of b does, or None"""
    da = divisors(a)
    if not da:
        return None
    memo = {}
    ok_atoms, ok = set(), set()
    rest = []
    for d in divisors(b):
        n, _ = normal(d, memo, intatom)
        f = _factors(n)
        if f is None:
            return None     # b is nowhere defined
        ok_atoms |= f[0]
        if f[1] is not None:
            ok.add(_prim(f[1]))
            rest.append(f[1])
    for d in da:
        n, _ = normal(d, memo, intatom)
        f = _factors(n)
        if f is None:
            return d
        if not all(x in ok_atoms or nonzero(x) for x in f[0]):
            return d
        if f[1] is None or _prim(f[1]) in ok or positive(f[1]):
            continue
        if not _covered(f[1], rest, ok_atoms, nonzero):
            return d
    return None


def _covered(p, rest, ok_atoms, nonzero):
    """every irreducible factor of p divides one of rest"""
    import sympy
    names = {}

    def tos(n):
        e = 0
        for m, c in n.items():
            t = sympy.Rational(c.numerator, c.denominator)
            for a in m:
                t *= names.setdefault(a, sympy.Symbol(f"a{len(names)}"))
            e += t
        return e
    have = set()
    for r in rest:
        for f, _ in sympy.factor_list(tos(r))[1]:
            have.add(f)
            have.add(sympy.expand(-f))
    atoms = {s: a for a, s in names.items()}
    for f, _ in sympy.factor_list(tos(p))[1]:
        if f in have or sympy.expand(-f) in have:
            continue
        atoms = {s: a for a, s in names.items()}
        if f in atoms and (atoms[f] in ok_atoms or nonzero(atoms[f])):
            continue
        if f.is_number:
            continue
        return False
    return True
