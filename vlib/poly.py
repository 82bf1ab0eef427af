"""Multivariate integer polynomials over named integer variables.

A Poly is immutable; monomials are sorted tuples of variable ids (with
repetition).  Concrete integers are kept as python ints wherever possible:
`mk` collapses constant polynomials.
"""
from __future__ import annotations

_names = []
_ids = {}


def var_id(name):
    i = _ids.get(name)
    if i is None:
        i = len(_names)
        _names.append(name)
        _ids[name] = i
    return i


def var_name(i):
    return _names[i]


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(frozenset(self.t.items()))
        return h

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.t == o.t
        return False

    def __add__(self, o):
        return padd(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(o, -1))

    def __rsub__(self, o):
        return padd(pscale(self, -1), o)

    def __mul__(self, o):
        return pmul(self, o)

    __rmul__ = __mul__

    def __neg__(self):
        return pscale(self, -1)

    def __repr__(self):
        return pstr(self)


def mk(t):
    """t: dict without zero coefs -> int or Poly"""
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def V(name):
    return Poly({(var_id(name),): 1})


def padd(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        t = dict(a.t)
        c = t.get((), 0) + b
        if c:
            t[()] = c
        else:
            del t[()]
        return mk(t)
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + c
        if n:
            t[m] = n
        else:
            del t[m]
    return mk(t)


def pscale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()})


def psub(a, b):
    return padd(a, pscale(b, -1))


def pmul(a, b):
    if isinstance(a, int):
        return pscale(b, a)
    if isinstance(b, int):
        return pscale(a, b)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            n = t.get(m, 0) + c1 * c2
            if n:
                t[m] = n
            else:
                t.pop(m, None)
    return mk(t)


def pstr(a):
    if isinstance(a, int):
        return str(a)
    out = []
    for m, c in sorted(a.t.items(), key=lambda x: (-len(x[0]), x[0])):
        s = "*".join(_names[v] for v in m)
        if not s:
            out.append(f"{c:+d}")
        elif c == 1:
            out.append("+" + s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(f"{c:+d}*{s}")
    r = "".join(out)
    return r[1:] if r.startswith("+") else r


def pvars(a):
    if isinstance(a, int):
        return set()
    s = set()
    for m in a.t:
        s.update(m)
    return s


def pcoef(a, vid):
    """coefficient of the linear monomial vid, or None if vid also occurs
    in a nonlinear monomial"""
    if isinstance(a, int):
        return 0
    c = 0
    for m, k in a.t.items():
        if vid in m:
            if len(m) == 1:
                c = k
            else:
                return None
    return c


def psubst(a, sub):
    """sub: dict var id -> int|Poly, applied simultaneously"""
    if isinstance(a, int) or not sub:
        return a
    hit = False
    for m in a.t:
        for v in m:
            if v in sub:
                hit = True
                break
        if hit:
            break
    if not hit:
        return a
    acc = {}
    for m, c in a.t.items():
        p = c
        rest = []
        for v in m:
            if v in sub:
                p = pmul(p, sub[v])
                if p == 0 and isinstance(p, int):
                    break
            else:
                rest.append(v)
        if isinstance(p, int) and p == 0:
            continue
        if rest:
            p = pmul(p, Poly({tuple(rest): 1}))
        if isinstance(p, int):
            it = (((), p),)
        else:
            it = p.t.items()
        for mm, cc in it:
            n = acc.get(mm, 0) + cc
            if n:
                acc[mm] = n
            else:
                acc.pop(mm, None)
    return mk(acc)


def peval(a, env):
    """env: dict var name -> int"""
    if isinstance(a, int):
        return a
    r = 0
    for m, c in a.t.items():
        p = c
        for v in m:
            p *= env[_names[v]]
        r += p
    return r


def _mono_div(m, d):
    """m / d for monomials, or None"""
    m = list(m)
    for v in d:
        try:
            m.remove(v)
        except ValueError:
            return None
    return tuple(m)


def pdivmod_lt(a, d, lt):
    """divide a by d with respect to the chosen leading monomial lt of d
    (coefficient must divide).  Returns (q, r) with a == q*d + r."""
    if isinstance(a, int):
        return 0, a
    lc = d.t[lt]
    q = 0
    guard = 0
    while not isinstance(a, int):
        hit = None
        for m in sorted(a.t, key=lambda m: (-len(m), m)):
            k = _mono_div(m, lt)
            if k is not None:
                c = a.t[m]
                if c % lc == 0:
                    hit = (k, c // lc)
                    break
        if hit is None:
            break
        term = mk({hit[0]: hit[1]})
        q = padd(q, term)
        a = psub(a, pmul(term, d))
        guard += 1
        if guard > 200:
            return None
    return q, a


def pexactdiv(a, d):
    """a/d when d divides a exactly as polynomials, else None"""
    if isinstance(d, int):
        if d == 0:
            return None
        if isinstance(a, int):
            return a // d if a % d == 0 else None
        if all(c % d == 0 for c in a.t.values()):
            return mk({m: c // d for m, c in a.t.items()})
        return None
    if isinstance(a, int):
        return 0 if a == 0 else None
    # lex leading monomial
    lt = max(d.t, key=lambda m: (len(m), m))
    r = pdivmod_lt(a, d, lt)
    if r is not None and isinstance(r[1], int) and r[1] == 0:
        return r[0]
    return None
