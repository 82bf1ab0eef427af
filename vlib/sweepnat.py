"""Concrete runs of the smoothing sweeps and stencil applications: the natively
compiled routine against a direct evaluation of the contract."""
import ctypes
import itertools
import json
import os
import random
import subprocess
import sys
import time
from . import build
from .kreplay import guarded
from .poly import Poly, psubst, var_id
from .sweep import COMPACT, lookup, omega

STUB = "".join(f"void {n}_(void){{__builtin_trap();}}\n" for n in
               ("dgesv", "dgetrf", "dgetrs", "dgetri", "dgemv", "dgemm", "dgels", "dpotrf", "dpotrs"))


def library(ffile):
    d = build.scratch()
    so = f"{d}/sweep_{ffile}.so"
    if not os.path.exists(so):
        build.fortran(ffile)
        t = f"{so}.{os.getpid()}"
        with open(t + ".c", "w") as f:
            f.write(STUB)
        build.run(["gfortran", "-O1", "-fPIC", "-shared", "-w", "-std=legacy", "-ffixed-line-length-none",
                   f"{d}/{ffile}.f", t + ".c", "-o", t])
        os.rename(t, so)
    return so


def _val(p, X):
    if isinstance(p, int):
        return p
    r = psubst(p, {var_id(n): v for n, v in X.items()})
    assert isinstance(r, int), r
    return r


def draw(k, rng, fixed=None):
    """values of the free integer variables and the offsets"""
    if hasattr(k, "draw"):
        return k.draw(rng, fixed)
    X = {}
    for n, lo in k.ints():
        if n[0] == "N":
            X[n] = rng.choice([1, 1, 2, 3, 4, 5] if k.nd < 3 else [1, 2, 3, 4])
        elif lo is None:
            X[n] = rng.randint(-6, 6)
        elif n in ("n", "m"):
            X[n] = lo + rng.choice([0, 1, 1, 2, 3, 4, 6])
        elif n == "color":
            X[n] = rng.randint(0, 1)
        else:
            X[n] = lo + rng.choice([0, 0, 1, 1, 2, 3])
    for n, v in (fixed or {}).items():
        if n in X and abs(v) <= 60:
            X[n] = v
    for n, lo in k.ints():
        if lo is not None and X[n] < lo or n[0] == "N" and X[n] > 60:
            return None
    if hasattr(k, "repair"):
        k.repair(X)
    if "m" in X:
        X["n"] = max(X["n"], X["m"])
    if k.kind == "point" :
        for d in range(k.nd):
            if not X[f"lo{d}"] <= X[f"p{d}"] < X[f"lo{d}"] + X[f"N{d}"]:
                X[f"p{d}"] = X[f"lo{d}"] + rng.randrange(X[f"N{d}"])
    P = k.bind(X)
    lo, hi = k.offsets(P)
    n = P.get("m", P.get("n", 0))
    off = [[rng.randint(max(lo[d], -3), min(hi[d], 3)) for d in range(k.nd)] for _ in range(n)]
    if off and rng.random() < 0.5:
        off[0] = [0] * k.nd
    return X, off


def expected(k, P, off, A, dims, real):
    """the contract, evaluated cell by cell.  A: name -> flat values (Fortran order)"""
    A = {n: list(v) for n, v in A.items()}

    def pos(n, c):
        i, st = 0, 1
        for (l, e), x in zip(dims[n], c):
            if not 0 <= x - l < e:
                raise IndexError((n, c))
            i += (x - l) * st
            st *= e
        return i

    def rd(n, *c):
        return A[n][pos(n, c)]
    if hasattr(k, "evaluate"):
        def wr(n, c, v):
            A[n][pos(n, c)] = v
        k.evaluate(P, off, rd, wr, real)
        return A
    if k.kind == "point":
        cells = [tuple(P[f"p{d}"] for d in range(k.nd))]
    else:
        cells = [tuple(reversed(c)) for c in itertools.product(*[range(P[f"lo{d}"], P[f"hi{d}"] + 1) for d in reversed(range(k.nd))])]
    if "color" in P:
        cells = [c for c in cells if (sum(c) - P["lo0"] + P["color"]) % 2 == 0]
    new = []
    w = float(omega(k.nd))

    def tot(c, first, count):
        return sum(rd("st", s, *c) * rd("u", *[x + o for x, o in zip(c, off[s])]) for s in range(first, first + count))
    for c in cells:
        if k.kind in ("apply", "point"):
            A["r"][pos("r", c)] = real["b"] * rd("f", *c) + real["a"] * tot(c, 0, P["n"])
        elif k.kind == "adjust":
            A["f"][pos("f", c)] += tot(c, 0, P["m"])
        elif k.kind == "jacobi":
            new.append((pos("u", c), rd("u", *c) + w * (rd("f", *c) - tot(c, 0, P["n"])) / rd("st", 0, *c)))
        elif k.kind in ("gs", "rb"):
            A["u"][pos("u", c)] = (rd("f", *c) - tot(c, 1, P["n"] - 1)) / rd("st", 0, *c)
        elif k.kind in COMPACT:
            r = rd("f", *c)
            for i, o in enumerate(COMPACT[k.kind]):
                r -= rd("st", i + 1, *c) * rd("u", *[x + y for x, y in zip(c, o)])
            A["u"][pos("u", c)] = r / rd("st", 0, *c)
        elif k.kind == "b1":
            A["u"][pos("u", c)] += w * rd("f", *c) / rd("st", *c)
        else:
            a = [rd("st", i, *c) for i in range(4)]
            f = [rd("f0", *c), rd("f1", *c)]
            det = a[0] * a[3] - a[1] * a[2]
            A["u0"][pos("u0", c)] += w * (a[3] * f[0] - a[1] * f[1]) / det
            A["u1"][pos("u1", c)] += w * (a[0] * f[1] - a[2] * f[0]) / det
    for p, v in new:
        A["u"][p] = v
    return A


def native(spec):
    import numpy as np
    k = lookup(spec["routine"])
    rng = np.random.default_rng(spec["seed"])
    P = k.bind(spec["ints"])
    off = spec["off"]
    f = getattr(ctypes.CDLL(spec["so"]), k.routine + "_")
    f.restype = None
    PAD, CAN = 512, -7.7e33
    guard = spec["seed"] % 3
    if guard:
        PAD = 0
    keep, args, A, dims, init, real = [], [], {}, {}, {}, {}
    for n, kd in k.params():
        if kd == "i":
            x = ctypes.c_int(P[n])
        elif kd == "o":
            flat = [y for o in off for y in o] or [0]
            if guard:
                m = guarded((len(flat) + 1) // 2, 2, keep)
                x = (ctypes.c_int * len(flat)).from_address(m.ctypes.data)
                x[:] = flat
            else:
                x = (ctypes.c_int * len(flat))(*flat)
        elif kd == "r":
            real[n] = float(rng.choice([0.0, 1.0, -1.0, rng.uniform(-2, 2), rng.uniform(-2, 2)]))
            x = ctypes.c_double(real[n])
        else:
            dims[n] = k.dims(n, P)
            size = 1
            for _, e in dims[n]:
                size *= max(e, 0)
            if size > 200000:
                return {"skip": "size"}
            b = rng.uniform(-1, 1, size)
            if n == "dx" or k.kind == "ntwin" and n[0] == "b":
                b = abs(b) + 0.25
            elif n == "st" and k.kind[0] != "n":
                e = k.entries(P)
                b = b if e is None else b.reshape(-1, e) if e else b
                if e is None:
                    b = b + 2 * np.sign(b)
                elif k.kind == "b2":
                    b[:, 0] += 3
                    b[:, 3] += 3
                elif e:
                    b[:, 0] += 2 * np.sign(b[:, 0])
                b = b.reshape(-1)
            v = guarded(size, guard, keep) if guard else np.full(size + 2 * PAD, CAN)
            v[PAD:PAD + size] = b
            A[n], init[n] = v, b
            x = ctypes.c_void_p(v.ctypes.data + 8 * PAD)
        keep.append(x)
        args.append(x if isinstance(x, (ctypes.c_void_p, ctypes.Array)) else ctypes.byref(x))
    want = k.run_reference(spec["ref"], P, init, real) if "ref" in spec else expected(k, P, off, init, dims, real)
    print(json.dumps({"start": 1}), flush=True)
    f(*args)
    ws = k.writes()
    for n, v in A.items():
        size = len(init[n])
        if PAD and ((v[:PAD] != CAN).any() or (v[PAD + size:] != CAN).any()):
            return {"violated": f"the real code writes outside array {n}", "array": n}
        got = v[PAD:PAD + size]
        if n not in ws and (got != init[n]).any():
            return {"violated": f"the real code writes the input array {n}", "array": n}
        w = np.array(want[n]) if size else got
        bad = ~(np.abs(got - w) <= 1e-6 * (1 + np.abs(got) + np.abs(w)))
        if bad.any():
            o = t = int(np.argmax(bad))
            c = []
            for l, e in dims[n]:
                c.append(l + t % e)
                t //= e
            return {"violated": f"{n}({','.join(map(str, c))}) is {float(got[o])!r}, the contract gives {float(w[o])!r} (was {float(init[n][o])!r})",
                    "array": n, "cell": c}
    for n, kd in k.params():
        pass
    return {"ok": 1}


def search(name, model, seed, n, budget=60.0):
    """(specification of the failing run, outcome) or None, and the number of runs"""
    k = lookup(name)
    so = library(k.ffile)
    ref = dict(ref=k.library()) if hasattr(k, "library") else {}
    rng = random.Random(seed)
    fixed = {a: b for a, b in (model or {}).items() if isinstance(b, int)}
    t0 = time.time()
    run = 0
    specs = []
    for it in range(n):
        x = draw(k, rng, fixed if it < 12 else None)
        if x is not None:
            specs.append(dict(routine=name, so=so, ints=x[0], off=x[1], seed=seed * 1000 + it, **ref))
        if len(specs) >= 25 or it == n - 1 and specs:
            out = batch(specs)
            for s, o in zip(specs, out):
                run += "ok" in o or "violated" in o
                if "violated" in o:
                    return (s, o), run
            specs = []
        if time.time() - t0 > budget:
            break
    return None, run


def batch(specs):
    p = subprocess.Popen([sys.executable, "-m", "vlib.sweepnat"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                         env=dict(os.environ, OMP_NUM_THREADS="1"))
    try:
        out, _ = p.communicate(json.dumps(specs), timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
    res = [json.loads(l) for l in out.split("\n") if l.startswith("{")]
    done = [o for o in res if "start" not in o]
    if len(done) < len(specs):
        # the call itself ended the process, or something before it did
        if res and "start" in res[-1]:
            done.append({"violated": f"the native run ended with status {p.returncode} (invalid access or no termination)"})
        else:
            raise build.BuildError(f"native run: status {p.returncode}")
    return done


if __name__ == "__main__":
    for s in json.load(sys.stdin):
        print(json.dumps(native(s)), flush=True)
