"""Concrete replay of a kernel case: the natively compiled real code against
the natively compiled reference routine, on inputs that meet the kernel's
preconditions (from the verifier's counterexample, or sampled)."""
import ctypes
import json
import os
import random
import subprocess
import sys
import time
import z3
from . import build, fp
from .ctx import Ctx, zatom, _zvar
from .poly import Poly, pvars, psubst, var_name, var_id
from .runner import params, split_cases
from .kernels import BY_NAME

TOL = 1e-7


def libs(k, trap=False):
    """shared libraries with the kernel (given by name) and the reference (double);
    trap: signed overflow raises SIGILL"""
    k = BY_NAME[k]
    d = build.scratch()
    so = f"{d}/nat_{k.cpp}{'_trap' if trap else ''}.so"
    if not os.path.exists(so):
        t = f"{so}.{os.getpid()}"
        build.run(["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fopenmp", "-w", *(build.TRAP if trap else ()),
                   "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP", "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP",
                   "-I" + build.REPO + "/src", f"{build.REPO}/src/cuda/{k.cpp}.cpp", "-o", t])
        os.rename(t, so)
    fo = f"{d}/ref_{k.ffile}.so"
    if not os.path.exists(fo):
        build.fortran(k.ffile)
        t = f"{fo}.{os.getpid()}"
        build.run(["gfortran", "-O1", "-fPIC", "-shared", "-w", "-std=legacy", "-ffixed-line-length-none",
                   f"{d}/{k.ffile}.f", "-o", t])
        os.rename(t, fo)
    return so, fo


class Sampler:
    def __init__(self, k, case):
        self.ctx = ctx = Ctx()
        P, atoms = params(ctx, k, case)
        pre = list(k.pre(P)) + atoms
        if k.splits == "bc":
            from .bcpre import bc_pre
            pre += bc_pre(k, P)
        self.setup(k, P, pre)

    def setup(self, k, P, pre):
        self.k = k
        self.P = P
        self.s = z3.Solver()
        self.s.set("timeout", 2000)
        vs = set()

        def walk(a):
            if a[0] in ("or", "and"):
                for x in a[1]:
                    walk(x)
            else:
                vs.update(pvars(a[1]))
        for a in pre:
            walk(a)
            self.s.add(zatom(a))
        for v in list(self.P.values()):
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, Poly):
                    vs |= pvars(x)
        self.vars = sorted(vs, key=var_name)

    def draw(self, rng, fixed):
        s = self.s
        s.push()
        val = {}
        try:
            order = list(self.vars)
            rng.shuffle(order)
            # bounded search space
            s.push()
            for v in order:
                s.add(_zvar(v) >= -8, _zvar(v) <= 12)
            if s.check() != z3.sat:
                s.pop()
                s.push()
            for v in order:
                n = var_name(v)
                if n in fixed:
                    s.push()
                    s.add(_zvar(v) == fixed[n])
                    if s.check() != z3.sat:
                        s.pop()
            for v in order:
                n = var_name(v)
                if n in fixed:
                    continue
                for _ in range(4):
                    x = rng.randint(1, 5) if n[0] == "N" else rng.randint(1, 4) if n in ("exOrder", "r", "intOrder") else \
                        rng.randint(0, 4) if n in ("btype", "gcw", "ugcw", "dgcw", "sgcw") else rng.randint(-3, 6)
                    s.push()
                    s.add(_zvar(v) == x)
                    if s.check() == z3.sat:
                        break
                    s.pop()
            if s.check() != z3.sat:
                return None
            m = s.model()
            for v in self.vars:
                x = m.eval(_zvar(v), model_completion=True)
                val[v] = x.as_long()
            return val
        finally:
            while s.num_scopes():
                s.pop()

    def concrete(self, val):
        """parameter list for the native calls, and array shapes"""
        def c(p):
            if isinstance(p, int):
                return p
            r = psubst(p, val)
            assert isinstance(r, int), r
            return r
        out = []
        for n, kd in self.k.params:
            v = self.P[n]
            if kd == "i":
                out.append([n, kd, c(v)])
            elif kd == "ia":
                out.append([n, kd, [c(x) for x in v]])
            elif kd == "a":
                out.append([n, kd, [[c(l), c(e)] for l, e in self.k.arrays[n](self.P)]])
            else:
                out.append([n, kd, None])
        return out


def guarded(size, how, keep):
    """storage that ends (1) or begins (2) at an inaccessible page"""
    import mmap
    import numpy as np
    ps = mmap.PAGESIZE
    pages = (size * 8 + ps - 1) // ps or 1
    m = mmap.mmap(-1, (pages + 2) * ps)
    keep.append(m)
    base = ctypes.addressof(ctypes.c_char.from_buffer(m))
    libc = ctypes.CDLL(None)
    libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
    off = ps + (pages * ps - size * 8 if how == 1 else 0)
    a = np.frombuffer(m, dtype=np.float64, count=size, offset=off)
    for p in (base, base + (pages + 1) * ps):
        if libc.mprotect(p, ps, 0):
            raise OSError("mprotect")
    return a


def native(spec):
    """run one concrete input (in a child process); returns the outcome"""
    import numpy as np
    rng = np.random.default_rng(spec["seed"])
    so = ctypes.CDLL(spec["so"])
    fo = ctypes.CDLL(spec["fo"])
    cf = getattr(so, spec["sym"])
    ff = getattr(fo, spec["frout"].lower() + "_")
    PAD = 512
    CAN = -7.7e33
    keep = []
    mode = spec.get("mode", "full")
    tol = spec.get("tol", TOL)
    orders = [0]
    if mode == "race":
        orders = [0, 1, 2]
        sched = ctypes.c_int.in_dll(ctypes.CDLL(None), "vf_order")
    guard = spec["seed"] % 2 + 1 if mode == "mem" else 0
    if guard:
        PAD = 0
    A = {}
    special = False
    ca, fa = [], []
    for n, kd, v in spec["params"]:
        if kd == "i":
            x, y = ctypes.c_int(v), ctypes.c_int(v)
            keep += [x, y]
            ca.append(ctypes.byref(x))
            fa.append(ctypes.byref(y))
        elif kd == "ia":
            x = (ctypes.c_int * len(v))(*v)
            y = (ctypes.c_int * len(v))(*v)
            keep += [x, y]
            ca.append(x)
            fa.append(y)
        elif kd == "r":
            t = float(rng.uniform(0.5, 2) * rng.choice([1, -1]))
            if n in spec.get("fixedreals", {}):
                t = spec["fixedreals"][n]
            elif rng.integers(5) == 0:
                # values at which a shortcut may be taken
                t = float(rng.choice([0, 0, 1, -1, 2]))
            special |= t == 0
            x, y = ctypes.c_double(t), ctypes.c_double(t)
            spec["reals"][n] = t
            keep += [x, y]
            ca.append(ctypes.byref(x))
            fa.append(ctypes.byref(y))
        else:
            size = 1
            for l, e in v:
                size *= max(e, 0)
            if size > 400000:
                return {"skip": "size"}
            # positive data: denominators of the elimination formulas stay away from zero
            b = rng.uniform(0.5, 2, size)
            if n not in ("dx",) and not n.startswith(("b", "d")):
                b *= rng.choice([1.0, -1.0], size)
            if rng.integers(6) == 0 and size:
                # equal and vanishing elements (mesh widths stay positive)
                b = rng.choice([1.0, 0.5] if n == "dx" else [0.0, 1.0, 2.0, 1.0] if n.startswith(("b", "d")) else [0.0, 1.0, -1.0, 2.0], size)
                special |= n != "dx"
            x = guarded(size, guard, keep) if guard else np.full(size + 2 * PAD, CAN)
            x[PAD:PAD + size] = b
            y = np.array(x)
            A[n] = (v, x, y, b, size)
            ca.append(ctypes.c_void_p(x.ctypes.data + 8 * PAD))
            fa.append(ctypes.c_void_p(y.ctypes.data + 8 * PAD))
    cf.restype = None
    ff.restype = None
    if mode == "race":
        res = []
        for o in orders:
            sched.value = o
            for n, (dims, x, y, b, size) in A.items():
                x[PAD:PAD + size] = b
            cf(*ca)
            res.append({n: x.copy() for n, (dims, x, y, b, size) in A.items()})
        for n, (dims, x, y, b, size) in A.items():
            for o in (1, 2):
                d = res[0][n] != res[o][n]
                d &= ~(np.isnan(res[0][n]) & np.isnan(res[o][n]))
                if d.any():
                    i = int(np.argmax(d))
                    return {"violated": f"the result depends on the order of the parallel iterations: element {i - PAD} of {n} is "
                            f"{res[0][n][i]!r} in ascending order and {res[o][n][i]!r} " + ("in descending order" if o == 1 else "with odd blocks first"),
                            "array": n}
        return {"ok": 1}
    cf(*ca)
    if mode == "overflow":
        return {"ok": 1}
    ff(*fa)
    for n, (dims, x, y, b, size) in A.items():
        if PAD and ((x[:PAD] != CAN).any() or (x[PAD + size:] != CAN).any()):
            return {"violated": f"the real code writes outside array {n}", "array": n}
        if n not in spec["writes"] and (x[PAD:PAD + size] != b).any():
            return {"violated": f"the real code writes the input array {n}", "array": n}
        u, w = x[PAD:PAD + size], y[PAD:PAD + size]
        bad = ~(np.abs(u - w) <= tol * (1 + np.abs(u) + np.abs(w)))
        bad &= ~(np.isnan(u) & np.isnan(w))
        if special:
            bad &= np.isfinite(w)
        if bad.any():
            o = int(np.argmax(bad))
            c = []
            t = o
            for l, e in dims:
                c.append(l + t % e)
                t //= e
            return {"violated": f"{n}({','.join(map(str, c))}) is {u[o]!r}, the reference gives {w[o]!r} (was {b[o]!r})",
                    "array": n, "cell": c}
    return {"ok": 1}


def search(kname, case, model, seed, n, budget=60.0, mode="full", preload=None, reals=None):
    """first concrete violation among n inputs: (spec, outcome) or None; the
    number of inputs run"""
    k = BY_NAME[kname]
    so, fo = libs(kname, mode == "overflow")
    syms = build.run(["nm", "-D", "--defined-only", so]).split("\n")
    sym = [l.split()[-1] for l in syms if l.split() and l.split()[-1].startswith(k.symbol("d"))]
    if len(sym) != 1:
        raise build.BuildError("entry point not found natively: " + k.symbol("d"))
    sm = Sampler(k, case)
    rng = random.Random(seed)
    t0 = time.time()
    run = 0
    specs = []
    fixed = {a: b for a, b in (model or {}).items() if "!" not in a}
    for it in range(n):
        val = sm.draw(rng, fixed if it < 4 else {})
        if val is None:
            continue
        specs.append(dict(so=so, fo=fo, sym=sym[0], frout=k.frout, params=sm.concrete(val), writes=sorted(k.writes),
                          seed=seed * 1000 + it, reals={}, kernel=kname, case=repr(case), mode=mode,
                          tol=1e-9 if model else TOL, fixedreals=reals if reals and it % 2 == 0 else {}))
        if len(specs) >= 8 or it == n - 1:
            for s, o in batch(specs, preload):
                run += 1
                if "violated" in o:
                    return (s, o), run
            specs = []
        if time.time() - t0 > budget:
            break
    return None, run


def batch(specs, preload=None):
    p = subprocess.Popen([sys.executable, "-m", "vlib.kreplay"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                         env=dict(os.environ, OMP_NUM_THREADS="2", **({"LD_PRELOAD": preload, "OPENBLAS_NUM_THREADS": "1"} if preload else {})))
    try:
        out, _ = p.communicate(json.dumps(specs), timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
    res = [json.loads(l) for l in out.split("\n") if l.startswith("{")]
    r = list(zip(specs, res))
    if len(res) < len(specs) and specs[0]["mode"] == "overflow":
        r.append((specs[len(res)], {"violated": "a 32-bit sum, difference or product overflows (signal 4 of the overflow trap)"}
                  if p.returncode == -4 else {"skip": "no verdict"}))
        return r
    if len(res) < len(specs):
        r.append((specs[len(res)], {"violated": f"the native run ended with status {p.returncode} (crash or no termination)"}))
    return r


if __name__ == "__main__":
    for s in json.load(sys.stdin):
        o = native(s)
        o["reals"] = s["reals"]
        print(json.dumps(o), flush=True)
