"""Contracts on the boundary adjustments of node-centred stencils (Fortran only):
on the same data, the final state is that of the cell-centred routine of the same
name applied to a stencil without ghost layer.  The cell-centred routines are the
references of the kernels under C15."""
import ctypes
import os
from . import build, fp, kernels, runner
from .ctx import Unsupported, NE
from .poly import V, Poly, var_name
from .sweep import Sweep, SweepExec

# Dirichlet, second order, side 1: the cell-centred 2D text adjusts the entry of the
# ghost cell (precondition sgcw >= 1 of the kernel), the 3D text takes the coefficient
# of the next face.  A node stencil has no ghost layer: the adjustment belongs to the
# entry next to the face, with the face's coefficient.
DIRICHLET = {2: """
      subroutine dirichlet({})
      implicit none
      integer i0,j0,i1,j1,pi0,pj0,pi1,pj1,dir,side,btype,exorder,sgcw
      double precision dx(0:1),beta
      double precision b0(i0:i1+1,j0:j1),b1(j0:j1+1,i0:i1)
      double precision st(0:4,i0:i1,j0:j1)
      integer i,j
      if (dir.eq.0) then
        do j=pj0,pj1
          st(0,pi0-1,j)=st(0,pi0-1,j)+beta*b0(pi0,j)/(3.0d0*(dx(0)**2))
        enddo
      else
        do i=pi0,pi1
          st(0,i,pj0-1)=st(0,i,pj0-1)+beta*b1(pj0,i)/(3.0d0*(dx(1)**2))
        enddo
      endif
      end
""", 3: """
      subroutine dirichlet({})
      implicit none
      integer i0,j0,k0,i1,j1,k1,pi0,pj0,pk0,pi1,pj1,pk1
      integer dir,side,btype,exorder,sgcw
      double precision dx(0:2),beta
      double precision b0(i0:i1+1,j0:j1,k0:k1)
      double precision b1(j0:j1+1,k0:k1,i0:i1)
      double precision b2(k0:k1+1,i0:i1,j0:j1)
      double precision st(0:6,i0:i1,j0:j1,k0:k1)
      integer i,j,k
      if (dir.eq.0) then
        do k=pk0,pk1
          do j=pj0,pj1
            st(0,pi0-1,j,k)=st(0,pi0-1,j,k)+beta*b0(pi0,j,k)/(3.0d0*(dx(0)**2))
          enddo
        enddo
      else if (dir.eq.1) then
        do k=pk0,pk1
          do i=pi0,pi1
            st(0,i,pj0-1,k)=st(0,i,pj0-1,k)+beta*b1(pj0,k,i)/(3.0d0*(dx(1)**2))
          enddo
        enddo
      else
        do j=pj0,pj1
          do i=pi0,pi1
            st(0,i,j,pk0-1)=st(0,i,j,pk0-1)+beta*b2(pk0,i,j)/(3.0d0*(dx(2)**2))
          enddo
        enddo
      endif
      end
"""}


class Twin(Sweep):
    seq = False

    def __init__(self, k, case, special=None):
        self.k = k
        self.case = case
        self.special = special      # None, or whether this is the case of its own (btype 0, exOrder 2)
        self.routine = k.frout.replace("cell", "node").lower()
        tag = ",".join(f"{a}={b}" for a, b in case.items()) + {None: "", True: ",dirichlet", False: ",other"}[special]
        super().__init__(f"{self.routine}[{tag}]", k.ffile.replace("cell", "node"), k.dim, "ntwin")
        self.routine = k.frout.replace("cell", "node").lower()
        self.cfile = k.ffile
        self.croutine = "dirichlet" if special else k.frout.lower()

    def files(self):
        return {self.ffile, self.cfile}

    def params(self):
        return [p for p in self.k.params if p[0] != "sgcw"]

    def writes(self):
        return set(self.k.writes)

    def _bound(self):
        """parameters with the free variables by name, and the precondition"""
        P, atoms = runner.params(None, self.k, self.case)
        P["sgcw"] = 0
        if self.special:
            P["btype"], P["exOrder"] = 0, 2
        elif self.special is False:
            atoms = atoms + [("or", (NE(P["btype"], 0), NE(P["exOrder"], 2)))]
        k = self.k
        q = "c" if k.meth == "adj_cf_offdiag" else "p"
        return P, kernels.pre_adj(k.dim, q)(P) + atoms

    def ints(self):
        from .poly import pvars
        P, _ = self._bound()
        vs = set()
        for x in P.values():
            if isinstance(x, Poly):
                vs |= {var_name(v) for v in pvars(x)}
        return [(n, None) for n in sorted(vs)]

    def relations(self, X):
        return self._bound()[1]

    def bind(self, X):
        from .poly import psubst, var_id
        P, _ = self._bound()
        sub = {var_id(n): v for n, v in X.items()}
        return {n: psubst(v, sub) if isinstance(v, Poly) else v for n, v in P.items()}

    def dims(self, n, P):
        return self.k.arrays[n](P)

    def entries(self, P):
        return 2 * self.nd + 1

    def offsets(self, P):
        return [0] * self.nd, [0] * self.nd

    def text(self):
        return DIRICHLET[self.nd].format(",".join(n for n, _ in self.k.params))

    def reference(self):
        if self.special:
            from . import fortran
            return fortran.parse_file(self.text().lower())["dirichlet"]
        r = runner.routines(self.cfile).get(self.croutine)
        if r is None:
            raise Unsupported(f"reference routine {self.croutine} not found")
        return r

    def contract(self, ctx, ms, P, off):
        r = self.reference()
        if len(r.params) != len(self.k.params):
            raise Unsupported("reference arity")
        fe = SweepExec(r, ms, [fp.param(n) if kd == "r" else n if kd == "a" else P[n] for n, kd in self.k.params])
        for p, (n, kd) in zip(r.params, self.k.params):
            if kd == "a":
                fe.lower(p, n)
        if self.nd == 1:
            ms.region(fe.run, "contract")
        else:
            fe.run()

    # concrete runs
    def draw(self, rng, fixed):
        from .kreplay import Sampler
        if not hasattr(self, "sampler"):
            s = Sampler.__new__(Sampler)
            s.setup(self.k, *self._bound())
            self.sampler = s
        v = self.sampler.draw(rng, fixed or {})
        return v and ({var_name(a): b for a, b in v.items()}, [])

    def library(self):
        from .sweepnat import library
        if not self.special:
            return library(self.cfile)
        d = build.scratch()
        so = f"{d}/twin_dirichlet{self.nd}d.so"
        if not os.path.exists(so):
            t = f"{so}.{os.getpid()}"
            with open(t + ".f", "w") as f:
                f.write(self.text())
            build.run(["gfortran", "-O1", "-fPIC", "-shared", "-w", "-std=legacy", "-ffixed-line-length-none", t + ".f", "-o", t])
            os.rename(t, so)
        return so

    def run_reference(self, so, P, A, real):
        import numpy as np
        f = getattr(ctypes.CDLL(so), self.croutine + "_")
        f.restype = None
        PAD = 4096
        args, out = [], {}
        for n, kd in self.k.params:
            if kd == "i":
                args.append(ctypes.byref(ctypes.c_int(P[n])))
            elif kd == "r":
                args.append(ctypes.byref(ctypes.c_double(real[n])))
            else:
                v = np.zeros(len(A[n]) + 2 * PAD)
                v[PAD:PAD + len(A[n])] = A[n]
                out[n] = v
                args.append(ctypes.c_void_p(v.ctypes.data + 8 * PAD))
        f(*args)
        return {n: list(v[PAD:PAD + len(A[n])]) for n, v in out.items()}


def table():
    out = []
    for k in kernels.KERNELS:
        if k.fam != "adjust":
            continue
        for c in runner.split_cases(k):
            c = {n: v for n, v in c.items()}
            if any(not isinstance(v, int) for v in c.values()):
                continue
            own = k.name in ("adj_diag2d", "adj_diag3d") and c["side"] == 1
            out += [Twin(k, c, s) for s in ((False, True) if own else (None,))]
    return out
