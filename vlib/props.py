"""Which contracts decide which property.

K(regex) selects kernels by name, L(regex) contracts by file/name.  `mode`
says which obligations of the selected executions belong to the property."""
import re
from . import lemma
from .kernels import KERNELS

FULL = "full"        # every obligation
FRAME = "frame"      # what must stay unchanged
RACE = "race"        # independence of the parallel iterations
MEM = "mem"          # accesses inside the declared arrays
OVF = "overflow"     # 32-bit index arithmetic stays in range


class Prop:
    def __init__(self, pid, title, kernels=None, lemmas=None, mode=FULL, types="df", sweeps=None):
        self.id = pid
        self.title = title
        self.kernels = kernels
        self.lemmas = lemmas
        self.mode = mode
        self.sweeps = sweeps
        self.types = types

    def jobs(self):
        from .runner import split_cases
        out = []
        if self.lemmas:
            src = lemma.sources()
            for s, cs in src.items():
                for c in cs:
                    if re.search(self.lemmas, f"{s}/{c}"):
                        for t in self.types:
                            out.append(("L", s, c, t))
        if self.kernels:
            for k in KERNELS:
                if re.search(self.kernels, k.name):
                    for i, c in enumerate(split_cases(k)):
                        for t in self.types:
                            out.append(("K", k.name, i, t))
        if self.sweeps:
            from .sweep import routines_of
            out += [("F", k.name, 0, "d") for k in routines_of(self.sweeps)]
        return out


PROPS = {p.id: p for p in [
    Prop("C01", "index maps", lemmas=r"^traversal/(ravel|unravel|strides)"),
    Prop("C02", "sub-box traversal", lemmas=r"^traversal/(trav|submatrix|transpose)"),
    Prop("C03", "two-point stencil iteration", lemmas=r"^iterators/(stencil|nd_stencil)"),
    Prop("C04", "coarse values under fine indices", kernels=r"^copy", lemmas=r"^iterators/(coarse|c2f|make_c2f)|^dotfine/fine"),
    Prop("C05", "sums over offset neighbours", lemmas=r"^iterators/offset|^dotfine/dot"),
    Prop("C06", "index ranges", lemmas=r"^views/(bounds|ghost)"),
    Prop("C07", "element addressing of views", lemmas=r"^views/(at|view|window)"),
    Prop("C08", "lazy array expressions", lemmas=r"^lazy/(expr|order|strided|fill|sequence|lhs|.*assign)"),
    Prop("C09", "gradients and shifts", lemmas=r"^lazy/(grad|shift)"),
    Prop("C10", "stencil-entry assignments", lemmas=r"^window/"),
    Prop("C11", "face fluxes", kernels=r"flux[123]d"),
    Prop("C12", "residuals and operator application", kernels=r"_(res|apply)[123]d"),
    Prop("C13", "ghost values from boundary conditions", kernels=r"^set_"),
    Prop("C14", "stencil assembly", kernels=r"^(poisson_)?(offdiag|diag)|^v[12]diag"),
    Prop("C15", "stencil adjustment at boundaries", kernels=r"adj_"),
    Prop("C19", "assembled stencils and fluxes define the same operator",
         lemmas=r"^operators[123]/(matrix_free|residual|assembled|agreement)"),
    Prop("C20", "boundary conditions and stencils fit together",
         lemmas=r"^operators[123]/(boundary|moved|coarse_fine|ghost|homogeneous)"),
    Prop("C16", "nothing else is modified", kernels=r".", lemmas=r"^(lazy|window|dotfine)/", mode=FRAME),
    Prop("C17", "schedule independence", kernels=r".", lemmas=r"^(lazy|window|dotfine)/", mode=RACE),
    Prop("C18", "memory safety", kernels=r".", lemmas=r"^(lazy|window|dotfine)/|^views/at", mode=MEM),
    Prop("C21", "index arithmetic without overflow", kernels=r".",
         lemmas=r"^(traversal|iterators|views|lazy|window|dotfine)/", mode=OVF, types="d"),
    Prop("C22", "stencil application and smoothing sweeps", sweeps=r"^(apply|cell|adjcell)"),
    Prop("C23", "node-centred operators", sweeps=r"^node"),
    Prop("C24", "boundary adjustments of node-centred stencils", sweeps=r"^(re)?adjnode"),
]}
