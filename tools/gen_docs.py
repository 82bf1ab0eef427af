#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "src/cuda/"
ALLK = [H + f for f in ("cdf_1d_cuda.cpp", "cdf_2d_cuda.cpp", "cdf_3d_cuda.cpp", "cd_apply_1d_cuda.cpp", "cd_apply_2d_cuda.cpp",
                        "cd_apply_3d_cuda.cpp", "cd_correct_bc_1d_cuda.cpp", "cd_correct_bc_2d_cuda.cpp", "cd_correct_bc_3d_cuda.cpp",
                        "cd_stencil_1d_cuda.cpp", "cd_stencil_2d_cuda.cpp", "cd_stencil_3d_cuda.cpp", "coarse_to_fine_cuda.cpp")]
LIB = [H + f for f in ("md_device_span.hpp", "md_bounds.hpp", "matrix_utils.hpp", "matrix_traversal_iterator.hpp", "submatrix_iterator.hpp",
                       "transpose_iterator.hpp", "forward_stencil_iterator.hpp", "offset_iterator.hpp", "window_iterator.hpp",
                       "coarse_to_fine_iterator.hpp", "stencil_proxy.hpp", "stencil_impl.hpp", "iter_math.hpp", "tuple_utils.hpp", "traits.hpp")]


def m(*a):
    return [dict(name=x, where=y) for x, y in zip(a[::2], a[1::2])]


P = []


def prop(pid, title, statement, over, qtext, why, files, mech, note, observe=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note,
                  observe=list(observe)))


KERN = ("The reference kernel (the Fortran text expanded from m4/ on every run) is the spec function; the extracted C++ kernel is executed "
        "symbolically on arbitrary shapes and its value at a generic cell, its coverage and its frame are compared for all inputs. ")
LEMM = "C++ contracts in contracts/ call the real templates; every path of the extracted IR is executed symbolically and each ensures clause is discharged for all arguments. "
T = "Machine integers mathematical (C21 shows they are, up to 2^27 elements), floating point exact, clang front end and the engine trusted; rank limited to 1-3."

prop("C01", "Linear position and multi-index are inverse bijections",
     "For an array of any positive extents of rank one to three, converting a linear position to a multi-index and back gives the same position, every index of the result lies inside its extent, and converting an in-range multi-index to a position and back gives the same multi-index. Strides are the running products of the faster extents.",
     ["inputs"], "all extents >= 1, all positions and multi-indices, ranks 1-3, both storage conventions",
     "tests traverse a few fixed small arrays; an error at other extents, equal extents or the last index is not sampled",
     [H + "matrix_utils.hpp"], m("ravel/unravel and stride computation", H + "matrix_utils.hpp"), LEMM + T)
prop("C02", "Sub-box and permuted traversals enumerate exactly the requested elements",
     "Traversing a rectangular part of an array, in any dimension order, visits position p of the traversal at exactly the element whose multi-index is the p-th of that part in that order. Stepping forward, stepping back, jumping by any signed distance and the distance between two positions agree with each other, and begin plus the size is the end.",
     ["inputs", "histories"], "all array extents, all non-empty sub-boxes, all positions and jumps within the range, ranks 1-3, all dimension orders",
     "tests walk a handful of fixed boxes mostly by single increments from the beginning; the laws quantify over every position, jump and box",
     [H + "matrix_traversal_iterator.hpp", H + "submatrix_iterator.hpp", H + "transpose_iterator.hpp", H + "matrix_utils.hpp"],
     m("random access on a multi-index", H + "matrix_traversal_iterator.hpp", "sub-box mapping", H + "submatrix_iterator.hpp",
       "dimension permutation", H + "transpose_iterator.hpp"), LEMM + T)
prop("C03", "Two-point forward stencil traversal pairs every element with its neighbour",
     "Traversing an array with the two-point forward stencil along a dimension yields, at each position, an element and its successor along that dimension, for every element that has such a successor and no other, in storage order. Jumping by any signed distance reaches the position that the same number of single steps reaches, including the end.",
     ["inputs", "histories"], "all extents >= 2 along the dimension, all positions and jumps, ranks 1-3, every dimension",
     "tests step from the beginning over fixed shapes; backward jumps and jumps ending exactly on a run boundary or at the end are not sampled",
     [H + "forward_stencil_iterator.hpp"], m("skipping the last element of every run", H + "forward_stencil_iterator.hpp"), LEMM + T)
prop("C04", "Fine cells see the value of the coarse cell that contains them",
     "When coarse data are read at fine indices, every fine index i along a refined dimension yields the coarse element whose index is floor(i / ratio), for positive and negative indices and for any box offset. The coarse-to-fine copies write exactly those values to exactly the cells of the requested region.",
     ["inputs"], "all boxes of unit-step ranges, ghost widths, refinement ratios >= 1, axes, negative and positive indices",
     "tests use ratio and box combinations that divide evenly and few negative indices",
     [H + "coarse_to_fine_iterator.hpp", H + "coarse_to_fine_cuda.cpp", H + "md_device_span.hpp", "m4/copycoarsetofine.m4"],
     m("coarse index of a fine position", H + "coarse_to_fine_iterator.hpp", "copy kernels", H + "coarse_to_fine_cuda.cpp"), LEMM + KERN + T)
prop("C05", "Offset dot products add every listed neighbour once",
     "Reading an array through an offset list yields at every cell the elements displaced by the listed offsets, in list order, and a dot product of a coefficient array with those neighbours assigns to every cell of the destination the sum over the list of coefficient times displaced element. Rows of the offset table are addressed slowest dimension first, as declared by the array's order.",
     ["inputs"], "all arrays, destination boxes of unit-step ranges whose displaced cells exist, all offset tables with 1, 2, 3, 5 or 7 entries, ranks 1-3",
     "tests use one symmetric five/seven point offset table on fixed boxes", [H + "offset_iterator.hpp", H + "md_device_span.hpp", H + "stencil_proxy.hpp"],
     m("offset iterator", H + "offset_iterator.hpp", "dot product with a coefficient window", H + "md_device_span.hpp"),
     LEMM + "The number of offsets is fixed per contract (1,2,3,5,7); boxes and offset values are unbounded. " + T)
prop("C06", "Index ranges: size, contents, and ghost expansion",
     "An inclusive index range has exactly as many indices as it enumerates, also with a stride; shifting a range moves both ends, adding a positive (negative) amount widens it at the upper (lower) end, subtracting widens it at the lower end, and the step is kept. Widening an array's shape by a ghost width adds that many layers on both sides of every dimension.",
     ["inputs"], "all lower and upper bounds, strides >= 1, ghost widths", "tests use a few unit-stride ranges",
     [H + "md_bounds.hpp", H + "md_device_span.hpp"], m("range arithmetic", H + "md_bounds.hpp"), LEMM + T)
prop("C07", "Views and windows address the element with the requested index",
     "Reading or writing through a view of an array, in any storage order and with any lower bounds, at a multi-index or a range of indices touches the element with exactly that multi-index in storage where the last-named dimension is contiguous. Fixing indices, sub-ranges and windows of a view select exactly the elements of the named ranges, in order.",
     ["inputs"], "all lower bounds and extents, all indices and sub-ranges inside the view, ranks 1-3, all storage orders",
     "tests check few orders and mostly zero lower bounds", [H + "md_device_span.hpp", H + "window_iterator.hpp", H + "md_bounds.hpp", H + "traits.hpp"],
     m("view with bounds", H + "md_device_span.hpp", "window", H + "window_iterator.hpp"), LEMM + T)
prop("C08", "Assigning an array expression assigns the pointwise value to every cell",
     "Assigning an arithmetic expression of arrays and scalars to a (part of a) view stores, at every index of the destination and nowhere else, the value of the expression computed from the operands' elements at that same index, whatever the storage order of each operand. This includes strided ranges, fills and index sequences, scalar operands on either side, and compound assignment.",
     ["inputs", "programs"], "all boxes and bounds, all element values, a family of expression shapes covering every operator, operand kind and side, all mixes of storage orders of the family",
     "tests evaluate few expressions, mostly over whole arrays in one order", [H + "md_device_span.hpp", H + "stencil_proxy.hpp", H + "iter_math.hpp", H + "traits.hpp", H + "tuple_utils.hpp"],
     m("lazy vector expressions", H + "md_device_span.hpp", "expression templates", H + "iter_math.hpp"), LEMM + "Expressions are a fixed family of programs; data and shapes are unbounded. " + T)
prop("C09", "Gradient and shift expressions combine the right neighbours",
     "The gradient of an array along a dimension, over any unit-step range, stores at every face the difference of the two cells adjoining that face along that dimension, higher index minus lower index. Shifting an array by an offset along a dimension makes the element at index i appear where index i plus or minus that offset is read, and shifts compose with other expressions.",
     ["inputs", "programs"], "all boxes of unit-step ranges, bounds, offsets, dimensions, storage orders, ranks 1-3",
     "tests exercise gradients only inside the flux kernels on fixed boxes", [H + "md_device_span.hpp", H + "forward_stencil_iterator.hpp", H + "transpose_iterator.hpp"],
     m("grad and shift", H + "md_device_span.hpp"), LEMM + T)
prop("C10", "Stencil-entry assignments update exactly the named entry of every cell",
     "Assigning an expression to one entry of a stencil window stores at every cell of the window the value of the expression in which each named entry, field and scalar is read at that same cell, with operands in the order written; assigning a two-point stencil to a pair of entries gives the lower point to the first and the upper point to the second. Sequences of such assignments behave as if executed one after the other, cell by cell, and entries not named keep their values.",
     ["inputs", "programs"], "all boxes, stencil sizes and values; a family of statements covering every operator, operand kind, side and assignment form, ranks 1-3",
     "tests reach only the few statement shapes used by the kernels", [H + "stencil_proxy.hpp", H + "stencil_impl.hpp", H + "window_iterator.hpp", H + "md_device_span.hpp"],
     m("stencil statements", H + "stencil_proxy.hpp", "statement evaluation", H + "stencil_impl.hpp"), LEMM + "Statements are a fixed family of programs; data and shapes are unbounded. " + T)
prop("C11", "Face fluxes equal the reference for every box and ghost width",
     "The accelerated diffusion and Poisson flux computations store at every face of the patch the same value as the Fortran reference (face coefficient times neighbouring cell difference over the mesh width), in one, two and three dimensions, for single and double precision. Faces tangential to the boundary and all patch extents are treated alike.",
     ["inputs"], "all patch boxes, ghost widths >= 1, mesh widths, coefficient and cell values",
     "tests compare one random patch per dimension; other extents, bounds and ghost widths are untested", [H + "cdf_1d_cuda.cpp", H + "cdf_2d_cuda.cpp", H + "cdf_3d_cuda.cpp", "m4/celldiffusionflux1d.m4", "m4/celldiffusionflux2d.m4", "m4/celldiffusionflux3d.m4"],
     m("flux kernels", H + "cdf_3d_cuda.cpp", "reference", "m4/celldiffusionflux3d.m4"), KERN + T)
prop("C12", "Residual and operator application equal the reference",
     "The accelerated residual and operator-application kernels store at every cell of the patch the same value as the Fortran reference: source minus (or plus) the coefficient terms and the divergence of the given fluxes, with the given scale factors. This holds for every combination of ghost widths of the cell arrays.",
     ["inputs"], "all patch boxes, all ghost widths >= 0 of each array, all scalars and data, both precisions",
     "tests compare one random patch per kernel", [H + "cd_apply_1d_cuda.cpp", H + "cd_apply_2d_cuda.cpp", H + "cd_apply_3d_cuda.cpp", "m4/celldiffusionapply1d.m4", "m4/celldiffusionapply2d.m4", "m4/celldiffusionapply3d.m4"],
     m("residual and apply kernels", H + "cd_apply_3d_cuda.cpp", "reference", "m4/celldiffusionapply3d.m4"), KERN + T)
prop("C13", "Ghost values from boundary conditions equal the reference",
     "For every boundary face, edge and corner, every boundary type and every extrapolation order, the accelerated boundary kernels store in the ghost cells of the given boundary segment the same values as the Fortran reference. Unrecognised codes change what the reference changes and nothing else.",
     ["inputs", "configurations"], "all patches, ghost widths, boundary segments along the patch (also reaching beyond it where the reference clamps them), all face/type/boundary/extrapolation codes including unknown ones, all data",
     "tests cover one patch and one segment per case and not all combinations of the codes", [H + "cd_correct_bc_1d_cuda.cpp", H + "cd_correct_bc_2d_cuda.cpp", H + "cd_correct_bc_3d_cuda.cpp", "m4/cellsetcorrectionbc1d.m4", "m4/cellsetcorrectionbc2d.m4", "m4/cellsetcorrectionbc3d.m4"],
     m("boundary kernels", H + "cd_correct_bc_3d_cuda.cpp", "reference", "m4/cellsetcorrectionbc3d.m4"), KERN + T)
prop("C14", "Assembled stencils equal the reference",
     "The accelerated assembly of off-diagonal and diagonal stencil entries stores at every cell of the patch the same entries as the Fortran reference, for variable-coefficient and Poisson operators. Coefficient data may live on a box larger than the patch.",
     ["inputs"], "all patch boxes, all enclosing coefficient boxes, ghost widths, mesh widths, scale factors, data, both precisions",
     "tests compare one random patch per kernel", [H + "cd_stencil_1d_cuda.cpp", H + "cd_stencil_2d_cuda.cpp", H + "cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs1d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"],
     m("assembly kernels", H + "cd_stencil_3d_cuda.cpp", "reference", "m4/celldiffusionstencilcoeffs3d.m4"), KERN + T)
prop("C15", "Stencil and right-hand-side adjustments at boundaries equal the reference",
     "The accelerated kernels that adjust diagonal and off-diagonal stencil entries, and the right-hand side, at physical and coarse-fine boundaries change exactly the entries of the cells along the given segment to the values the Fortran reference gives. This holds for every direction, side, boundary type, extrapolation or interpolation order and refinement ratio, including unrecognised codes.",
     ["inputs", "configurations"], "all patches, segments inside the patch, ghost widths, directions, sides, codes, ratios, data, both precisions",
     "tests cover one patch and one segment per kernel and few code combinations", [H + "cd_stencil_1d_cuda.cpp", H + "cd_stencil_2d_cuda.cpp", H + "cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs1d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"],
     m("adjustment kernels", H + "cd_stencil_3d_cuda.cpp", "reference", "m4/celldiffusionstencilcoeffs3d.m4"), KERN + T)
prop("C16", "A kernel or assignment modifies nothing but its documented target",
     "An accelerated kernel leaves every input array, and every element of its output array that the reference kernel does not write, bitwise unchanged; an array or stencil assignment leaves every element outside its destination range unchanged.",
     ["inputs", "programs"], "all kernels, all shapes, ghost widths, codes and data", "tests compare outputs on patches where an overrun into ghost layers or a wrong coverage at other extents is not visible",
     ALLK + LIB, m("destination ranges of the assignments", H + "md_device_span.hpp"), KERN + LEMM + T)
prop("C17", "Results do not depend on how the parallel loops are scheduled",
     "In every kernel and array assignment, no two iterations of the same parallel loop touch the same element unless both only read it, so the result is the same for every number of threads and every interleaving.",
     ["schedules", "inputs"], "all schedules of all parallel loops of all kernels and contracted assignments, all shapes and codes",
     "tests run one schedule per execution on small data with a relaxed tolerance", ALLK + LIB,
     m("parallel loops behind assignments", H + "md_device_span.hpp", "statement evaluation", H + "stencil_impl.hpp"),
     "For every parallel phase a second generic iteration is introduced and disjointness of its writes from the first one's accesses is discharged. The OpenMP runtime is a trusted contract. " + T)
prop("C18", "No access outside the declared arrays",
     "Whenever a kernel or an array expression is called with arguments that satisfy its documented preconditions, every element it reads or writes lies inside the array it belongs to, and no division by zero or narrowing of an index occurs.",
     ["inputs"], "all kernels and contracted expressions, all shapes, ghost widths, codes", "an out-of-bounds access by one element in memory the allocator also owns is invisible to the tests, and other extents are untested",
     ALLK + LIB, m("index computations", H + "md_device_span.hpp", "sub-ranges", H + "md_bounds.hpp"),
     "Every load and store of the extracted IR generates an in-bounds obligation against the declared shape (multi-index by multi-index for array accesses). " + T)
OPS = ("The contracts call the real kernels one after the other on the same arrays, with arbitrary shapes and data, and state a relation between "
       "their results at a generic cell; no reference kernel is involved. ")
prop("C19", "The assembled stencil and the flux path define the same operator",
     "Applying the assembled diffusion or Poisson stencil of a patch (off-diagonal entries followed by the diagonal entry) to a field gives at every cell the same value as computing the face fluxes of that field and applying the operator to them: alpha a u - beta div(b grad u), each flux leaving one cell entering its neighbour. The residual is the source minus that value, every row without the alpha term sums to zero, and the entry that couples a cell to a neighbour equals the neighbour's entry back.",
     ["inputs", "programs"], "all patch boxes, ghost widths, mesh widths, scale factors, coefficient and cell data, both precisions, one to three dimensions; variable-coefficient and Poisson operators",
     "tests compare each kernel with its own reference on one random patch and never relate two kernels to each other",
     [H + f for f in ("cdf_1d_cuda.cpp", "cdf_2d_cuda.cpp", "cdf_3d_cuda.cpp", "cd_apply_1d_cuda.cpp", "cd_apply_2d_cuda.cpp", "cd_apply_3d_cuda.cpp",
                      "cd_stencil_1d_cuda.cpp", "cd_stencil_2d_cuda.cpp", "cd_stencil_3d_cuda.cpp")],
     m("fluxes", H + "cdf_3d_cuda.cpp", "operator application and residual", H + "cd_apply_3d_cuda.cpp", "stencil assembly", H + "cd_stencil_3d_cuda.cpp"), OPS + T)
prop("C20", "Boundary-adjusted stencils act like the ghost values the boundary kernels set",
     "At every cell next to a physical boundary face, the stencil row after the off-diagonal adjustments, diagonal assembly and readjustment, applied to interior cells only, gives the same value as the unadjusted row applied to the field with the ghost cells the boundary kernel sets; folding given ghost values into the right-hand side leaves the residual unchanged. The ghost values set for Dirichlet, Neumann and Robin conditions satisfy the discrete condition at the face midpoint, and adjusting rows at coarse-fine faces gives the same row before or after the diagonal is assembled and keeps its row sum.",
     ["inputs", "programs", "configurations"],
     "all patch boxes, boundary segments along a face, ghost widths, mesh widths, boundary and cell data, every face in one to three dimensions; Dirichlet of order 1 and 2, Neumann, Robin of order 1 (alpha 2, beta 1 where a kernel fixes them), all coarse-fine ratios",
     "tests compare each kernel with its own reference on one random patch and never run boundary kernels and stencil kernels together",
     [H + f for f in ("cd_correct_bc_1d_cuda.cpp", "cd_correct_bc_2d_cuda.cpp", "cd_correct_bc_3d_cuda.cpp", "cd_stencil_1d_cuda.cpp", "cd_stencil_2d_cuda.cpp", "cd_stencil_3d_cuda.cpp")],
     m("boundary kernels", H + "cd_correct_bc_3d_cuda.cpp", "stencil adjustments", H + "cd_stencil_3d_cuda.cpp"),
     OPS + "Robin order 2 with beta other than 1 and the one-dimensional and two-dimensional Poisson special cases named in DESIGN.md are outside the statement. " + T)

prop("C21", "Index arithmetic does not overflow",
     "Whenever every array involved has at most 2^27 elements (ghost cells and stencil entries included), every index bound, ghost width, step, ratio and offset is at most 2^24 in magnitude, and the products of steps or lower indices with the extents they are combined with stay within 2^27 as well, no 32-bit sum, difference, product or truncation in the index computations of any kernel, view, iterator or array expression leaves the range of int: every flattened index, weight, size and distance is the exact integer.",
     ["inputs"], "all kernels and all contracted views, iterators and expressions; all shapes, positions, ghost widths and steps up to those limits",
     "tests use arrays of at most a few thousand elements, whose intermediate products never come near the range of int",
     ALLK + LIB, m("index conversions", H + "matrix_utils.hpp", "iterator arithmetic", H + "matrix_traversal_iterator.hpp", "views", H + "md_device_span.hpp"),
     "Every 32-bit operation of the extracted IR records its exact result as a polynomial; at the end of each path its magnitude is bounded under all facts of the path (expansion over the weights of a declared shape, products of extents; otherwise z3). This removes the assumption of mathematical integers from the other properties, up to the stated sizes. The engine and the clang front end are trusted.")
M4 = lambda *n: [f"m4/{x}{d}d.m4" for x in n for d in (1, 2, 3)]
FOR = ("The contract is written in this repository of checks, not taken from another kernel: the m4-expanded Fortran routine is executed symbolically on arbitrary shapes, "
       "its loops by rules for independent iterations, reductions and sweeps in storage order, and its final state is compared with the contract's at a generic cell. ")
prop("C22", "Stencil application and smoothing sweeps",
     "Applying an assembled stencil to a field stores at every cell of the patch (or at the given cell) b f + a times the sum over the stencil entries of entry times field value at the cell displaced by the entry's offset; folding a stencil into a right-hand side adds that sum over the given number of entries. Moving the given ghost values of a coarse-fine face (its box, direction and side) into a right-hand side subtracts, in every interior cell adjoining the face's box, the sum over the stencil entries that point across the face of entry times ghost value; a direction that is no dimension changes nothing. A damped Jacobi sweep adds omega (f - sum)/diagonal of the values before the sweep to every cell (omega 2/3 in one, 4/5 in two and three dimensions, 2x2 block systems solved exactly); a Gauss-Seidel sweep sets every cell to (f - off-diagonal sum)/diagonal using the newest values, visiting the cells in ascending storage order; a red-black sweep does so for exactly the cells whose indices, counted from the patch's lower index in the first dimension and from zero in the others, plus the colour add to an even number. Nothing else is written and nothing outside the declared arrays is read.",
     ["inputs"], "all patch boxes with positive and negative indices and any aspect ratio, all array boxes around them, stencil lengths, offset lists inside the array, colours 0 and 1, all data with non-zero diagonals",
     "no test calls these routines", M4("applystencil", "cellsmooth") + [f"m4/{x}{d}d.m4" for x in ("celladjustrhs", "cellblocksmooth") for d in (1, 2)] + ["m4/celladjustrhs3d.m4"],
     m("stencil application", "m4/applystencil3d.m4", "smoothing sweeps", "m4/cellsmooth3d.m4", "right-hand side folding", "m4/celladjustrhs2d.m4", "block Jacobi", "m4/cellblocksmooth2d.m4"),
     FOR + "Sums over a symbolic number of entries are compared by a normal form. Literals are exact decimals; the single-precision literal 0.8 of the reference counts as 4/5. The right-hand side of a coarse-fine face assumes stencil offsets of at most one cell, as its reference states. The damping of the first stencil entry assumes it is the diagonal (offset zero). LAPACK block solvers are outside the statement. " + T)
prop("C23", "Node-centred operators",
     "The node-centred routines store at every face the face coefficient (or one) times the difference of the two adjoining values, higher minus lower index, over the mesh width of that direction; at every point b f + a (alpha a_coef u - beta div flux), where div takes the flux of every direction over that direction's mesh width (without the alpha term for Poisson); and as stencil entries -beta b/h^2 of the face towards each neighbour, with minus the sum of the off-diagonal entries plus alpha a_coef as the diagonal. Every face, point and entry of the patch is stored, and nothing else.",
     ["inputs"], "all patch boxes, all enclosing coefficient boxes, ghost widths, mesh widths, scale factors, data; one to three dimensions, variable-coefficient and Poisson",
     "no test calls these routines", M4("nodediffusionflux", "nodediffusionapply", "nodediffusionstencilcoeffs"),
     m("fluxes", "m4/nodediffusionflux3d.m4", "operator application", "m4/nodediffusionapply3d.m4", "stencil assembly", "m4/nodediffusionstencilcoeffs3d.m4"),
     FOR + T)
prop("C24", "Boundary adjustments of node-centred stencils",
     "Adjusting a node-centred stencil at a physical or coarse-fine boundary (diagonal, off-diagonal, re-adjustment and coarse-fine right-hand side, with a coefficient or for Poisson) leaves, on the same data, exactly what the cell-centred routine of the same name leaves in a stencil array without ghost layer: for every direction, side, boundary type and extrapolation or interpolation order the same entries of the row next to the boundary face are changed by the same amounts, computed from the coefficient and mesh width of that direction, and every other entry and every other row keeps its value. A Dirichlet adjustment of second order on the high side adds beta b/(3 h^2), with b on the boundary face, to the diagonal of the entry next to that face. Nothing outside the declared arrays is read or written.",
     ["inputs"], "all patch boxes with positive and negative indices, all boundary segments of a patch, directions and sides, every value of boundary type, extrapolation order, interpolation order and ratio, ghost widths of the field, mesh widths, scale factors, coefficients and stencils; one to three dimensions",
     "no test calls these routines", M4("nodediffusionstencilcoeffs", "celldiffusionstencilcoeffs"),
     m("node-centred adjustments", "m4/nodediffusionstencilcoeffs3d.m4", "cell-centred counterparts", "m4/celldiffusionstencilcoeffs3d.m4"),
     "Relational: both m4-expanded routines are executed symbolically on the same arbitrary arrays and their final states compared at a generic entry, with in-bounds and race-freedom obligations on both; the cell-centred routines are tied to the C++ kernels by C15. " + T)
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=p["mech"])
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)) + "\n")
M = dict(version=1, setup_cmd="python3-vt tools/setup.py",
         checks=[dict(property=p["id"], quick_cmd=f"python3-vt check.py {p['id']} quick",
                      thorough_cmd=f"python3-vt check.py {p['id']} thorough",
                      technique="contract-based deductive verification of the "
                      + ("m4-expanded Fortran text" if p["id"] in ("C22", "C23", "C24") else "extracted LLVM IR")
                      + " (own VC generator; polynomial certificates, z3, cvc5)",
                      level="proof", level_note=p["note"]) for p in P],
         not_applicable=[])
for pid, title, reason in []:
    M["not_applicable"].append(dict(property=pid, reason=reason))
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
