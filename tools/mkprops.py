#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

K = ["schedules", "inputs", "configurations", "fault_sequences"]
SCH = ("every team size the OpenMP runtime may deliver (including fewer workers than asked for), every interleaving, "
       "late start and stall of those workers, ")
ONE = ("The tests run one hand-picked box per kernel with random ghost widths, on whatever team and interleaving the "
       "machine happens to give, all in non-negative index ranges and double precision only; ")
SPAN = [("span expression evaluated by thrust::for_each_n over a submatrix traversal", "src/cuda/md_device_span.hpp, src/cuda/stencil_proxy.hpp"),
        ("iterator arithmetic that gives each worker its chunk", "src/cuda/matrix_traversal_iterator.hpp, src/cuda/iter_math.hpp")]
OUT = ["contents of every argument array when the call returns"]

p("C01", "Residual and operator-apply kernels compute the diffusion operator",
  "For every box, ghost width, spacing, coefficient and field, the 1-D, 2-D and 3-D diffusion/Poisson residual and apply kernels (device and Fortran variants, single and double precision) store in every cell of the box exactly the value of the defining formula, up to rounding. No other cell of any array changes, and the result is the same whatever team of workers executes the call.",
  K, SCH + "every valid box (negative indices, extent 1, anisotropic), ghost widths, coefficients and field data",
  ONE + "a wrong ghost stride, a lost chunk at an unusual team size or a special-cased extent is never sampled.",
  ["src/cuda/cd_apply_1d_cuda.cpp", "src/cuda/cd_apply_2d_cuda.cpp", "src/cuda/cd_apply_3d_cuda.cpp", "m4/celldiffusionapply1d.m4", "m4/celldiffusionapply2d.m4", "m4/celldiffusionapply3d.m4"], SPAN, observe=OUT)
p("C02", "Flux kernels compute every face flux of the box",
  "For every box, ghost width, spacing, face coefficient and field, the 1-D, 2-D and 3-D diffusion and Poisson flux kernels store the face flux in every face of the box, including both outermost faces of each direction, in the documented face-centred storage order. No other location changes, and the result is the same whatever team of workers executes the call.",
  K, SCH + "every valid box, ghost width, spacing, coefficient and field",
  ONE + "face arrays are permuted per direction, so errors can hide for square or positive boxes.",
  ["src/cuda/cdf_1d_cuda.cpp", "src/cuda/cdf_2d_cuda.cpp", "src/cuda/cdf_3d_cuda.cpp", "m4/celldiffusionflux1d.m4", "m4/celldiffusionflux2d.m4", "m4/celldiffusionflux3d.m4"], SPAN, observe=OUT)
p("C03", "Stencil assembly fills diagonal and off-diagonal coefficients",
  "For every box, stencil ghost width and coefficient data, the off-diagonal and diagonal assembly kernels (diffusion v1/v2 and Poisson, 1-D to 3-D) write each stencil entry of every cell of the box with the coefficient the discretisation prescribes, and leave all other entries and cells untouched. The diagonal is consistent with the off-diagonal entries already present, under every worker schedule.",
  K, SCH + "every valid box, stencil ghost width, coefficient array box and data",
  ONE + "coefficient arrays whose box differs from the stencil box are sampled at one offset only.",
  ["src/cuda/cd_stencil_1d_cuda.cpp", "src/cuda/cd_stencil_2d_cuda.cpp", "src/cuda/cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs1d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"], SPAN, observe=OUT)
p("C04", "Physical-boundary stencil adjustment touches exactly the boundary cells",
  "For every boundary patch, direction, side, boundary type and extrapolation order, the diagonal/off-diagonal boundary adjustment kernels and their undo (re-adjust) kernel add the prescribed correction exactly once to each affected stencil entry of each boundary cell. Every other entry and cell keeps its value bit for bit, under every worker schedule.",
  K, SCH + "every boundary patch, direction, side, boundary type, extrapolation order, factor and data",
  ONE + "the case analysis over direction x side x type x order is sampled at a few points and only on one patch shape.",
  ["src/cuda/cd_stencil_1d_cuda.cpp", "src/cuda/cd_stencil_2d_cuda.cpp", "src/cuda/cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs1d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"], SPAN, observe=OUT)
p("C05", "Coarse-fine stencil and right-hand-side adjustment is exact",
  "For every coarse-fine boundary patch, refinement ratio, direction, side and interpolation order, the coarse-fine diagonal, off-diagonal and boundary right-hand-side kernels apply the prescribed interpolation correction exactly once per affected cell, including the tangential couplings that depend on a cell's position inside its coarse cell. Every other entry keeps its value bit for bit, under every worker schedule.",
  K, SCH + "every patch, ratio (even, odd, large), direction, side, interpolation order and data",
  ONE + "position-in-coarse-cell logic depends on absolute (possibly negative) indices and on the ratio, of which the tests try very few.",
  ["src/cuda/cd_stencil_1d_cuda.cpp", "src/cuda/cd_stencil_2d_cuda.cpp", "src/cuda/cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"], SPAN, observe=OUT)
p("C06", "Boundary correction fills exactly the requested ghost cells",
  "For every boundary segment, face, codimension, boundary type and extrapolation order, the boundary-correction kernels (diffusion, Poisson, interior-corner and homogeneous variants) set each ghost cell of the segment to the prescribed extrapolation of interior values. Interior cells and all other ghost cells keep their values bit for bit, under every worker schedule.",
  K, SCH + "every segment along the box (clipped, single-cell; in the device kernels and the Fortran variants that clip also extending past the box or missing it, when only the part along the box is set), face, codimension, type, order, coefficients and data",
  ONE + "segments always lie inside the box and only some order/type/face combinations are exercised.",
  ["src/cuda/cd_correct_bc_1d_cuda.cpp", "src/cuda/cd_correct_bc_2d_cuda.cpp", "src/cuda/cd_correct_bc_3d_cuda.cpp", "m4/cellsetcorrectionbc1d.m4", "m4/cellsetcorrectionbc2d.m4", "m4/cellsetcorrectionbc3d.m4"], SPAN, observe=OUT)
p("C07", "Coarse-to-fine copy injects every requested coarse value",
  "For every pair of coarse and fine boxes, refinement ratio, axis and pair of copy regions, the coarse-to-fine copy and corner-copy kernels store in each fine cell of the region the value of the coarse cell it refines (or is matched with) and change nothing else. The result is the same under every worker schedule.",
  K, SCH + "every coarse/fine box pair, per-axis ratio, axis, copy region and data",
  ONE + "the copy is tested at one ratio per run and only with matching regions.",
  ["src/cuda/coarse_to_fine_cuda.cpp", "src/cuda/coarse_to_fine_iterator.hpp", "m4/copycoarsetofine.m4"],
  [("repeat-by-ratio iterator", "src/cuda/coarse_to_fine_iterator.hpp")] + SPAN[1:], observe=OUT)
p("C08", "Field expressions equal point-by-point evaluation",
  "For any arrays with any index ranges, ghost widths and storage orders, and any domain inside them, assigning an expression built from field references, arithmetic, shifts, gradients and scalar factors stores at every point of the domain the value of the expression at that point, and stores nothing elsewhere. Indexing is by coordinate name, so the order in which coordinates are stored or listed never changes the result, and neither does the team of workers that evaluates it.",
  ["schedules", "programs", "inputs", "configurations"], SCH + "every expression shape, storage order, index range, ghost width and domain (strided domains for expressions without gradients)",
  "The tests evaluate a handful of fixed expressions on one array shape each; aliasing of storage orders, strided and negative ranges under different teams are not tried.",
  ["src/cuda/md_device_span.hpp", "src/cuda/md_bounds.hpp", "src/cuda/stencil_proxy.hpp", "src/cuda/transpose_iterator.hpp", "src/cuda/submatrix_iterator.hpp", "src/cuda/traits.hpp"], SPAN, observe=OUT)
p("C09", "Matrix iterators visit every element once however work is split",
  "Over any range they describe, the traversal iterators (sub-matrix, transpose, forward-difference, coarse-to-fine, offset and window) are lawful random-access iterators: reaching a position by stepping, jumping forwards or backwards, from the begin or from the end, or by subtracting iterators always designates the same element. Hence any set of workers that splits the range into chunks, steals, retries or re-executes them visits each element exactly once, in the order the nested coordinate loops define.",
  ["schedules", "histories", "inputs", "fault_sequences"], "every matrix shape, sub-range, stride, axis permutation, and every history of iterator moves by any number of workers",
  "The tests walk each iterator front to back on one or two shapes; jump histories, end-relative movement and split traversals over other shapes are not exercised.",
  ["src/cuda/matrix_traversal_iterator.hpp", "src/cuda/submatrix_iterator.hpp", "src/cuda/transpose_iterator.hpp", "src/cuda/forward_stencil_iterator.hpp", "src/cuda/coarse_to_fine_iterator.hpp", "src/cuda/offset_iterator.hpp", "src/cuda/window_iterator.hpp", "src/cuda/iter_math.hpp", "src/cuda/matrix_utils.hpp"],
  [("advance / distance_to / equal of the iterator facades", "src/cuda/*_iterator.hpp")], observe=["element designated by an iterator after a history of moves"])
p("C10", "Stencil windows, dot products and index offsets address the right entries",
  "For any stencil array and any field, reading or assigning stencil entry w of a cell, forming the dot product of the stencil with the neighbouring values it couples to, and shifting a field by an index offset all address exactly the named entry of the named cell. This holds for any storage order, index range, ghost width and window length, and under every worker schedule.",
  ["schedules", "programs", "inputs", "configurations"], SCH + "every window length and position, offset pattern, range and ghost width (dot products over unit-stride domains; offset components in the reverse of the order the coordinates are listed)",
  "The tests check one stencil layout and one offset pattern with fixed extents.",
  ["src/cuda/stencil_proxy.hpp", "src/cuda/stencil_impl.hpp", "src/cuda/window_iterator.hpp", "src/cuda/offset_iterator.hpp", "src/cuda/md_device_span.hpp"], SPAN, observe=OUT)
p("C11", "Kernels stay inside their arguments",
  "Whatever the box, ghost widths, boundary patch, options and worker schedule, a kernel call reads and writes only memory of the arrays it was given, never writes through an input array, and never lets the contents of cells outside its defined input region influence the result. In particular cells an implementation may leave uninitialised (NaN, stale) never contaminate the result.",
  K, SCH + "every kernel, valid configuration and content of the unread cells",
  "The tests never check accesses: an over-read into a neighbouring allocation or a stray write to an uncompared cell passes.",
  ["src/cuda/md_device_span.hpp", "src/cuda/stencil_proxy.hpp", "src/cuda/cd_stencil_3d_cuda.cpp", "src/cuda/cd_correct_bc_3d_cuda.cpp"], SPAN, observe=["every load and store executed by the call", *OUT])
p("C12", "Kernel results do not depend on the schedule and have no data races",
  "During a kernel call no two workers make conflicting unsynchronised accesses to the same memory. The arrays after the call are bit-for-bit identical for every number of workers and every interleaving, including a single worker.",
  ["schedules", "configurations", "inputs", "fault_sequences"], SCH + "every kernel and configuration",
  "One execution on real threads shows one interleaving of one team; races and order dependence need particular ones.",
  ["src/cuda/md_device_span.hpp", "src/cuda/stencil_proxy.hpp", "src/cuda/matrix_traversal_iterator.hpp"],
  [("each worker dereferences its own copy of the zipped iterators; the functor is shared", "src/cuda/stencil_proxy.hpp")], observe=["every load and store, ordered by happens-before", *OUT])
p("C13", "A kernel call completes all its work before it returns",
  "When a kernel call returns, every effect it is going to have is in place and no worker touches any array afterwards. It returns after a bounded amount of work for every team the runtime delivers, however late, slow or few the workers are, once they are allowed to run.",
  ["schedules", "fault_sequences", "configurations"], SCH + "every kernel, with bounded stalls",
  "Tests compare results right after the call on fast idle workers, so asynchronous or team-size dependent completion is invisible.",
  ["src/cuda/md_device_span.hpp", "src/cuda/stencil_proxy.hpp"], [("synchronous thrust::for_each_n / thrust::copy on the device system", "src/cuda/stencil_proxy.hpp")], observe=["accesses after the return of the call", "steps until return", *OUT])
p("C14", "Device kernel calls are independent of past and concurrent calls",
  "A device-kernel call gives the result its own arguments determine: not affected by any calls made before it in the same process, nor by calls other host threads make at the same time on other outputs (sharing read-only inputs is allowed). The library keeps no mutable state between or across calls.",
  ["schedules", "histories", "configurations"], "every history of kernel calls of one caller and every interleaving of several callers, each with its own worker team",
  "Each test makes one call (or one per fixed parameter set) from a single thread.",
  ["src/cuda/md_device_span.hpp", "src/cuda/stencil_proxy.hpp", "src/cuda/cd_stencil_2d_cuda.cpp", "src/cuda/cd_correct_bc_3d_cuda.cpp"], [("stateless kernels; all state in stack-local spans", "src/cuda")], observe=OUT)
p("C15", "Fortran kernels are reentrant and compute their specification",
  "Every Fortran kernel (apply, flux, stencil, boundary, smoother, adjust-rhs, stencil-apply, coarse-to-fine; cell- and node-centred) may be executed by several threads at once on different outputs: each call computes what its own arguments prescribe and interferes with no other. No local data survives or is shared between calls.",
  ["schedules", "histories", "inputs", "configurations"], "every interleaving of several callers of any Fortran kernels, every history of calls, all options and data",
  "The kernels are only ever called from one thread, and about half of them (smoothers, node-centred, adjust-rhs, stencil-apply) by no test at all.",
  ["m4"], [("every subroutine is declared recursive, so locals live on the caller's stack", "m4/*.m4")], observe=OUT)
p("C16", "Re-executing an abandoned overwrite kernel repairs its output",
  "If a call of a kernel that only overwrites its outputs (apply, residual, flux, coefficient assembly, boundary correction, coarse-to-fine copy) is abandoned at an arbitrary instant, with any subset of its workers having made any progress, then executing the same call again on the surviving memory leaves exactly the result of one undisturbed call. At the instant of abandonment all inputs, and every output cell outside the call's region, are intact.",
  ["crash_points", "schedules", "fault_sequences"], "every kernel of the class, every abandonment instant (repeatedly), schedule and team",
  "No test interrupts a call.",
  ["src/cuda/cd_apply_3d_cuda.cpp", "src/cuda/cdf_3d_cuda.cpp", "src/cuda/cd_stencil_3d_cuda.cpp", "src/cuda/cd_correct_bc_3d_cuda.cpp", "src/cuda/coarse_to_fine_cuda.cpp"], [("outputs are never read before they are overwritten", "src/cuda")], observe=["array contents at the abandonment instant and after re-execution"])
p("C17", "Kernels need no memory: calls succeed when allocation fails",
  "A kernel call allocates no memory: with the allocator failing from any point on, every device kernel still completes, throws nothing and produces its normal result. Nothing remains allocated after a call.",
  ["fault_sequences", "configurations", "schedules"], "every kernel and configuration, with allocation failing at any request or all of them",
  "Tests never run out of memory.",
  ["src/cuda/md_device_span.hpp", "src/cuda/stencil_proxy.hpp", "src/md_device_vector.hpp"], [("views over raw pointers, no temporaries; all data movement is device to device", "src/md_device_vector.hpp (comment), src/cuda/md_device_span.hpp")], observe=["allocation requests during a call", *OUT])
p("C18", "Host and device copies of an md_device_vector stay coherent",
  "For every history of fills, element offsets, host reads, device (kernel) writes, copies and conversions, the host view of an md_device_vector shows the last value written through the vector, for exactly the index ranges and ghost widths it was built with. Device code writes through a pointer from data() taken for that write, and the host view is read-only. A read that fails because memory ran out changes nothing, and an operation on one vector never affects another.",
  ["histories", "fault_sequences", "schedules"], "every history of operations over several vectors with kernel calls in between, and every allocation-failure point",
  "Tests use one fill, one kernel call, one read-back.",
  ["src/md_device_vector.hpp"], [("sync flag and copy-on-host-access", "src/md_device_vector.hpp")],
  state=[("sync", "whether the host copy equals the device copy", "src/md_device_vector.hpp")], observe=["host() / conversion results after each operation"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
