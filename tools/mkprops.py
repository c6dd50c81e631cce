#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

R = "include/heffte_reshape3d.h"; RC = "src/heffte_reshape3d.cpp"
PK = "include/heffte_pack3d.h"; G = "include/heffte_geometry.h"; U = "include/heffte_utils.h"
CM = "include/heffte_common.h"; CT = "src/heffte_compute_transform.cpp"; PL = "src/heffte_plan_logic.cpp"
PLH = "include/heffte_plan_logic.h"; F3 = "include/heffte_fft3d.h"; FR = "include/heffte_fft3d_r2c.h"
FW = "include/heffte_backend_fftw.h"; MK = "include/heffte_backend_mkl.h"; ST = "include/heffte_backend_stock.h"
RR = "include/heffte_r2r_executor.h"; C = "src/heffte_c.cpp"; CH = "include/heffte_c.h"; CD = "include/heffte_c_defines.h"
FT = "fortran/heffte.cmake.i"; PY = "python/heffte.py"; TR = "include/heffte_trace.h"

prop("P01", "Packing copies exactly the planned block",
 "On the CPU, packing places element (i,j,k) of the planned block at its compact position in the message buffer, and unpacking is the exact inverse placement, for every block size, stride and axis permutation, element type and index type. Nothing outside the planned block of the user array, and nothing outside the compact message, is read or written, and every element is transferred exactly once.",
 ["inputs"], "all block sizes (including 0, 1 and sizes that are not multiples of the cache tile), strides, six axis permutations, all element and index types",
 "The tests pack a few tiny blocks whose extents stay below or at a tile multiple for some types; the tiled loops, strides and permutations are quantified over all sizes.",
 [PK], [("pack / unpack of the direct and transposing packers", PK)])

prop("P02", "Redistribution plans describe exactly the overlap of the two layouts",
 "For any pair of data layouts, every rank's planned send to (receive from) a peer covers exactly the intersection of its own input (output) box with the peer's output (input) box: the starting offset, the extents, the strides in its own memory order and, when the memory orders differ, the stride and axis map of the peer's packing order are those of that intersection. Every peer with a non-empty intersection appears exactly once and peers with an empty one transfer nothing.",
 ["inputs", "configurations"], "all box layouts, ranks, memory orders, communication algorithms and index types",
 "Tests use a handful of regular decompositions on 1 to 12 ranks; the offset and stride formulas must hold for every box and order.",
 [RC, R, G], [("overlap map construction", RC), ("factories of the redistribution objects", R)])

prop("P03", "Message counts, displacements and buffer slots agree for any batch",
 "For every redistribution algorithm and any batch size, the buffer slot where data for a peer is packed is the slot that is sent to it, the count sent matches what the peer receives, and each received slot is unpacked with the plan of its sender into the right batch entry of the destination. Slots of different peers or batch entries never overlap, and source data is completely packed before the destination is overwritten, so in-place redistribution is safe.",
 ["inputs", "configurations"], "all batch sizes, group sizes, message sizes and algorithms, in-place and out-of-place",
 "Tests cover batch sizes 1 and a few others on symmetric exchanges where a wrong slot or stride can coincide with the right one.",
 [RC, R], [("apply of the collective and point-to-point redistributions", RC)])

prop("P04", "Non-blocking communication is always completed before buffers are reused",
 "Every non-blocking receive or send started by a redistribution is completed before the call returns, every received message is unpacked only after its own receive completed and exactly once, and no buffer region of an outstanding operation is written or reused before completion. This holds for every message arrival order.",
 ["schedules", "inputs"], "all message arrival orders, peers and batch sizes of the point-to-point algorithms",
 "MPI on one host delivers small messages eagerly and almost always in order, so missing waits or early reuse are invisible to the tests.",
 [RC, R], [("point-to-point redistribution", RC)])

prop("P05", "Collective operations are entered by every rank of their communicator",
 "Whether a rank enters a collective MPI operation, and in which order, never depends on rank-local data: all ranks of a communicator make the same sequence of collective calls when plans are created and used, including ranks that hold no data. Ranks outside a created sub-communicator never use it.",
 ["schedules", "inputs", "configurations"], "all layouts including empty boxes, all ranks and algorithms",
 "A rank-dependent collective shows up only as a hang for particular layouts; tests run a few layouts where every rank holds data.",
 [RC, R, U, F3, FR], [("sub-communicator creation", U), ("factories of redistributions", RC), ("plan construction", F3)])

prop("P06", "Communicators, groups, vendor plans and C handles are released exactly once",
 "Every communicator and group the library creates, every vendor FFT plan and every plan object behind a C handle is released exactly once on destruction, is never released while it is still in use, and resources owned by the user (such as the user's communicator) are never released by the library. Plan objects held by applications cannot be copied, and the library never copies an object that owns such a resource.",
 ["histories", "inputs"], "all creation, copy/move and destruction histories",
 "Leaks and double releases do not fail the unit tests, which create a handful of plans and exit.",
 [R, RC, U, FW, MK, C], [("destructors of redistributions", R), ("FFTW/MKL plan wrappers", FW), ("C plan destroy", C)])

prop("P07", "Redistribution work space is within the advertised size",
 "Every read or write a redistribution makes to its work buffer lies within batch times the number of entries it advertises, for every layout, algorithm and batch size, and its send and receive areas are disjoint.",
 ["inputs", "configurations"], "all layouts, algorithms and batch sizes",
 "An overrun of a few elements lands in over-allocated heap memory and stays silent in the tests.",
 [R, RC], [("advertised work-space size", R), ("apply", RC)])

prop("P08", "Transforms run every planned stage exactly once, in order, for all batch entries",
 "For every combination of present and absent redistributions and local transforms, direction, and in-place or out-of-place use, a call applies redistribution 0, transform 0, redistribution 1, transform 1, redistribution 2, transform 2, redistribution 3 exactly once each in that order to the data (absent ones being skipped), and the output holds the last result. Each local transform is applied to each batch entry at the stride of that entry's box, and a rank without data never touches a missing stage.",
 ["inputs", "configurations"], "all 16 patterns of active redistributions, local transforms present or absent, both directions, aliasing, batch sizes; complex, real-to-complex and complex-to-real pipelines",
 "The test layouts activate only some of the redistribution patterns, and batch runs use few of them.",
 [CT], [("transform pipelines", CT)])

prop("P09", "Transform work buffers never overlap and stay within the advertised work space",
 "During a transform the communication buffers, the temporary holding the data between stages and the scratch space of local transforms occupy disjoint parts of the work buffer, and all of them lie within the advertised work-space size times the batch size, for every plan.",
 ["inputs", "configurations"], "all plans, stage sizes, batch sizes and back ends",
 "Overlaps corrupt data only when sizes of consecutive stages differ in particular ways; tests use nearly equal boxes.",
 [CT, F3, FR, RR], [("buffer layout in the pipelines", CT), ("work-space size and offsets computed at setup", F3)])

prop("P10", "Plans transform all three directions on complete lines and chain their layouts",
 "For every input and output layout and every option, the plan's stage directions are a permutation of the three axes, in each stage every rank holds complete lines (or the slabs it was promised) along the direction transformed, stage layouts chain from the user's input to the user's output layout, and the real-to-complex direction is transformed first with the following layouts covering the reduced index space. When reordering is enabled each stage's direction is contiguous in memory.",
 ["inputs", "configurations"], "all box layouts, slab/pencil/reorder options, r2c directions and process counts",
 "Tests try a few decompositions; planner branches for pre-existing pencils and slabs on input or output are reached for few of their combinations.",
 [PL, PLH, G], [("pencil and slab planners", PL)])

prop("P11", "The backward transform mirrors the forward transform",
 "Backward applies the inverse stages in the reverse order of forward: its redistributions are the forward ones with source and destination swapped in reverse order, and its local transforms are the forward ones in reverse order, on the same boxes. Its input size is the forward output size and vice versa.",
 ["inputs", "configurations"], "all plans and all stage combinations including fused 2-D and 3-D local transforms",
 "Round trips are tested on few layouts and only where both paths use the same fused stages.",
 [F3, FR, PLH], [("plan setup of both directions", F3), ("plan setup of r2c plans", FR)])

prop("P12", "Scaling uses the right factor, exactly once, over all results",
 "A transform with full or symmetric scaling multiplies every entry of the local result (and nothing else), once, for all batch entries, by the inverse or inverse square root of the transform's global normalization (the number of global entries, with the documented variants for the sine/cosine transforms); with no scaling the result is left untouched.",
 ["inputs", "configurations"], "all global sizes, batch sizes, transform kinds, directions and scaling modes",
 "Tests check scaling for a few sizes, mostly complex-to-complex and batch one; a count based on the wrong box is invisible when boxes have equal sizes.",
 [F3, FR, PK], [("scale factor", F3), ("application after the pipelines", F3), ("scaling kernel", PK)])

prop("P13", "Local transforms cover every line of the box exactly once",
 "For each back end built here and each box, axis and memory order, the batched 1-D (and fused 2-D and 3-D) transforms address each line of the box along the transformed axes exactly once: lengths, strides, distances, number of lines and block starts match the box and its order, complex and real sides of real transforms included.",
 ["inputs", "configurations"], "all box sizes and memory orders, transformed axes, back ends (stock, FFTW, MKL), precisions and index types",
 "Tests use a few small boxes and mostly the default memory order.",
 [FW, MK, ST], [("FFTW executors", FW), ("MKL executors", MK), ("stock executors", ST)])

prop("P14", "Vendor plans are created for the right direction, kind and precision",
 "Each local transform is executed with a vendor plan of the requested direction (forward uses the negative exponent), precision and kind (complex, real-to-complex, complex-to-real, or the documented sine/cosine kind), on arrays with the placement and alignment the plan was made for, and lazily created plans are created before first use and at most once.",
 ["inputs", "configurations", "histories"], "all transform kinds, precisions and call histories",
 "Tests exercise each kind on few sizes; a mixed up kind between mirrored branches is only seen for that exact combination.",
 [FW, MK, ST, RR], [("vendor plan wrappers", FW), ("vendor plan wrappers", MK)])

prop("P15", "Sine/cosine transforms extend and extract signals by the documented symmetry",
 "The sine and cosine transforms implemented through a longer real transform write every entry of the extended signal they later transform, following the documented even/odd symmetry for every length, and read back exactly the coefficients belonging to the requested transform; the scratch they use is what was reserved.",
 ["inputs"], "all line lengths and line counts, forward and backward, the cosine/sine variants",
 "Tests compare a few lengths; the extension is index arithmetic over all lengths.",
 [RR], [("pre- and post-processing of the extended signal", RR), ("scratch sizes", RR)])

prop("P16", "Input arrays are never modified by out-of-place transforms",
 "An out-of-place transform or redistribution never writes to the caller's input array, also not through local transforms or vendor libraries, for any plan and stage pattern.",
 ["inputs", "configurations"], "all plans, transform kinds and back ends",
 "The tests rarely look at the input again after a transform, and complex-to-real vendor transforms destroy their input only for some sizes.",
 [CT, RC, PK, F3, FR, C], [("pipelines", CT), ("redistribution apply", RC)])

prop("P17", "Transforms are repeatable: execution does not change a plan's behaviour",
 "Executing transforms does not alter any plan state that influences later results: the same plan applied to the same data gives the same communication and computation, whatever was executed before, with lazily created vendor plans and transient communication handles as the only state written.",
 ["histories"], "all sequences of forward, backward, batch and work-space variants on one plan",
 "Tests apply a plan once or twice.",
 [F3, FR, R, RC, FW, MK, ST], [("plan and redistribution state", R), ("lazy vendor plans", FW)])

prop("P18", "Only matching input, output and work-space types are accepted",
 "Calls combining array types that the requested transform and back end cannot support (mixed precision, real output of a complex transform, wrong work-space type, unsupported back ends for real-to-complex or sine/cosine plans) do not compile, while every documented combination does.",
 ["programs"], "all combinations of documented scalar types for the three array roles, per plan class and direction",
 "A test suite only contains programs that compile; what must be rejected is never built.",
 [F3, FR, U, CM], [("type compatibility traits", U), ("front-end overloads", F3)])

prop("P19", "Messages use the MPI datatype of the transferred element type",
 "Every MPI transfer uses the datatype that corresponds to the element type of the buffer passed, on both sides, and counts expressed in elements of that type.",
 ["inputs", "configurations"], "all element types and all transfers",
 "Wrong but equally sized datatypes work on homogeneous hosts and in the tests.",
 [U, RC, G], [("datatype mapping", U), ("calls to MPI", RC)])

prop("P20", "The C interface selects the matching plan, precision and operation",
 "Each C entry point forwards to the transform its name, the plan's kind (complex or real-to-complex) and its back end designate, with the documented precision, array roles, direction and scaling; invalid back ends and failed constructions yield the documented error codes, and handles store and release the object kind they were created with. Plan queries return the value for the kind of plan queried.",
 ["inputs", "configurations", "histories"], "all C functions x back ends x plan kinds x scaling values",
 "The C tests use one or two back ends and a few of the entry points.",
 [C, CH, CD], [("C wrappers", C)])

prop("P21", "Fortran and Python interfaces agree with the C/C++ interface",
 "The constants, default arguments, argument order and transform roles exposed through the Fortran and Python interfaces agree with the C/C++ interface: numeric codes for back ends, scaling and algorithms match, and each foreign method calls the C function of the same kind, precision and direction.",
 ["configurations"], "all exported constants, methods and type combinations",
 "Neither interface is exercised by the reliable tests with more than a few combinations.",
 [PY, FT, CH, CD], [("ctypes declarations and dispatch", PY), ("SWIG interface", FT)])

prop("P22", "Container calls check sizes and return correctly sized results",
 "The overloads taking containers reject inputs smaller than the local box of the transform's input before touching data, allocate results of exactly the size of the transform's output box (times batch), and hand the plan the data of those containers.",
 ["inputs"], "all container sizes, directions, plan kinds",
 "Tests only pass containers of the right size.",
 [F3, FR], [("vector overloads", F3), ("vector overloads", FR)])

prop("P23", "Domain decomposition covers the index space exactly once",
 "Splitting a world box over a process grid, building pencils and slabs, shrinking for real-to-complex and intersecting boxes are exact: the parts are disjoint, in range, cover the whole world and keep the requested memory order, for every world size, grid and number of processes. The emptiness, size and counting queries on boxes agree with their index ranges.",
 ["inputs"], "all worlds (including sizes smaller than the grid), process grids and index types",
 "Tests use few worlds and divisors; boundary arithmetic is quantified over all sizes.",
 [G, PLH], [("world splitting", G), ("pencil and slab construction", G), ("box algebra", G)])

prop("P24", "Errors reported by vendor libraries are not lost",
 "A failure status returned by a vendor FFT library when creating, configuring or executing a local transform is turned into an exception rather than being ignored, so that invalid results are never returned silently.",
 ["fault_sequences"], "all calls to status-returning vendor functions",
 "Vendor calls never fail in the tests.",
 [MK, FW], [("MKL descriptor handling", MK), ("FFTW plan handling", FW)])

prop("P25", "User options are honoured by the plan and the back ends",
 "Each user option (reordering, algorithm, pencils or slabs, GPU-aware communication, sub-ranks) reaches the decision it documents: the requested communication algorithm is the one used, and options that a back end cannot support or requires are corrected consistently for every plan kind, with every back end knowing whether it has fused 2-D/3-D transforms.",
 ["configurations"], "all option values x back ends x plan kinds",
 "All algorithms give the same numbers, so tests cannot tell whether an option was honoured.",
 [PLH, F3, FR, R, CM], [("option handling", PLH), ("algorithm dispatch", R)])

prop("P26", "Fused stages are used only where the stage layout allows them",
 "A plan replaces several 1-D local transforms by one fused 2-D or 3-D transform only when no redistribution lies between the stages in either direction and the back end provides it, and then each direction is still transformed exactly once.",
 ["inputs", "configurations"], "all redistribution patterns, option values and back ends",
 "Only a few layouts lead to fused stages, and for those forward and backward mostly fuse alike.",
 [F3, FR], [("executor selection", F3)])

prop("P27", "Tracing does not change behaviour and the log is complete",
 "Enabling tracing changes neither communication nor computation: the only additional effects are appended log entries, each traced region yields one entry with its start time and duration, and finalizing writes every entry to the per-rank log file.",
 ["configurations", "histories"], "all code paths with and without tracing",
 "The suite is built with one setting of the option.",
 [TR, RC, CT], [("trace scope object", TR)])

prop("P28", "Sub-rank plans keep intermediate data on the selected ranks",
 "When a plan is limited to n ranks, intermediate layouts place data on exactly the n selected ranks, in the positions of the reduced process grid, and give every other rank an empty box, while the union of boxes still covers the whole index space and user layouts stay untouched.",
 ["inputs", "configurations"], "all process counts, sub-rank counts and layouts",
 "Tests use few rank counts.",
 [PLH, PL, G], [("rank remapping", PLH), ("pencil and slab construction", G)])

prop("P29", "Transforms compute the discrete Fourier transform accurately",
 "The result of a forward transform equals the discrete Fourier transform of the global input up to rounding, for any size, and backward inverts forward under full scaling.",
 ["inputs"], "all sizes and data", "Accuracy is sampled on a few random inputs.",
 [ST, FW, MK], [("local transforms", ST)])
prop("P30", "All back ends agree on the result",
 "Plans for different back ends applied to the same distributed data produce the same result up to rounding.",
 ["inputs", "configurations"], "all sizes, data and back ends", "Sampled on few inputs.",
 [ST, FW, MK], [("local transforms", ST)])
prop("P31", "The built-in FFT handles every length by a complete factorization",
 "The built-in back end handles every transform length: lengths are decomposed completely, every sub-transform is dispatched to an implementation valid for its length, and scratch is sized for it.",
 ["inputs"], "all lengths", "Tests use a list of lengths.",
 ["include/stock_fft/heffte_stock_tree.h", "include/stock_fft/heffte_stock_algos.h", ST], [("factorization tree", "include/stock_fft/heffte_stock_tree.h")])
prop("P32", "The processor grid search returns the best-balanced grid",
 "The processor grid chosen for a world is a factorization of the process count that fits the world and minimizes the surface of the (truncated) local boxes among all such factorizations.",
 ["inputs"], "all worlds and process counts", "Tests check few counts.", [G], [("grid search", G)])
prop("P33", "Redistribution work scales with the data, not with the number of ranks",
 "Executing a redistribution costs time proportional to the local data and the number of actual peers.",
 ["inputs"], "all layouts", "No performance tests in the suite.", [RC], [("apply", RC)])
prop("P34", "GPU back ends compute the same results as CPU back ends",
 "The GPU kernels and vendor plans perform the same data movement and transforms as their CPU counterparts.",
 ["inputs", "configurations"], "all sizes and GPU back ends", "No GPU in the test environment.",
 ["include/heffte_backend_cuda.h", "include/heffte_backend_rocm.h", "include/heffte_backend_oneapi.h"], [("GPU executors and kernels", "include/heffte_backend_cuda.h")])

prop("P35", "The built-in FFT routines compute the discrete Fourier transform",
 "In exact arithmetic, every routine of the built-in back end's FFT (radix-2, radix-3, radix-4, mixed-radix and direct DFT) writes, for every output index k, the sum over all inputs n of input n times the root of unity of exponent n*k/N with the sign given by the direction, for every length the routine is selected for and every input and output stride, and writes nothing else; combined with the factorization tree (P31) this makes the local transform the discrete Fourier transform. Prime lengths above the Rader threshold are covered only by their selection.",
 ["inputs"], "all lengths and strides", "Tests use a list of lengths and mostly unit stride.",
 ["include/stock_fft/heffte_stock_algos.h", "include/stock_fft/heffte_stock_tree.h"], [("FFT kernels", "include/stock_fft/heffte_stock_algos.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
