"""Regenerates MANIFEST.json: claimed properties vs not applicable ones."""
import json
CLAIMED = "Q01 R01 R02 R03 R04 T01 T02 T03 V01 V02 V03 S01 P01 A01 L01 L02 L03 N01 C01 O01 G01 G02 G03 J01 W01 M01 M02 B01".split()
CB = "contract-based deductive verification (CBMC function contracts enforced with goto-instrument --dfcc, or assume/call/assert contracts, on /repo's source)"
NOTES = {
 "M01": (CB, "Contracts (pre/post, frame, freed set) on the functions of src/mem.c, for all sizes up to 2^40, all offsets and contents, discharged by cbmc (SAT or z3) with no loop bound for every operation that touches only the top chunk; operations that walk the chunk list (pop, release, destroy, chunk_count) are bounded to lists of up to 3 chunks and labelled so. The invariant carries the history argument. malloc is assumed to succeed and return 16-byte aligned storage; pointer comparison is flat."),
 "M02": (CB, "Contracts on pools, region lists, cons cells and buffers without bound on sizes and contents (each operation against the invariant); operation histories, growable vectors, memory swap and heap sort are bounded (bounds in the evidence) and labelled so. The region allocator is seen through its contract, which M01 proves."),
 "B01": (CB, "Bit access, byte order, time sums, differences, comparisons and units for every word and index; word-wise and/or/xor are bounded to 160 bits and time normalisation to 100 s of nanoseconds, labelled bounded. 64-bit machine arithmetic, with signed-overflow obligations for the time functions."),
}
IRB = "contract-based deductive verification (function contracts on the real code's LLVM IR, symbolic execution + algebraic normal forms + z3); sizes enumerated up to a stated bound"
LAB = "Every contract is discharged for all real values of all elements, for each size (rows, columns, leading dimension, stride, offset) in a stated range (bounded in the sizes: the ranges are in the evidence); LAPACK factorisations are assumed contracts (exact Cramer solutions, ghost factors), BLAS calls are executed by their reference semantics. Reals for doubles."
NOTES["L01"] = (IRB, LAB, "model_checking")
NOTES["L02"] = (IRB, LAB, "model_checking")
NOTES["L03"] = (IRB, "Every contract is discharged for all real values of the free costs (magnitude below 1e300), along every path of the algorithm: all costs free up to 2x2; larger sizes (3x3, 3x2, 2x3, 1x3, 3x1, 4x4) as families around stated matrices with a free shift of all costs and one free entry (bounded: the list is in the evidence). Each returned matching is compared with every other matching. Reals for doubles.", "model_checking")
NOTES["N01"] = (IRB, "Every contract is discharged for all real values of coefficients, bounds and solutions, for each combination of absent, one-sided, two-sided and equal bounds and each size in a stated list (bounded). GLPK, LP-Solve and Clp are assumed contracts of the calls amino makes (amv/harness/lp.c, amv/harness/clp): each call changes the problem as the library's manual says, solving ends with any status at any point; for Clp a header with these contracts takes the place of the library's. Magnitudes stay below the libraries' thresholds of infinity. Reals for doubles.", "model_checking")
NOTES["C01"] = (IRB, "The real amino_fcl.cpp is compiled against a stand-in for FCL (amv/harness/fcl.h, fcl.c, fcl/): the library's answer about each pair of shapes is any value the contract states, the broad phase may offer pairs that do not touch, in any of four orders; objects must be known to the broad phase at their current pose. Poses, sizes, separations, penetrations and nearest points are all reals; the frames, shapes, allowed pairs and touching pairs are enumerated (bounded). FCL itself (whether two shapes touch) is assumed; Eigen types used for its poses are stand-ins too. Addresses of distinct blocks are ordered both ways where compared. Reals for doubles.", "model_checking")
NOTES["O01"] = (IRB, "The right-hand side, goal check and fields are arbitrary caller functions (every call returns fresh unconstrained values); stages, nodes and weights are compared with the published tableaux for all states, times and step sizes; bounded in the state dimension (1..3) and, for the solver loop, in the number of accepted steps and retries (linear time-varying right-hand sides). Reals for doubles.", "model_checking")
SGN = "Scene graphs are built, indexed and queried by the real C++ code (SceneGraph, its frames and the C interface), with arbitrary unit quaternions, translations, axes, offsets, configurations, limits and transform tables; std::string, the red-black tree and list primitives of libstdc++ and operator new are assumed contracts. "
NOTES["G01"] = ("contract-based deductive verification (function contracts on the real code's LLVM IR, symbolic execution + algebraic normal forms + z3)", SGN + "Each frame type as a root and as a child is discharged for all real values; histories (reparent, replace, remove, copy) are bounded to three frames and labelled so. Reals for doubles.")
NOTES["G02"] = (IRB, SGN + "Forward kinematics, incremental updates and Jacobians are discharged for all values for each scene-graph shape in a stated list (bounded in the shape); that a Jacobian column is the derivative of forward kinematics is an unbounded lemma over the contracts. Reals for doubles.", "model_checking")
NOTES["J01"] = (IRB, "Waypoints, limits and evaluation times are arbitrary reals; 2 to 4 waypoints and 1 to 2 joints with stated directions of motion (bounded in the number of waypoints and joints); blends of 3 and 4 points only without overlap or with equal distances, and termination of the overlap resolution is not shown. libstdc++ list operations are assumed contracts. Reals for doubles.", "model_checking")
NOTES["W01"] = (IRB, "Objectives, checks, feedback and the velocity maps are discharged for all values of poses, Jacobians, gains, tolerances, seeds and limits, for each chain shape in a stated list (bounded in the shape). Forward kinematics, pseudo-inverses, the dual-quaternion logarithm and its derivative and the solver loop enter by contracts that G02, L01, T03, V02 and O01 discharge; the external optimiser nlopt is arbitrary (it may stop anywhere). Convergence is not claimed. Reals for doubles.", "model_checking")
NOTES["G03"] = (IRB, SGN + "Index maps, scatter/gather and limits for each scene-graph shape, chain and stride in a stated list (bounded in the shape). Reals for doubles.", "model_checking")
NA = {}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
base = ("Deductive: every listed function is executed symbolically from the LLVM IR compiled from /repo on this run, for all real inputs in the contract's precondition; "
        "callees are replaced by their own verified contracts or inlined; each postcondition, frame condition, bounds and definedness obligation is discharged by the normal-form prover or z3. "
        "Assumes exact real arithmetic for doubles and the assumed contracts of libm/BLAS/LAPACK listed in the evidence.")
m = dict(version=1, setup_cmd="true",
         hooks=dict(guard="AMV_NO_HOOKS", enable="no hooks are needed: checks compile /repo's sources as they are", source_commits=[]),
         checks=[dict(property=i, quick_cmd="python3-vt -m amv.run " + i, thorough_cmd="VERIF_TIER=thorough python3-vt -m amv.run " + i,
                      evidence_file="evidence/%s.json" % i,
                      technique="contract-based deductive verification (function contracts on the real code's LLVM IR, symbolic execution + algebraic normal forms + z3)" if i not in NOTES else NOTES[i][0],
                      level="proof" if i not in NOTES or len(NOTES[i]) < 3 else NOTES[i][2], level_note=base if i not in NOTES else NOTES[i][1]) for i in ids if i in CLAIMED],
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in CLAIMED],
         notes="See DESIGN.md.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
