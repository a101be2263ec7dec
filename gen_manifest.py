#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed iff checks/check_<id>.py exists."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = {
 "C01": ("TLA+ kd-tree design checked by TLC; every search of the real trees (TLC-enumerated and random clouds) replayed as traces against the TLA+ nearest-neighbour contract",
         "Design exhaustively checked for small N; code answers accepted only if the TLA+ contract holds. Coordinates on an exact lattice. ASan on."),
 "C03": ("TLA+ design of the sorted-run voxel grid checked by TLC (negative control: the out-of-range defect); every TLC-enumerated voxel sequence and random clouds replayed, outputs checked against the TLA+ conservation contract",
         "Exact rational means recovered on a sub-lattice; voxel coordinates up to and beyond the 21-bit limits; ASan on."),
 "C04": ("TLA+ model of block workers with an atomic slot reservation explored over all interleavings (negative controls: non-atomic reservation, out-of-range runs); OpenMP/TBB outputs under jittered and seeded schedules checked against the same TLA+ conservation contract; ThreadSanitizer binds the atomicity assumption",
         "All interleavings of the model for N<=5; sampled schedules of the code."),
 "C02": ("TLA+ model of concurrent node allocation/splitting/joining (TLC, with negative controls); traces of trees built by the real OpenMP/TBB builders under seeded schedules checked against the TLA+ contract; the model's atomicity assumptions bound by ThreadSanitizer on an instrumented OpenMP/TBB runtime",
         "All interleavings of the model for small N; sampled schedules of the code, any unsynchronised access is reported."),
 "C05": ("TLA+ models of the task-parallel merge sort, quick sort and the tiled radix sort explored over all interleavings (negative controls: missing join, missing barrier); every TLC-enumerated key sequence and random ranges sorted by the real code under jittered and seeded schedules, results checked against the TLA+ sort contract; ThreadSanitizer binds the join assumptions",
         "All interleavings of the models for small N; sampled schedules of the code."),
 "C06": ("TLA+ design of selection sampling checked by TLC (every subset stays reachable; negative control: replacement); draws of the real code over many generator states checked against the TLA+ contract, with the set of all drawn subsets as specification state",
         "Subset coverage for clouds of up to 6 points; equal-state determinism and distinctness up to 1500 points. ASan on."),
 "C07": ("TLA+ design of the voxel vector + hash index + LRU clean-up refining a history-determined content (TLC; negative control: stale index); every TLC-enumerated history and random histories replayed into the real map, whose full content is compared with the content the specification prescribes after every insertion",
         "Exact attributes under lattice poses; settings change in mid-history. ASan on."),
 "C08": ("searches recorded in the real maps checked against the TLA+ nearest-neighbour contract over the neighbourhood predicate; index consistency in the TLA+ design (TLC)",
         "Exact distances; up to 110000 cells or 9000 points per cell; neighbourhood changed in mid-history. ASan on."),
 "C09": ("TLA+ design of the sum/mean accumulator checked by TLC (negative control: mean not turned back into a sum); TLC-enumerated and random histories replayed into the real Gaussian map, means and covariances compared with the prescribed ones after every insertion",
         "Means compared to 1/256 lattice unit; up to 70000 points per cell. ASan on."),
 "C10": ("TLA+ specification of the Levenberg-Marquardt acceptance/damping/termination machine explored by TLC (invariants: never worse, converged iff; negative control: stale error); scripted runs enumerated by TLC and random problems recorded through mock reductions and general factors and accepted as behaviours of the same machine",
         "Integer-coded systems; the damped step is verified against the recorded system to 1/16384; NaN errors, zero limits. ASan on."),
 "C11": ("TLA+ specification of the Gauss-Newton machine explored by TLC; scripted runs enumerated by TLC and random problems recorded through mock reductions and general factors and accepted as behaviours of the same machine",
         "Integer-coded systems; the damped step is verified against the recorded system to 1/16384. ASan on."),
 "C12": ("TLA+ design of the worker-slot reduction and of the split/run/join tree reduction explored over all interleavings (negative controls: shared slot, reset body, copied accumulator); every TLC-enumerated accept pattern and random factor sets evaluated by the real reductions under jittered and seeded schedules, results checked against the TLA+ sum contract; ThreadSanitizer binds the no-sharing assumption",
         "Integer contributions; rejecting factors leave NaN behind; nested parallel callers; sampled schedules of the code."),
 "C13": ("TLA+ design of the factor's pairing step refining the pairing rule (TLC; negative control: stale index); every TLC-enumerated history of linearizations, rejections and error evaluations and random ones replayed into the real factors over trees, voxel maps and scripted searches, accepted as behaviours of the rule",
         "Exact distances on integer poses; distance limits exactly on, inside and outside; large offsets; stale-state histories. ASan on."),
 "C14": ("TLA+ rule deriving the exact gradient and information from finitely many error evaluations, confirmed by TLC against the definition over an exhaustive family of integer factors (negative control: factor two); every linearization of the real factors recorded next to evaluations of its own error and checked against the rule; robust weights as a monotone relation kept in the specification state",
         "Rational rotations, full covariances; comparison to 1/4096. ASan on."),
 "C15": ("TLA+ design of the mask state machine and of the stiffened solve checked by TLC in exact rational arithmetic (negative controls: soft stiffness, overwriting setter); every TLC-enumerated sequence of mask settings and random ones replayed into the real optimizers over scripted systems, each observed step checked against the restricted-solution contract; whole alignments of scenes",
         "Steps compared to 1/16384; all 64 masks. ASan on."),
 "C16": ("TLA+ design of the object with its caches refining the logical state, full state space explored by TLC (negative controls: swap, resolution, covariances keep a voxel map); every TLC-enumerated operation sequence and random histories replayed into the real class, every alignment compared with the explicit pipeline and a fresh object configured from the specification's state",
         "All sequences of three (thorough: four) operations; results compared to 1e-4. libstdc++ assertions on."),
 "C19": ('TLA+ rule deciding least-spread directions in integers without eigenvalues, confirmed by TLC against all directions over an exhaustive family of point sets, and a TLA+ design of the parallel slot-filling explored over all interleavings (negative controls: wrong eigenvector, shared scratch, late resize); TLC-enumerated and random lattice clouds estimated by every real backend, with real and scripted neighbour searches, accepted by the rule; ThreadSanitizer binds the no-sharing assumption',
         'Directions exact to 1/4096 for up to 24 points; larger clouds compared between backends; sampled schedules, nested teams.'),
 "C20": ('TLA+ design of the window scan over a wrapped and clipped index map refining the set of cells of the window, checked by TLC over all small maps (negative control: a cell visited twice); every TLC-enumerated window geometry and random clouds searched by the real code, cells recomputed from the spherical geometry of integer points, answers accepted by the TLA+ nearest-neighbour contract over the window',
         'Cell membership decided away from cell borders; two border modes per axis; more than 65536 points. ASan on.'),
 "C17": ('TLA+ design of the settings forwarding of every branch checked by TLC against the prescribed stage plan over all sets of deviating settings (negative controls: a setting not forwarded, thread count not forwarded); every TLC-enumerated overload/type/deviation combination and random calls executed next to the explicit pipeline, stage plans checked against the TLA+ plan and outcomes compared; the specification state requires every setting to have been distinguishable',
         'Results compared to 1e-4, clouds to 1e-7; thread teams observed at the OpenMP runtime interface. libstdc++ assertions on.'),
 "C22": ('TLA+ design of the pair-and-step iteration in exact rational arithmetic showing recovery inside the basin for every small target, displacement and tie-break (TLC; negative control: no basin); scenes and rational motions whose membership in the basin is decided in integers by the trace specification, aligned by every factor, backend, optimizer and search structure; every result accepted only if the motion is recovered and the backends agree',
         'Recovery up to the given tolerances; scattered scenes for backend agreement of a step. libstdc++ assertions on.'),
 "C23": ('TLA+ model checking of the step-wise read-only request design + TLC trace checking of recorded concurrent requests (real threads and TSan schedules)',
         'answers compared bit for bit with the request made alone'),
 "C24": ('TLA+ model checking of memory layouts refining the container contract + TLC-generated container histories and algorithm answers replayed on every container and checked by TLC',
         'answers compared across containers to 1e-4'),
 "C21": ("TLA+ model checking of the pipeline's accesses on degenerate sizes + TLC-enumerated operations x inputs run under address/UB sanitizers, results checked by TLC",
         '7200 operation x input combinations (quick)'),
 "C18": ('TLA+ specification of Python sessions as plans of C++ stages (model checked with negative controls); TLC enumerates sessions, a driver runs them on the module built from the tree and their plans on the C++ interface, TLC validates the recorded observations',
         'every entry point x layout x columns x threads, keyword sets up to size 2 (3 in thorough) by name and by position, feature histories, refusals, tiny and large arrays'),
 "C25": ('TLA+ specification of the file formats and of the reader (model checked with negative controls); TLC enumerates files, the driver writes and reads them, TLC validates what came back',
         'all kinds of header x vertex counts x property counts up to 8 (12 in thorough); one recorded finding (more than four properties)'),
}
TECH["C26"] = ("TLA+ design of align() with its factor vector and of objects as values checked by TLC (negative controls: vector kept, vector shared, damping written back, copy aliasing); TLC-enumerated and random histories of real objects accepted as behaviours of the same state machine",
               "all histories of four operations over two objects (thorough: five) for five type combinations; results compared bit for bit where the order of summation is fixed")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", f"check_{i.lower()}.py")) and i in TECH:
        t, n = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"python3 checks/check.py {i} quick", thorough_cmd=f"python3 checks/check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 -c 'print(1)'", checks=checks, not_applicable=na,
               notes="TLA+ specifications in spec/, drivers in harness/, orchestration in checks/. No hooks in /repo: everything is observed through the public (templated) interface."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
