#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":("simulated module medium with permanent and flaky faults, reference decoder","Seeded search; every version, level and mask is visited by stratification, damage up to the exact budget. Trusts the independent encoder and the reference decoder in sim/src/qr.rs."),
"C02":("simulated module medium with faults beyond the budget, reference decoder, observing writer","Seeded search over bursts, tearing, lost rows, noise and matrices of every size. Trusts the reference decoder for which answers are right."),
"C03":("simulated output stream with short writes, EINTR, errors, zero progress, full device; prefix invariant after each write","Seeded search over writer scripts. The invariant is evaluated at every write call."),
"C04":("faulty producer (cut, corrupted and mis-encoded streams) and faulty output stream against an executable segment model","Seeded search; cut points and headers are drawn inside every kind of segment."),
"C05":("seeded scheduling of concurrent and re-entrant callers at basic-block granularity, compared with sequential answers","Seeded search over schedules: one caller runs at a time, so every interleaving of instrumented edges is reachable but weak memory effects are not."),
"C06":("cancellation by unwinding at drawn callbacks, and stream faults, then comparison of all other objects with their known answers","Seeded search over crash points and follow-up histories. The interrupted prepared image itself is outside the claim."),
"C07":("capture pipeline with injected faults; panic, overflow, out-of-buffer access and executed-edge budget monitored","Seeded search over frames; overflow checks and debug assertions are on, so silent wrap-around is caught too."),
"C08":("simulated camera stream with unreadable frames, lighting, noise and data faults against ground truth","Seeded search inside the stated regime (integer scale, quarter turns), all versions and levels stratified."),
"C09":("simulated scenes with several codes and clutter up to label exhaustion against ground truth","Seeded search over placements and amounts of clutter; ambiguous placements and finder look-alikes are set aside by independent tests."),
"C10":("simulated pixel sources and image buffers that record and police every access; outcomes compared across storage layouts","Seeded search over contents, sizes, sources and layouts."),
"C11":("simulated image buffer that checks every write, over histories of scans, clones and abandoned scans","Seeded search over histories; the invariant is checked at every single buffer write."),
"C12":("histories of scans on an image and its clones in drawn order, compared step by step","Seeded search over histories, including frames with more regions than there are labels."),
"C13":("simulated module medium with arbitrary data faults against the layout prescribed by the standard","Seeded search; all versions, levels and masks stratified."),
"C14":("accounting allocator under histories with failures and cancellations","Seeded search over operation mixes. Allocation failure itself cannot be injected: it aborts a Rust program."),
"C15":("simulated module medium and camera showing mirrored symbols with faults, including symbols valid in both orientations","Seeded search over symbols, damage and orientations."),
"C18":("simulated disk behind std::fs (interrupted and failing opens, short, interrupted and failing writes, full device) under the debug dumps","Seeded search over fault scripts; pictures are read back by an independent parser (BMP, PGM, PPM, PAM)."),
"C16":("long seeded histories over pools of matrices and frames against first-operation answers","Seeded search over histories of dozens of operations, some with tens of thousands of repetitions."),
}
NA=[("C17","A pure function of one integer: there is no schedule, clock, fault, history or interleaving for a simulator to decide. (All 40 versions are exercised end to end by C01, C13 and C08.)"),
("C19","A pure function of an enum value: no schedule, fault or history is involved.")]
m=dict(version=1,setup_cmd="bash setup.sh",
 checks=[dict(property=k,quick_cmd=f"bash check.sh {k}",thorough_cmd=f"VERIF_TIER=thorough bash check.sh {k}",evidence_file=f"evidence/{k}.json",
   technique="deterministic simulation with fault injection: "+t,level="exploration",level_note=n) for k,(t,n) in sorted(T.items())],
 not_applicable=[dict(property=a,reason=b) for a,b in NA],
 notes="No hooks in /repo: every seam the simulator needs is already part of the public API (Write, BitGrid, pixel callbacks, image buffers, allocator); scheduling points come from compiler instrumentation of the unmodified sources (sim/rustc-wrap.sh). Known findings: known-findings.txt.")
open(os.path.join(root,"MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
