#!/usr/bin/env python3
"""Write MANIFEST.json from the scenarios registered in sim/src/scen/mod.rs."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = re.findall(r'Prop \{ id: "(C\d\d)"', open(root + '/sim/src/scen/mod.rs').read())
NOTE = {
 "C01": "Seeded search over relay chains (2-5 processes, crashes, torn logs, fragmentation). Trusts the reference encoder in sim/src/refcbor.rs. Not exhaustive.",
 "C02": "Seeded search over delivery schedules and cut points; every read entry point is probed at every delivery event. Trusts the reference scanner for what is still missing. Not exhaustive.",
 "C03": "Seeded search over append/sync/crash/resume histories with torn tails; validator, reader mixes and the structural state machine are stepped over the same log. Trusts the reference scanner. Not exhaustive.",
 "C04": "Seeded search over interleavings of parsers taking turns on one reader with wrong-type and wrong-tag attempts. Trusts the reference parser. Not exhaustive.",
 "C05": "Seeded search over damage to stored and transmitted data and over call histories on the results; panics, aborts, stack overflows, hangs (CPU watchdog) and slices outside the input are detected in a supervised worker process. Overflow checks on; the thorough tier also runs a wrapping build. Not exhaustive.",
 "C06": "Seeded search over damage, differential against an independent well-formedness scanner and parser at every nesting form. Not exhaustive.",
 "C07": "Seeded search over interleavings of consumers of one message, with the receive buffer overwritten at arbitrary points. Not exhaustive.",
 "C08": "Seeded search over interleaved producers with nested builders, prefixes, recycled buffers and death part-way, against an append-only reference encoder. Not exhaustive.",
 "C09": "Seeded search over 54 derived types x peers x versions x foreign re-encoders x structural and byte damage, differential against independent layout tables (sim/src/zoo.rs). Not exhaustive, and only over the derived types in the zoo.",
 "C10": "Seeded search over histories of the typed and untyped wrappers with persistence, restart and damage, against a model store. Not exhaustive.",
 "C11": "Accounting allocator around every operation on damaged input over many simulated connections: peak <= 48 KiB + 400 x bytes received, repeat-run leak check, CPU watchdog for spinning. Not exhaustive.",
 "C16": "Seeded search over replicas that repair rotted nested records guided by nothing but reported paths, over a lossy link with crashes; every path is compared with an independent description of 15 nested derived types. Trusts that description (sim/src/paths.rs). Not exhaustive, and only over these types.",
 "C17": "Seeded search over fragmentation, damage and retransmission histories with parsers guided only by refusals, plus the facts of every refusal of every entry point judged against an independent parse. Malformed-lead facts are read from Debug renderings (that error type has no public name). Not exhaustive.",
 "C18": "Seeded search over replicas exchanging normalised copies through re-encoding middleboxes, with loss, repetition, tearing, partition and crash; every normalised copy is compared with a reference normal form and every native read with the value written. Not exhaustive over 64-bit values: edges and powers of two are favoured.",
 "C19": "Seeded search over compare-and-set, watch and deduplication histories on near variants of one value over a lossy, repeating, re-encoding network with server crashes; every comparison, of every comparable type, is judged against equality of the reference encodings. Not exhaustive.",
 "C20": "Seeded search over interleavings of scripts of calls on 1 to 4 threads, with re-entrance through callbacks, panics, floods, drops and reused buffers; every connection's log is compared with the same script executed alone (fresh thread, and for a sixth of the runs a fresh process). Threads hand over between calls, inside callbacks, and (on x86_64, by single-stepping; at most one such preemption at a time) between any two instructions of a library call; instructions of libc are not preempted. Not exhaustive.",
}
NA = {
 "C12": "as a claim over every 64-bit value: pure function of one integer and a width, no schedule, time, I/O, fault or history for a simulator to control; what replicas in a history rely on of it is claimed as C18",
 "C13": "as a claim over every pattern: pure function of one scalar, nothing nondeterministic to put behind a seam; what replicas in a history rely on of it is claimed as C18",
 "C14": "pure function of one element; its accept/refuse table over all 64-bit values is not a simulation claim; what peers in a history rely on of it is claimed as C18",
 "C15": "about compile-time code generation over type definitions: a run-time simulator cannot vary the programs; the types in the simulated zoo are checked against layout tables under C09",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
   "evidence_file": f"evidence/{i}.json",
   "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
   "level": "exploration",
   "level_note": NOTE[i],
 } for i in ids],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]
   + [{"property": k, "reason": "check not built yet"} for k in NOTE if k not in ids],
 "notes": "No hooks: every source of nondeterminism lies outside the library (its inputs, call order and memory), so the simulator drives the public API of the unmodified crate.",
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
