#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# seeds that the quick check looks at even when the machine is slow
LEAST = {'C01': 6500, 'C02': 7500, 'C03': 10000, 'C04': 8000, 'C05': 11000, 'C06': 16000, 'C07': 25000, 'C08': 8000, 'C09': 10000, 'C10': 7500, 'C11': 8500, 'C12': 8000, 'C13': 8000, 'C14': 8500, 'C15': 4000, 'C16': 4000, 'C17': 3200, 'C18': 8000, 'C19': 6500, 'C20': 6000, 'C24': 6000, 'C25': 600}
T = {
 "C01": "crash and power-loss points in seeded simulated runs; oracle: old map or undisturbed result",
 "C02": "seeded crashes after 'Done.' with un-synced writes lost; durability oracle",
 "C03": "seeded I/O, lock, disk-full and allocation faults; all-or-nothing and reporting oracle",
 "C04": "seeded crash/fault histories followed by a fault-free rerun; progress and refinement oracle",
 "C05": "seeded interleaving with a second SQLite client; serializability check of the history",
 "C06": "simulated terminal and prompt faults; byte-equality and ordering oracle",
 "C07": "seeded refused and valid requests under simulated faults; no-effect oracle",
 "C08": "seeded corruption of stored mapblocks between simulated commands; containment against a reference model",
 "C09": "simulated overlay runs with crashes and faults; byte-equality of the input map",
 "C10": "crash, power-loss and disk-full points in simulated vacuum runs; row-equality oracle",
 "C19": "seeded thread schedules, stalls, clocks and terminal faults; console-stream oracle",
 "C24": "seeded command histories with crashes, faults and full disks; invariant over the rest of the database and the disk",
 "C25": "simulated runs on large maps with a heap limit (allocations beyond it fail); bounded-memory invariant",
 "C20": "pairs of simulated runs under different schedules, clocks, hash seeds and file layouts",
}
HIST = "seeded command histories with crashes, faults and damage in simulation; refinement against a reference model"
NOTE = ("Seeded exploration of the unmodified program and its SQLite inside a deterministic simulator (scheduling, clock, disk, locks, terminal, "
        "randomness, allocation); a pass covers the seeds explored and is no proof. Trusts the disk model (512-byte sectors, un-synced data lost in any "
        "combination, metadata in order), the independent mapblock decoder and the reference model.")
ids = ["C%02d" % i for i in list(range(1, 21)) + [24, 25]]
checks = [dict(property=i, quick_cmd="MSIM_SECS=90 MSIM_LEAST=%d ./check.sh %s" % (LEAST[i], i), thorough_cmd="MSIM_SECS=900 MSIM_LAST=900 ./check.sh %s" % i,
               technique="deterministic simulation with fault injection: " + T.get(i, HIST), level="exploration", level_note=NOTE) for i in ids]
na = [
 dict(property="C21", reason="pure function of one integer: no schedule, time, I/O, fault or history for a simulation to vary (wrong conversions that reach a map still show in C11-C16)"),
 dict(property="C22", reason="pure formatting function of one number: nothing for a simulator to schedule or fault (the printed figures are compared with the map in C18)"),
 dict(property="C23", reason="pure predicate on a string: nothing for a simulator to schedule or fault (refusal and acceptance of sampled names is part of C07)"),
]
m = dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the simulator replaces libc symbols of the unmodified binary. Replay: ./check.sh replay FILE [trace].")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
