#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "reference-model monitor: outputs of every conversion path against independent Cartesian definitions",
 "C02": "reference-model monitor: extraction outputs against energy, angular momentum and eccentricity vector",
 "C03": "reference-model monitor of helper outputs (anomaly, wrapping, orbit sampling)",
 "C04": "reference-model monitor: element rates against the complex-step derivative of the Cartesian map",
 "C05": "reference-model monitor: Q and gradient of all generated functions against an independent complex-step Q",
 "C06": "reference-model monitor: commanded direction against gradient and sampled directions",
 "C07": "monitor of integrator steps on ODEs with known solutions; order and step-proposal oracle",
 "C08": "offline checker over recorded solve histories: each step re-flown by a shadow model",
 "C09": "offline trace checker: lengths, alignment and time-grid automaton over solve histories",
 "C10": "offline trace checker: Kepler's equation on every recorded anomaly step",
 "C11": "offline conservation checker over mass histories",
 "C12": "offline checker: outcome recomputed from the recorded trajectory, limits placed on and around chosen nodes",
 "C13": "offline trace-specification automaton (duty windows) over recorded histories",
 "C14": "offline energy-conservation checker and nondeterministic battery/duty automaton over recorded histories",
 "C15": "offline checker of effectivities and decisions; event log of threshold callbacks",
 "C16": "history checker: operation sequences with injected faults against a pristine-process run; caller-memory monitor",
 "C17": "reference-model monitor: perturbation outputs against potentials, with real SPICE calls on synthetic kernels",
 "C18": "exactly-once checker over the client-boundary event log plus shadow re-flight",
 "C19": "reference-model monitor of Cartesian and interpolated histories",
 "C20": "monitor of exported dictionary and file against the recorded flight",
 "C21": "monitor of figure artists against recorded histories",
 "C22": "sanitizer: bounds-checked and interpreted twin processes, canary cells, dirtied memory",
 "C23": "metamorphic monitor over pairs of recorded solves",
 "C24": "online progress monitor (Q decrease per step) and bounded-liveness monitor over transfer families",
 "C25": "state monitor around rejected calls, object compared with a fresh one afterwards",
 "C26": "reference-model monitor of target test and safeguards",
 "C27": "metamorphic monitor: the same problem in equivalent statements, recorded solves compared",
 "C28": "offline checker of captured console output against the problem and the recorded histories",
 "C29": "monitor of helper outputs and figure artists against surface equations and axis definitions",
 "C30": "fault-injection monitor: exceptions at client calls and source lines, what is left compared with the uninterrupted history",
 "C31": "schedule-controlled concurrency monitor: seeded thread interleavings at client calls and source lines, results against solo runs",
 "C32": "metamorphic monitor: cut, extended and segmented real solves compared history by history",
 "C33": "metamorphic monitor: real solves of mirrored and time-reversed problems mapped back and compared node by node",
 "C34": "metamorphic monitor: pairs of real solves that differ in settings not in force, compared node by node",
 "C35": "state monitor: snapshots of process-wide state around every operation, and fresh interpreter processes compared bit for bit",
}
note = ("oracle observes executions of the code in /repo on seeded random and structured workloads; counters of what was observed are in the evidence file "
        "and a monitor that was never reached makes the run inconclusive")
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, numba, sympy, scipy, spiceypy, matplotlib, mpmath'",
         checks=[dict(property=k, quick_cmd="./check.sh %s quick" % k, thorough_cmd="./check.sh %s thorough" % k, technique=v, level="exploration", level_note=note)
                 for k, v in T.items()], not_applicable=[])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
