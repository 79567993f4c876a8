#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
T = {
 "C01": "differential runtime oracle (brute-force clipping) over generated sets",
 "C02": "differential runtime oracle (brute-force clipping) and symmetry monitor",
 "C03": "structural invariant monitor on every result",
 "C04": "bitwise comparison under perturbed schedules (interposed thread starts)",
 "C05": "metamorphic monitor over grid resolutions and permutations",
 "C06": "differential runtime oracle for recompute runs",
 "C07": "trace monitor: bitwise permutation and stable grouping",
 "C08": "AddressSanitizer, UBSan, library assertions, valgrind memcheck on hostile workloads",
 "C09": "ThreadSanitizer on single and overlapping calls",
 "C10": "brute-force k-nearest oracle on observed candidate lists",
 "C11": "cycle oracle with canaries, host and device variants under sanitizers",
 "C12": "sort oracle with canaries, host and device variants under sanitizers",
 "C13": "monitor of the printed summary against an oracle's counts",
 "C14": "reference-model monitor over random histories",
 "C15": "parse-back monitor of printed and saved text",
 "C16": "device kernels executed through a monitoring SYCL stand-in, compared with the CPU",
 "C17": "real python module under ASan against a reference process",
 "C18": "real command line tool under ASan+UBSan against a reference process",
 "C19": "stream state snapshots around single, failing and overlapping calls",
 "C20": "fault injection at every allocation and thread start",
 "C21": "logical work bound and watchdog on degenerate workloads",
 "C22": "long double oracle on primitives under sanitizers",
 "C23": "history-independence monitor against fresh processes",
 "C24": "comparison across index types and precisions",
 "C25": "metamorphic monitor over the symmetries of the cube",
 "C26": "metamorphic monitor over larger limits, cells selected by an independent model",
 "C27": "metered allocation and thread starts: peak, high-water mark and remainder",
 "C28": "monitor of standard error and of the validators on valid and damaged sets",
 "C29": "executed edges counted per thread (coverage instrumentation), metamorphic bounds",
 "C30": "monitored calls, reads and saves under changing process locales, compared with the classic one",
}
N = "Held on the executions observed (counts in the evidence file), not a proof. "
L = {
 "C08": N + "Memory and arithmetic errors on paths the workload reaches; device code runs as host code through the shim.",
 "C09": N + "Races without a happens-before edge in the executed code are reported whatever the schedule; libstdc++ itself is not instrumented.",
 "C16": N + "Kernels run on the host through /verif/shim; trusts that the shim models SYCL ranges, accessors and local memory faithfully.",
 "C20": "Every allocation and thread start of each generated configuration is failed in turn (sampled above 1500 points); configurations themselves are sampled.",
 "C21": N + "Termination is judged as bounded work: worker starts per call, and a generous watchdog with one repetition.",
 "C29": N + "Work means executed edges of the instrumented code; bounds are ratios between two runs (1.8 and below), so constant factors are not judged.",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in sorted(T):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + T[p],
                   "level": "fault_enumeration" if p == "C20" else "exploration", "level_note": L.get(p, N + "Oracle, generators and tolerances are in /verif/src.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": [],
           "notes": "Checks compile harnesses from /verif/src against /repo's working tree (cache: /verif/build, keyed by content) and run them on 8 shards. No hooks in /repo."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
