#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the checks that exist.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("online oracle: every result compared with an independent extended-precision evaluation", "Held on the executed quartets (random and hostile shells, all vector types and recurrence strategies); trusts the reference evaluation."),
 "C02": ("online oracle: derivatives compared with an independent evaluation, sum over centres", "Held on the executed quartets; trusts the reference evaluation."),
 "C03": ("differential monitor: batch results against single-quartet results over random assembly histories", "Held on the executed batches; bitwise equal or equal to rounding."),
 "C04": ("online oracle: screening estimates, maxima and dropped contributions bounded per primitive quartet", "Held on the executed calls; trusts the reference evaluation for the contributions that may be dropped."),
 "C05": ("guard pages, AddressSanitizer, UBSan and MemorySanitizer builds under random workloads", "No report on the executed calls; red zones miss non-adjacent accesses inside live allocations."),
 "C06": ("differential monitor: repeated calls with perturbed buffers, stack, heap and call history; input hashes", "Held on the executed repetitions."),
 "C07": ("ThreadSanitizer and comparison of concurrent with serial results", "No race and no difference on the executed schedules."),
 "C08": ("model-based monitor of random lifecycle histories under ASan, UBSan, LeakSanitizer", "Held on the executed histories."),
 "C09": ("online oracle: every result compared with an independent extended-precision evaluation", "Held on the executed shell pairs; trusts the reference evaluation."),
 "C10": ("online oracle: every result compared with an independent extended-precision evaluation", "Held on the executed shell pairs; trusts the reference evaluation."),
 "C11": ("online oracle: every result compared with an independent extended-precision evaluation", "Held on the executed shell pairs and charges; trusts the reference evaluation."),
 "C12": ("online oracle: every lane compared with an independent extended-precision evaluation", "Held on the executed vectors; trusts the reference evaluation."),
 "C13": ("online oracle over builds: sampled configurations are built and their results compared with the reference", "Held on the configurations built in this run."),
 "C14": ("monitor of script runs: every table entry dumped from a program and compared with mpmath; the library's evaluation on regenerated grids under ASan", "Held on the script runs made; complete for the committed tables."),
 "C15": ("monitors of generator runs: tree comparison, fault injection, exit-status checks", "Held on the generator runs made."),
 "C16": ("online oracle: normalised coefficients and self-overlaps compared with their closed form", "Held on the executed shells."),
 "C17": ("differential monitor: a Fortran driver against a C driver over random calls", "Held on the executed calls."),
 "C18": ("differential monitor: results and leaks after random init/finalize histories", "Held on the executed histories."),
 "C19": ("online oracle: results with dummy shells compared with an independent evaluation", "Held on the executed quartets; trusts the reference evaluation."),
 "C20": ("structural monitor: every field of shell-pair objects against a model", "Held on the executed shell pairs."),
 "C21": ("AddressSanitizer and UBSan builds of the generator programs over quartets and options; output compared across compilers; memcheck", "No report on the executed generator runs."),
 "C22": ("structural monitor: every table entry against the closed form", "Complete for the tables in the tree."),
 "C23": ("monitor of installations: package requests, and consumers' results compared with the reference evaluation", "Held on the installations made."),
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p + ".py")):
        checks.append(dict(property=p, quick_cmd="python3 checks/%s.py" % p, thorough_cmd="python3 checks/%s.py --thorough" % p,
                           technique=T[p][0], level="fault_enumeration" if p == "C15x" else "exploration", level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the monitors observe the public interface and object contents. Checks build everything under /verif/build (ignored by git) from /repo's working tree.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
