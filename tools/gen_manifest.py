import json
RUN = "/opt/venv/bin/python -B sim/check.py run "
NOTE = {
"C01": "Seeded sampling of fault sequences over every announced system call of the real tool; assumes the libc seam sees every call CPython makes.",
"C02": "Seeded histories of edits, kills, power losses, failed runs and clock jumps before a clean run; byte comparison with a run into an empty directory.",
"C03": "Seeded pairs of environments (hash seed, heap layout, gc, clock, pid, random numbers, directory order, cwd, location, variables) on valid and invalid projects.",
"C04": "Seeded permutations of inputs and module list, valid and invalid projects; byte comparison.",
"C05": "Every mutating call is seen at the seam and the whole machine's tree is compared, under seeded faults and kill points.",
"C06": "Seeded mutations of 44 kinds (file faults injected at open and read), alone and in pairs, with previous output in place.",
"C07": "Seeded call-by-call interleavings of 2-4 real processes, with kills; compared with solo runs. Granularity is one system call.",
"C08": "Seeded atomic replacements of inputs between system calls, also between short reads; compared with every combination of versions.",
"C09": "Step budget on interpreter events and system calls; adversarial and seeded inputs, transient and persistent faults.",
"C10": "Seeded sequences of invocations in one interpreter with faults, and of COSMOS packet selections, against fresh processes.",
"C11": "Generated headers compiled with gcc for a big-endian target, packets over a faulty simulated link, decoded by an interpreter of the generated COSMOS file, compared with the model; after seeded histories.",
"C12": "Message ids and packet identification by a COSMOS interpreter on a lossy, corrupting link; after seeded histories.",
"C13": "Generated headers and sources compiled with gcc for both byte orders, stored files read by compiled code, compared with the model; after seeded histories.",
"C14": "Seeded histories of projects around one module (other modules added, removed, edited, look-alikes, dependants; runs killed or failing in between); its artefacts compared with those of the module and its imports alone.",
}
NA = {
"N01": "a pure function of one input text: no schedule, clock, fault or second party takes part in it; needs a grammar-level technique",
"N02": "a pure function of the model text: comments are copied by the generator, no fault or interleaving can take part (that they do not vary between runs is C03)",
"N03": "a pure function of the model text; the CHOICE output is not complete C yet (missing newlines, undeclared members), so it cannot be executed either",
}
m = {"version": 1,
 "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); from sim.host import shim_path; print(shim_path())\"",
 "checks": [{"property": p, "quick_cmd": RUN + p, "thorough_cmd": "VERIF_TIER=thorough " + RUN + p,
             "technique": "deterministic simulation with fault injection", "level": "exploration",
             "level_note": n + " A clean batch is evidence, not proof."} for p, n in NOTE.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the seams are libc's system-call wrappers (LD_PRELOAD) and the CLI. Replay: /opt/venv/bin/python -B sim/check.py replay <file>."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
