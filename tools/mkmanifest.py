import json, os, sys
sys.path.insert(0, os.path.dirname(__file__)); sys.dont_write_bytecode = True
from catalog import PROPS
NA = {
 "C19": "The generator is a pure function of the protocol file (Python, no concurrency, time, I/O interleaving or multi-party behaviour), so there is no schedule or fault for a simulator to decide; the generated code of four fixed protocols does run inside every simulated run.",
 "C20": "The Windows and Vali back ends need those systems' headers, sockets and kernels; they cannot be compiled here, so no simulation can execute them.",
}
checks = []
for p in sorted(PROPS):
    checks.append(dict(property=p, quick_cmd="./check.py %s quick" % p, thorough_cmd="./check.py %s thorough" % p, evidence_file="evidence/%s.json" % p,
        technique="deterministic simulation with fault injection (seeded search)", level="exploration",
        level_note="Seeded search over schedules and faults of the real library inside a simulated process, kernel and heap: evidence for the runs explored, not a proof. Workload: " + PROPS[p]["workload"] + ". Trusts the simulated kernel's Linux semantics and assumes sequentially consistent memory."))
json.dump(dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo: the library's objects are compiled from the working tree with -fsanitize=thread callbacks and their libc symbols are redirected to the simulator with objcopy. Shipped builds are unaffected. The 'fix:' commits are listed in known_findings.txt."),
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
