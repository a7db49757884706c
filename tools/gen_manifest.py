"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C18": "A pure function of the numbers fed in: no scheduling, time, I/O, randomness or failure takes part, so there is nothing to simulate or inject.",
    "C19": "Closed-form matrix algebra on the values of one object: no nondeterminism or fault can influence it.",
    "C20": "A range check in a setter: a pure function of the argument with no schedule, clock, I/O, crash or history to explore.",
}
TECH = {
    "model": "deterministic simulation: seeded thread schedules and faults over programs of training operations, checked against a reference model",
    "store": "deterministic simulation: simulated disk and process crash/restart with injected write, read and corruption faults, checked against fingerprints of the saved objects",
    "stream": "deterministic simulation: seeded input streams with lost, repeated, reordered, delayed and non-finite frames, checked against a reference smoother and twin models",
    "phrase": "deterministic simulation: seeded histories of recordings from two streams with failing allocations, checked against a reference model",
    "tset": "deterministic simulation: seeded histories of operations on training sets with failing allocations and restarts, checked against a reference model",
}
FAM = lambda n: "model" if n <= 10 else "store" if n <= 13 else "stream" if n <= 15 or n == 21 else "phrase" if n == 16 else "tset"
NOTE = {
    "model": "Seeded search, no exhaustiveness. Every interleaving is decided by the simulator at the instrumented memory accesses and synchronisation calls of the real library code; memory is sequentially consistent in the simulation, unsynchronised accesses are reported by C09. Trusted: the simulator (sim/rt.cpp), the reference training of a class alone in one thread, the compiler's instrumentation.",
    "store": "Seeded search, no exhaustiveness. Real serialisation and stream code runs over a simulated disk; crashes keep exactly what the disk model calls durable. Trusted: the disk model (sim/disk.cpp) and the fingerprints taken before the crash.",
    "stream": "Seeded search, no exhaustiveness. Real filtering code; trusted: the reference smoother, for C21 the reference recursion (it takes the densities of single Gaussians from the library), and the floating-point tolerances of the comparisons.",
    "phrase": "Seeded search, no exhaustiveness. Trusted: the reference model (lists of frames).",
    "tset": "Seeded search, no exhaustiveness. Trusted: the reference model (maps from number to label and frames).",
}


def main():
    checks, na = [], []
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)["id"]
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
            continue
        f = FAM(int(p[1:]))
        t, n = TECH[f], NOTE[f]
        if p == "C09":
            t = "deterministic simulation: seeded thread schedules with a vector-clock happens-before race detector over every access of the library (models in training, and models, training sets, phrases, distributions and configurations used by several threads)"
        if p == "C10":
            t += "; several objects and threads side by side, each checked as if it were alone (models, training sets, phrases, distributions, K-means models and configurations)"
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p, "technique": t, "level": "exploration", "level_note": n})
    m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the simulator takes over at the compiler's access instrumentation (-fsanitize=thread call-outs, own runtime), the pthread, clock, random, malloc and file system call seams. SWIGPYTHON, which the library already has, opens its protected members to the checks."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
