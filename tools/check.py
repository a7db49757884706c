"""Decides one property by seeded simulation.

    check.py PROPERTY [quick|thorough] [--seconds N] [--seed N]

Exit 0: the property held on everything explored. Exit 1: a line
"VIOLATION property=<id> replay=<path>". Exit 2: the check could not decide.
"""
import argparse, json, os, re, selectors, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
WORKERS = 8
RESULT = re.compile(r"R (\d+) (\d) ([0-9a-f]{16}) ([0-9a-f]{16}) (\d+) (\d+) (\d+) (\d+) (\d+) (\d+)((?: \S+=\d+)*)(?:\tV ([^:]*): (.*))?$")
# classes whose verdict depends on the schedule being fair: their decisions are recorded, not thinned out
FAIR = {"not-stopped", "hang", "alldone-missing", "timeout"}


class Run:
    def __init__(self, line):
        m = RESULT.match(line)
        if not m:
            raise ValueError(line)
        g = m.groups()
        self.index, self.verdict, self.hash, self.sched = int(g[0]), int(g[1]), g[2], g[3]
        self.steps, self.ns, self.switches, self.threads, self.ndec, self.stages = map(int, g[4:10])
        self.extra = dict((k, int(v)) for k, v in (x.rsplit("=", 1) for x in g[10].split()))
        self.cls, self.msg = g[11] or "", g[12] or ""

    def faults(self):
        return sum(v for k, v in self.extra.items() if not k.startswith("p:"))


def simx(exe, *args, **kw):
    inp = kw.pop("input", None)
    env = dict(os.environ, **kw.pop("env", {}))
    env.pop("SIMX_NOASLR", None) if not kw.pop("aslr", False) else env.__setitem__("SIMX_NOASLR", "1")
    r = subprocess.run([exe] + [str(a) for a in args], input=inp.encode() if inp is not None else None, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, env=env, timeout=kw.pop("timeout", 400))
    return r.stdout.decode(errors="replace")


def run_plan(exe, text, trace=False):
    """Outcome of one plan in a fresh process."""
    out = simx(exe, "run", "-", *(["trace"] if trace else []), input=text)
    d = {"log": "", "dec": [], "fault": [], "stack": [], "counts": {}}
    lines = out.split("\n")
    if "log-begin" in lines:
        a, b = lines.index("log-begin"), len(lines) - 1 - lines[::-1].index("log-end")
        d["log"] = "\n".join(l for l in lines[a + 1:b] if l.strip())
        lines = lines[:a] + lines[b + 1:]
    for l in lines:
        k, _, v = l.partition(" ")
        if k in ("dec", "fault"):
            d[k].append(l)
        elif k.startswith("stack"):
            d["stack"].append(v.split())
        elif k == "count":
            n, c = v.rsplit(" ", 1)
            d["counts"][n] = int(c)
        elif k:
            d[k] = v
    d["verdict"] = int(d.get("verdict", 2))
    return d


def run_many(exe, plans):
    """Outcomes of many plans, in parallel."""
    res = [None] * len(plans)
    procs = []
    for w in range(min(WORKERS, len(plans))):
        ids = list(range(w, len(plans), WORKERS))
        p = subprocess.Popen([exe, "many"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        procs.append((p, ids))
    import threading

    def talk(p, ids):
        out, _ = p.communicate("".join(plans[i] + "==\n" for i in ids).encode())
        for i, l in zip(ids, out.decode(errors="replace").splitlines()):
            try:
                res[i] = Run(l)
            except ValueError:
                pass
    ts = [threading.Thread(target=talk, args=a) for a in procs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


class Plan:
    def __init__(self, text):
        self.head, self.ops, self.fault, self.dec, self.replay = [], [], [], [], False
        for l in text.splitlines():
            if not l or l[0] == "#":
                continue
            k = l.split(" ", 1)[0]
            if k == "op":
                self.ops.append(l)
            elif k == "fault":
                self.fault.append(l)
            elif k == "dec":
                self.dec.append(l)
            elif k == "replay":
                self.replay = True
            else:
                self.head.append(l)

    def copy(self, **kw):
        p = Plan("")
        p.__dict__.update(self.__dict__)
        p.__dict__.update(kw)
        return p

    def sched(self, delta):
        return self.copy(head=["sched %d" % (int(h.split()[1]) + delta) if h.startswith("sched ") else h for h in self.head])

    def text(self):
        return "\n".join(self.head + self.ops + self.fault + self.dec + (["replay"] if self.replay else [])) + "\n"


def minimise(exe, plan, cls, deadline, say):
    """A smaller plan with a violation of the same class, in replay mode where that is possible."""
    tries = [0]

    def first(cands):  # the first candidate that still fails
        tries[0] += len(cands)
        rs = run_many(exe, [c.text() for c in cands])
        for c, r in zip(cands, rs):
            if r and r.verdict == 1 and r.cls == cls:
                return c
        return None

    def ddmin(plan, key, variants):
        n = 2
        while time.time() < deadline:
            items = getattr(plan, key)
            if not items:
                return plan
            n = min(n, len(items))
            size = (len(items) + n - 1) // n
            cuts = [(i, min(i + size, len(items))) for i in range(0, len(items), size)]
            best = None
            for at in range(0, len(cuts), 32):
                cands = [v for a, b in cuts[at:at + 32] for v in variants(plan.copy(**{key: items[:a] + items[b:]}))]
                best = first(cands)
                if best or time.time() > deadline:
                    break
            if best:
                plan = best
                n = max(2, n - 1)
            elif size == 1:
                return plan
            else:
                n = min(len(items), n * 2)
        return plan

    two = lambda p: [p, p.sched(1), p.sched(2), p.sched(3)]
    plan = ddmin(plan, "ops", two)
    # shorter lists and smaller counts inside the operations that are left
    for i in range(len(plan.ops)):
        progress = True
        while progress and time.time() < deadline:
            progress = False
            words = plan.ops[i].split(" ")
            cands = []
            for w in range(2, len(words)):
                k, _, v = words[w].partition("=")
                el = v.split(",")
                if len(el) > 1:
                    for e in range(len(el)):
                        cands += two(plan.copy(ops=plan.ops[:i] + [" ".join(words[:w] + [k + "=" + ",".join(el[:e] + el[e + 1:])] + words[w + 1:])] + plan.ops[i + 1:]))[:2]
            got = first(cands[:64]) if cands else None
            if got:
                plan, progress = got, True
    # record the schedule and the faults
    d = run_plan(exe, plan.text(), True)
    if d["verdict"] != 1 or d.get("class") != cls:
        return plan, tries[0]
    rec = plan.copy(dec=d["dec"], fault=d["fault"], replay=True)
    e = run_plan(exe, rec.text())
    if e["verdict"] != 1 or e.get("class") != cls:
        say("note: the recorded schedule does not reproduce the violation; keeping the seed")
        return plan, tries[0]
    plan = rec
    if plan.fault:
        plan = ddmin(plan, "fault", lambda p: [p])
    if cls not in FAIR and len(plan.dec) < 20000:
        plan = ddmin(plan, "dec", lambda p: [p])
    return plan, tries[0]


def symbols(exe, stack):
    if not stack:
        return []
    out = subprocess.run(["addr2line", "-Cfpe", exe] + stack, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace")
    res = []
    for l in out.splitlines():
        f, _, at = l.rpartition(" at ")
        if len(f) > 110:
            f = f[:107] + "..."
        res.append("%s at %s" % (f, at))
    return res


def known_findings(prop):
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)", l)
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return res


def explore(exe, prop, seed, seconds, stop):
    """Runs workers until the time is over or stop(run) says so. Returns the runs."""
    sel = selectors.DefaultSelector()
    procs, runs, bad = [], [], []
    for w in range(WORKERS):
        p = subprocess.Popen([exe, "batch", prop, str(seed), str(w), str(WORKERS), "1000000000", str(seconds)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        os.set_blocking(p.stdout.fileno(), False)
        procs.append(p)
        sel.register(p.stdout, selectors.EVENT_READ, [b""])
    t0, until = time.time(), None
    live = WORKERS
    while live:
        for key, _ in sel.select(1.0):
            buf = key.data
            data = key.fileobj.read()
            if data == b"":
                sel.unregister(key.fileobj)
                live -= 1
                continue
            if data is None:
                continue
            buf[0] += data
            *lines, buf[0] = buf[0].split(b"\n")
            for l in lines:
                try:
                    r = Run(l.decode(errors="replace"))
                except ValueError:
                    bad.append(l.decode(errors="replace"))
                    continue
                runs.append(r)
                if r.verdict == 1 and stop(r) and until is None:
                    until = time.time() + 2  # look at what the other workers find at the same time
        if (until and time.time() > until) or time.time() - t0 > seconds + 120:
            break
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    return runs, bad, time.time() - t0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    prop, t_start = a.property, time.time()
    seconds = a.seconds or (45 if a.tier == "quick" else 1500)
    props = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(l)
        props[d["id"]] = d
    if prop not in props:
        print("unknown property", prop)
        return 2
    try:
        exe = B.build()
    except RuntimeError as e:
        print(e)
        return 2
    t_build = time.time() - t_start
    known = known_findings(prop)
    for _, _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    is_known = lambda r: any((c == r.cls or c == "*") and m.search(r.msg) for c, m, _ in known)
    runs, garbled, wall = explore(exe, prop, a.seed, seconds, lambda r: not is_known(r))
    kinds = dict(l.split(" ", 1) for l in simx(exe, "kinds").splitlines())
    found = sorted((r for r in runs if r.verdict == 1 and not is_known(r)), key=lambda r: (len(r.msg) == 0, r.steps))
    errors = [r for r in runs if r.verdict == 2]
    status, notes, chosen = 0, [], None

    def say(s):
        print(s)
        notes.append(s)

    if not found:  # runs that did not come to an end in real time are looked at again, alone
        for r in [r for r in errors if r.cls == "timeout"][:2]:
            d = run_plan(exe, simx(exe, "plan", prop, a.seed, r.index))
            if d.get("class") == "timeout":
                r.cls, r.msg, r.verdict = "timeout", "the run does not end: " + d["message"], 1
                found.append(r)
                break
    for r in found[:6]:  # a violation counts if it happens again, exactly, in fresh processes
        text = simx(exe, "plan", prop, a.seed, r.index)
        d1 = run_plan(exe, text)
        d2 = run_plan(exe, text) if d1.get("class") == r.cls else d1
        if d1.get("class") == r.cls and (d1.get("hash"), d1.get("class")) == (d2.get("hash"), d2.get("class")):
            chosen = (r, text)
            break
        say("note: run %d (%s) did not repeat exactly; looking for another" % (r.index, r.cls))
    if found and not chosen:
        say("error: violations were seen but none repeats exactly")
        status = 2
    replay_path = None
    if chosen:
        r, text = chosen
        status = 1
        plan, tries = Plan(text), 0
        n_ops = len(plan.ops)
        if r.cls != "timeout":
            plan, tries = minimise(exe, plan, r.cls, time.time() + (60 if a.tier == "quick" else 180), say)
        d = run_plan(exe, plan.text(), True)
        if d.get("class") != r.cls and r.cls != "timeout":
            plan = Plan(text)
            d = run_plan(exe, text, True)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays", "%s-seed%d-run%d.plan" % (prop, a.seed, r.index))
        head = ["# violation of %s: %s" % (prop, props[prop]["title"]), "# class: %s" % d.get("class"), "# %s" % d.get("message"),
                "# found by: check.py %s --seed %d, run %d; %d of %d operations, %d of %d scheduling decisions, %d faults left after %d trial runs" % (
                    prop, a.seed, r.index, len(plan.ops), n_ops, len(plan.dec), r.ndec, len(plan.fault), tries),
                "# replay: python3 tools/replay.py <this file>   (expected hash %s)" % d.get("hash")]
        for i, s in enumerate(d["stack"]):
            head.append("# stack %d:" % i)
            head += ["#   " + x for x in symbols(exe, s)]
        head += ["# log:"] + ["#   " + l for l in d["log"].splitlines()[-40:]]
        with open(replay_path, "w") as f:
            f.write("\n".join(head) + "\n" + plan.text())
        print("\n".join(head[:5 + 26]))
    if status == 0 and (not runs or len(errors) * 5 > len(runs) or len(garbled) > 3):
        say("error: %d of %d runs could not be simulated (%s)" % (len(errors), len(runs), errors[0].msg if errors else "no result"))
        status = 2

    # the same seeds again in other processes, with addresses randomised: the runs have to repeat exactly
    mismatch = checked = 0
    if status != 1:
        seq = [r for r in runs if r.verdict != 2]
        for r in seq[:: max(1, len(seq) // 16)][:16]:
            try:
                o = Run(simx(exe, "batch", prop, a.seed, r.index, 1, 1, 60, aslr=True).splitlines()[0])
            except (IndexError, ValueError, subprocess.TimeoutExpired):
                continue
            checked += 1
            mismatch += o.hash != r.hash
        if mismatch:
            say("note: %d of %d repeated runs differ" % (mismatch, checked))

    ok = [r for r in runs if r.verdict != 2]
    trivial = lambda r: r.switches == 0 and r.faults() == 0 and not any(k.startswith("p:") for k in r.extra)
    distinct = set(r.hash for r in ok if not trivial(r))
    faults, probes = {}, {}
    for r in ok:
        for k, v in r.extra.items():
            if k.startswith("p:"):
                probes[k[2:]] = probes.get(k[2:], 0) + v
            else:
                n = kinds.get(k[1:], k)
                faults[n] = faults.get(n, 0) + v
    samples = []
    for r in ok[:: max(1, len(ok) // 4)][:3]:
        samples.append({"seed": a.seed, "run": r.index, "plan": simx(exe, "plan", prop, a.seed, r.index).splitlines()[:40], "steps": r.steps, "switches": r.switches, "threads": r.threads,
                        "decisions": r.ndec, "simulated_ns": r.ns, "hash": r.hash, "counts": r.extra})
    family = {"model": "training programs", "store": "crash and storage programs", "stream": "performance streams", "phrase": "recording programs", "tset": "training set programs"}
    cov = {
        "evaluations": len(ok),
        "distinct_nontrivial": len(distinct),
        "rule": "One case is one simulated run: a program of operations, a schedule and faults drawn from (VERIF_SEED, property, run number). Two runs are the same case if their execution hash (scheduling decisions, positions of all context switches, event log, number of simulated steps) is the same; a run is trivial if it had no context switch, no injected fault and reached none of the scenario's probes.",
        "samples": samples,
        "runs_per_hour": round(len(ok) / wall * 3600) if wall else 0,  # one seed per run
        "exploration_s": round(wall, 1),
        "simulated_time_s": round(sum(r.ns for r in ok) * 1e-9, 3),
        "simulated_steps": sum(r.steps for r in ok),
        "context_switches": sum(r.switches for r in ok),
        "distinct_schedules": len(set(r.sched for r in ok if r.switches)),
        "distinct_schedules_measure": "hash over (thread switched to, step at which it happened) of every context switch of a run and over its event log",
        "max_threads": max([r.threads for r in ok] or [0]),
        "simulated_processes": sum(r.stages for r in ok),
        "process_restarts": sum(r.stages - 1 for r in ok),
        "faults_injected": faults,
        "probes": probes,
        "simulator_errors": len(errors),
        "repeated_runs": checked,
        "repeated_runs_that_differ": mismatch,
        "real_components": ["all of /repo/src (xmm)", "all of /repo/dependencies/jsoncpp", "libstdc++ (containers, streams, std::thread, std::mutex, std::condition_variable)", "glibc mathematics and formatting"],
        "simulated_components": ["thread scheduler, mutexes and condition variables below std::thread (pthread seam)", "clock and sleep", "random()", "heap (malloc seam: fill patterns, quarantine, failures)", "file system calls under /simdisk (stdio/iostream system call seam)", "process crash and restart"],
    }
    if replay_path:
        cov["replay"] = replay_path
        cov["violation"] = {"class": chosen[0].cls, "message": chosen[0].msg}
    if notes:
        cov["notes"] = notes
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": ["Interleavings are explored at instrumented memory accesses and at synchronisation calls under sequential consistency; unsynchronised accesses are reported as races (C09).",
                          "Sampling: nothing is claimed about runs that were not drawn."],
          "wall_s": round(time.time() - t_start, 1), "violations": 1 if status == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, tmp[:-4])
    print("%s %s: %d runs (%d distinct), %d schedules, %d switches, %.3f simulated s, %d faults, build %.1f s, exploration %.1f s, total %.1f s" % (
        prop, a.tier, len(ok), len(distinct), cov["distinct_schedules"], cov["context_switches"], cov["simulated_time_s"], sum(v for k, v in faults.items() if k != kinds.get("4")), t_build, wall, time.time() - t_start))
    if status == 1:
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
    return status


if __name__ == "__main__":
    sys.exit(main())
