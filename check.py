#!/usr/bin/env python3
"""check.py PROP quick|thorough -- decides one property by seeded search over simulated runs.

Rebuilds the simulator from /repo's working tree, searches seeds derived from VERIF_SEED on all cores, gates every
violation (the same seed recorded twice and the minimised file replayed in a fresh process must agree), minimises it,
prints VIOLATION lines and rewrites evidence/PROP.json. Exit 0: held, 1: violated, 2: the check itself failed."""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools")); sys.dont_write_bytecode = True
import sites as sitemap
from catalog import PROPS, GENERIC, ASSUMPTIONS, COMPONENTS, RULE

def sh(args, timeout=None):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout

def fail(msg):
    print("check error: " + msg); sys.exit(2)

def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError: pass
    return out

def relevant(prop, cls):
    if cls == "simulator:died": return True   # only believed when it reproduces
    return any(cls.startswith(p) for p in GENERIC) or any(cls.startswith(p) for p in PROPS[prop]["classes"])

def parse(out):
    m = re.search(r"^(VIOLATED|held) class=(\S+) hash=(\w+)", out, re.M)
    msg = re.search(r"^message: (.*)$", out, re.M)
    return (m.group(1) == "VIOLATED", m.group(2), m.group(3), msg.group(1) if msg else "") if m else (False, "?", "?", "")

def symbols(simrun, pcs):
    if not pcs: return []
    try:
        rc, o = sh(["addr2line", "-f", "-s", "-e", simrun] + ["0x%x" % (p - 1) for p in pcs[:12]], 30)
        l = o.split("\n"); return ["%s (%s)" % (l[i], l[i + 1]) for i in range(0, len(l) - 1, 2)]
    except Exception: return []

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if prop not in PROPS: fail("unknown property " + prop)
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    wall = float(os.environ.get("VERIF_WALL", PROPS[prop].get("quick_wall", 55) if tier == "quick" else 1800))
    bd = os.path.join(HERE, "build"); simrun = os.path.join(bd, "simrun")
    for attempt in range(2):
        rc, out = sh([os.path.join(HERE, "build.sh"), bd, os.environ.get("REPO", "/repo")], 600)
        if rc == 0: break
    if rc != 0: fail("the simulator does not build from the working tree:\n" + out[-3000:])
    cores = min(16, os.cpu_count() or 4)
    try: cores = min(cores, len(os.sched_getaffinity(0)))
    except Exception: pass
    work = os.path.join(bd, "work-%s-%d" % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    reps = os.path.join(HERE, "replays"); os.makedirs(reps, exist_ok=True)
    base = (abs(seed) % 1000003) * 10**10 + 1
    t = "0" if tier == "quick" else "1"
    slice_s = 3.0 if tier == "quick" else 15.0
    total = dict(runs=0, died=0, steps=0, simtime=0, quiet=0, maxsteps=0); fired = {}; counters = {}; sched = set(); foreign = {}; unrepro = []; confirmed = []; known = []; kf = known_findings(prop)
    seen = set(); reached = set(); nextk = list(range(cores)); running = {}; search0 = time.time(); samples = []
    def start(w, left):
        st = os.path.join(work, "s%d.json" % w)
        if os.path.exists(st): os.remove(st)
        running[w] = (subprocess.Popen([simrun, "batch", prop, str(base + nextk[w]), "1000000000", str(cores), t, "%.2f" % min(slice_s, left), "4", st], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), st)
    def confirm(v):
        """gate: record twice (fresh processes), minimise, replay in a fresh process"""
        f = os.path.join(work, "rec.txt"); r = []
        for i in range(2):
            rc, o = sh([simrun, "rec", prop, str(v["seed"]), t, f], 300); r.append(parse(o))
        if not (r[0][0] and r[0] == r[1] and r[0][1] == v["class"]):
            unrepro.append(dict(seed=v["seed"], cls=v["class"], message=v["message"], rec=[list(x) for x in r])); return None
        name = "%s-%s-seed%d.replay" % (prop, re.sub(r"[^a-z0-9]+", "-", v["class"]), v["seed"]); path = os.path.join(reps, name); mn = {}
        if v["class"] == "simulator:died":
            os.replace(f, path); return path, mn, r[0]
        rc, o = sh([simrun, "min", f, path, "25" if tier == "quick" else "90"], 400)
        if rc == 0:
            try: mn = json.loads(o.strip().split("\n")[-1])
            except Exception: mn = {}
        else: os.replace(f, path)
        rc, o = sh([simrun, "replay", path], 300); p = parse(o)
        want = re.search(r"^# hash (\w+)", open(path).read(), re.M)
        if not (p[0] and p[1] == v["class"] and want and want.group(1) == p[2]):
            unrepro.append(dict(seed=v["seed"], cls=v["class"], message=v["message"], rec=[list(p)], stage="replay")); return None
        return path, mn, p
    stop = False
    try:
        for w in range(cores): start(w, wall)
        while running:
            time.sleep(0.02)
            for w in list(running):
                pr, st = running[w]
                if pr.poll() is None: continue
                del running[w]
                if pr.returncode != 0 or not os.path.exists(st): fail("simrun batch ended with %s" % pr.returncode)
                d = json.load(open(st)); nextk[w] += d["runs"] * cores
                for k in ("runs", "died", "steps", "simtime", "quiet"): total[k] += d[k]
                total["maxsteps"] = max(total["maxsteps"], d["maxsteps"])
                for k, x in d["fired"].items(): fired[k] = fired.get(k, 0) + x
                for k, x in d["counters"].items(): c = counters.setdefault(k, [0, 0]); c[0] += x[0]; c[1] += x[1]
                if len(sched) < 20000000: sched.update(d["sched"])
                reached.update(d["sites"])
                for v in d["violations"]:
                    if not relevant(prop, v["class"]): foreign[v["class"]] = foreign.get(v["class"], 0) + 1; continue
                    hit = [k for k in kf if k[0] == v["class"] and k[1].search(v["message"])]
                    if hit:
                        if hit[0][2] not in known: known.append(hit[0][2])
                        continue
                    if v["class"] in seen or stop: continue
                    seen.add(v["class"]); c = confirm(v)
                    if c: confirmed.append((v, c)); stop = True
                    elif len(unrepro) < 6: seen.discard(v["class"])
                left = wall - (time.time() - search0)
                if not stop and left > 0.3: start(w, left)
    finally:
        for pr, st in running.values(): pr.kill(); pr.wait()
    sw = time.time() - search0
    det = dict(seeds=[], identical=True)   # the same seed, run twice and replayed from its recorded decisions: one execution
    for k in range(4):
        f = os.path.join(work, "det.txt"); a = [parse(sh([simrun, "rec", prop, str(base + k), t, f], 300)[1])[2] for _ in range(2)]; a.append(parse(sh([simrun, "replay", f], 300)[1])[2])
        det["seeds"].append({"seed": base + k, "trace_hash_run_rerun_replay": a}); det["identical"] &= len(set(a)) == 1
    try: cov, _ = sitemap.summary(simrun, reached)
    except Exception as e: cov = dict(error=str(e))
    for k in (0, 1, 2):
        rc, o = sh([simrun, "plan", prop, str(base + k), t], 60); samples.append("seed %d: %s" % (base + k, o[:1500]))
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration", coverage=dict(
        evaluations=total["runs"], distinct_nontrivial=len(sched), rule=RULE, workload=PROPS[prop]["workload"], samples=samples,
        first_seed=base, last_seed=base + max(nextk), simulated_runs_per_hour=int(total["runs"] / max(sw, 0.1) * 3600), seeds_per_hour=int(total["runs"] / max(sw, 0.1) * 3600),
        simulated_seconds=round(total["simtime"] / 1e9, 3), simulator_steps=total["steps"], longest_run_steps=total["maxsteps"], runs_without_any_injected_decision=total["quiet"],
        injected_decisions_by_kind=fired, probes={k: {"total": v[0], "runs": v[1]} for k, v in sorted(counters.items())},
        distinct_interleavings=len(sched), interleaving_measure="64-bit hash over the sequence of (fiber chosen, source of the decision) at every scheduling decision of a run",
        components=COMPONENTS, determinism=det, library_access_sites=cov, worker_processes=cores, violations_of_other_properties_seen=foreign, unreproducible=unrepro, deaths=total["died"], known_findings_seen=known),
        assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    ev["coverage"]["violations_detail"] = []
    for v, (path, mn, p) in confirmed:
        stack = symbols(simrun, v.get("pcs", [])); ev["coverage"]["violations_detail"].append(dict(seed=v["seed"], violation=v["class"], message=v["message"], replay=path, minimisation=mn, stack=stack))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for f in os.listdir(work): os.remove(os.path.join(work, f))
    os.rmdir(work)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s %s: %d runs (%d distinct non-trivial), %.1f simulated s, %d steps, %.1f s wall" % (prop, tier, total["runs"], len(sched), total["simtime"] / 1e9, total["steps"], time.time() - t0))
    for v, (path, mn, p) in confirmed:
        print("seed %d: %s: %s %s" % (v["seed"], v["class"], v["message"], mn))
        for s in symbols(simrun, v.get("pcs", []))[:8]: print("   at " + s)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if confirmed: sys.exit(1)
    if unrepro: fail("a failing run did not reproduce: " + json.dumps(unrepro[0]))
    if total["runs"] < 50: fail("only %d runs were completed" % total["runs"])
main()
