#!/usr/bin/env python3
"""check.py PROP        runs the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py replay FILE  re-executes a recorded plan against /repo's current tree

Builds the simulator together with /repo's sources, runs seeded plans on all
cores, and reports the first violation that is not a listed finding with a
minimised plan that a fresh process reproduces exactly."""
import sys, os, subprocess, json, time, tempfile, shutil, glob, re, array
V = os.path.dirname(os.path.abspath(__file__))
KNOWN = V + "/known-findings.txt"

# property: (flavors, quick plans per flavor, quick seconds, thorough seconds)
from profiles import PROFILES, RULES, COMPONENTS, ASSUMPTIONS

def build(flavor):
    r = subprocess.run([sys.executable, V + "/build.py", flavor], stdout=subprocess.PIPE)
    if r.returncode:
        print("check: the build failed"); sys.exit(3)
    return r.stdout.decode().strip().splitlines()[-1]

def replay(path):
    prop = flavor = None
    for l in open(path):
        m = re.match(r"plan prop=(\S+)", l)
        if m: prop = m.group(1)
        m = re.match(r"# flavor (\S+)", l)
        if m: flavor = m.group(1)
    exe = build(flavor or "fast")
    r = subprocess.run([exe, "replay", path, KNOWN])
    sys.exit(r.returncode)

def run_replay(exe, path):
    r = subprocess.run([exe, "replay", path, KNOWN], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    o = r.stdout.decode(errors="replace")
    h = re.search(r"^hash (\S+)", o, re.M)
    return r.returncode, (h.group(1) if h else None), o

def confirm(exe, prop, raw, out, flavor, limit):
    """minimise, then two fresh replays must agree; returns the message or None"""
    best = None
    mini = out + ".min"
    try:
        r = subprocess.run([exe, "minimise", raw, mini, str(limit), KNOWN], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit * 4 + 60)
        cands = [mini, raw] if r.returncode == 0 else [raw]
    except subprocess.TimeoutExpired:
        cands = [raw]
    for c in cands:
        a, b = run_replay(exe, c), run_replay(exe, c)
        if a[0] == 1 and b[0] == 1 and a[1] == b[1] and a[2] == b[2]:
            best = c; text = a[2]; break
    if not best:
        return None
    body = open(best).read()
    h = run_replay(exe, best)[1]
    body = re.sub(r"^# hash .*\n", "", body, flags=re.M)
    with open(out, "w") as f:
        f.write("# flavor %s\n# hash %s\n" % (flavor, h) + body)
    if os.path.exists(mini): os.unlink(mini)
    m = re.search(r"^%s: (.*)" % prop, text, re.M)
    return m.group(1) if m else "?"

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict): merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            if k == "samples": a.setdefault(k, []).extend(v)
            elif k in a: a[k] = [x + y for x, y in zip(a[k], v)]
            else: a[k] = list(v)
        elif isinstance(v, (int, float)): a[k] = a.get(k, 0) + v

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        replay(sys.argv[2])
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prof = PROFILES[prop]
    known = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) match="([^"]*)" (.*)', l)
            if m: known.append(m.groups())
    ncpu = os.cpu_count() or 8
    rdir = V + "/replays"
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vc-%s-" % prop)
    total = {}; hashes = set(); found = None; flav = {}; unconfirmed = []
    try:
        for fi, (flavor, nq, sq, nt, sth) in enumerate(prof):
            exe = build(flavor)
            count, secs = (nq, sq) if tier == "quick" else (nt, sth)
            base = (seed * 1000003 + fi * 77) * 1000000
            d = "%s/%d" % (tmp, fi); os.makedirs(d)
            ps = [subprocess.Popen([exe, "campaign", prop, str(base + w), str(ncpu), str((count + ncpu - 1) // ncpu), str(secs), d, KNOWN],
                                   stdout=subprocess.DEVNULL, stderr=open("%s/err.%d" % (d, w), "wb")) for w in range(ncpu)]
            deadline = time.time() + secs + 120
            for p in ps:
                try: p.wait(timeout=max(1, deadline - time.time()))
                except subprocess.TimeoutExpired: p.kill(); p.wait()
            fl = {}
            for f in glob.glob(d + "/stats.*"):
                try: merge(fl, json.load(open(f)))
                except ValueError: pass
            for f in glob.glob(d + "/hashes.*"):
                a = array.array("Q"); b = open(f, "rb").read(); a.frombytes(b[:len(b) // 8 * 8]); hashes.update(a)
            flav[flavor] = {"plans": fl.get("plans", 0), "processor_seconds": round(fl.get("wall", 0), 1)}
            merge(total, fl)
            for raw in sorted(glob.glob(d + "/viol.*"), key=os.path.getsize):
                out = "%s/%s-%d.plan" % (rdir, prop, seed)
                msg = confirm(exe, prop, raw, out, flavor, 45)
                if msg: found = (out, msg); break
                unconfirmed.append(open(raw).readline().strip())
            if found: break
            for e in glob.glob(d + "/err.*"):
                t = open(e, "rb").read().decode(errors="replace")
                for l in sorted(set(t.splitlines()))[:3]:
                    if "SIMERR" in l: print("note:", l)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    plans = total.get("plans", 0)
    cpu = max(total.get("wall", 0.01), 0.01)
    def nz(d): return {k: v for k, v in d.items() if v}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1),
          "violations": 1 if found else 0,
          "coverage": {
              "evaluations": plans, "distinct_nontrivial": len(hashes), "rule": RULES[prop],
              "samples": [s[:3000] for s in total.get("samples", [])[:3]],
              "runs_per_hour": int(plans / max(wall, 1) * 3600), "seeds": plans, "seeds_per_hour": int(plans / max(wall, 1) * 3600),
              "simulated_processes": total.get("sessions", 0), "fresh_reader_processes": total.get("readers", 0),
              "crash_states_examined": total.get("crash_states", 0),
              "simulated_seconds": round(total.get("sim_us", 0) / 1e6, 1),
              "faults_injected": nz(total.get("faults", {})), "faults_by_event_kind": nz(total.get("fault_events", {})),
              "questions_asked_by_the_code": total.get("questions", 0),
              "commits": [total.get("commits_ok", 0), total.get("commits", 0)],
              "operations_ok_failed": total.get("operations", {}),
              "states": total.get("table_states", 0), "states_measure": "distinct partition tables at the end of a session (hash of all partitions and the operation count), per worker",
              "distinct_interleavings": len(hashes), "interleavings_measure": "distinct hashes of the complete event log (every system call with its arguments, fault, answer and result) of non-trivial runs",
              "determinism_reruns_that_differed": total.get("nondet", 0),
              "runs_with_violations_of_other_properties": total.get("other", 0),
              "builds": flav, "extra": total.get("extra", {}), "components": COMPONENTS, "known_finding_hits": total.get("known", []),
          },
          "assumptions": ASSUMPTIONS}
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for p, pat, text in known:
        if p == prop: print("KNOWN-FINDING: property=%s %s" % (p, text))
    print("%s: %d plans, %d distinct non-trivial, %d processes simulated, %.0f s" % (prop, plans, len(hashes), total.get("sessions", 0) + total.get("readers", 0), wall))
    for u in unconfirmed: print("note: not reproduced:", u[:300])
    if found:
        print(found[1])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(found[0], V)))
        sys.exit(1)
    if not plans:
        print("check: nothing was run"); sys.exit(3)
    sys.exit(0)
main()
