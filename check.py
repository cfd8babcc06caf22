#!/usr/bin/env python3
"""Decides one property by seeded simulation: check.py ID [quick|thorough]

Builds the simulator from /repo's working tree, runs the seeded search, replays what it finds in a
fresh process and writes evidence/<ID>.json.  Exit 0: held on everything explored; 1: violated; else broken."""
import os, sys, subprocess, time, json, shutil, glob, struct, hashlib

V = os.path.dirname(os.path.abspath(__file__))
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1"))
SECS = float(os.environ.get("SIM_SECS", {"quick": 45, "thorough": 780}[TIER]))
WORKERS = int(os.environ.get("SIM_WORKERS", str(os.cpu_count() or 8)))
WORK = os.path.join(V, ".work", PROP + "-" + TIER)
REPLAYS = os.path.join(V, "replays")
t0 = time.time()

def die(msg):
    print("check broken: " + msg); sys.exit(3)

def build():
    """into .work/build-<hash of the sources>; a finished build of the same sources is used again"""
    repo = os.environ.get("SIM_REPO", "/repo"); h = hashlib.sha256()
    files = sorted(glob.glob(V + "/sim/*")) + sorted(p for p in glob.glob(repo + "/p1788/**/*", recursive=True) if os.path.isfile(p))
    for f in files:
        h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    d = os.path.join(V, ".work", "build-" + h.hexdigest()[:16])
    if os.path.exists(d + "/done"): return d
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for old in glob.glob(os.path.join(V, ".work", "build-*")):
        if old != d and time.time() - os.path.getmtime(old) > 7200: shutil.rmtree(old, ignore_errors=True)
    p = subprocess.run(["bash", V + "/sim/build.sh", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: print(p.stdout[-6000:]); die("the simulator does not build from " + repo)
    loc = d + "/loc"; os.makedirs(loc)
    subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", loc + "/de_DE.UTF-8"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(["localedef", "-i", "tr_TR", "-f", "ISO-8859-9", loc + "/tr_TR.ISO-8859-9"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    open(d + "/done", "w").close()
    return d

def known():
    """findings recorded and not repaired: known: property=ID replay=FILE class=CLS <what fails>"""
    out = []
    for l in open(V + "/known_findings.txt"):
        if l.startswith("known: ") and ("property=%s " % PROP) in l:
            w = dict(x.split("=", 1) for x in l.split()[1:5]); w["text"] = l.split(None, 5)[5].strip(); out.append(w)
    return out

if PROP == "--build": print(build()); sys.exit(0)
os.makedirs(REPLAYS, exist_ok=True); shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK)
B = build(); SIM = B + "/sim"; t_build = time.time() - t0
env = dict(os.environ, LOCPATH=B + "/loc"); env.pop("LC_ALL", None); env.pop("LANG", None)

def sim(*a, timeout=None):
    return subprocess.run([SIM] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=WORK, timeout=timeout, errors="replace")

# a run is a function of its seed: the same seeds in two fresh processes must give the same histories
K = "30" if TIER == "quick" else "200"
h1, h2 = sim("hash", "--prop", PROP, "--base", str(SEED), "--count", K), sim("hash", "--prop", PROP, "--base", str(SEED), "--count", K)
det_ok = h1.returncode == 0 and h1.stdout == h2.stdout

# recorded findings are shown again from their own replay file
known_seen = 0
for k in known():
    p = sim("replay", os.path.join(V, k["replay"]), "--prop", PROP)
    if p.returncode == 1 and "class=" + k["class"] in p.stdout: print("KNOWN-FINDING: property=%s %s" % (PROP, k["text"])); known_seen += 1
    elif p.returncode != 0: print(p.stdout[-2000:]); die("replay of a recorded finding")

p = subprocess.run([SIM, "run", "--prop", PROP, "--base", str(SEED), "--secs", str(SECS), "--workers", str(WORKERS), "--out", WORK, "--known", ",".join(k["class"] for k in known() if k["filter"] == "yes") or "-"], env=env, cwd=WORK, stdout=open(WORK + "/log", "w"), stderr=subprocess.STDOUT)

tot, cnt, viol, harness, samples = {}, {}, [], [], []
for f in sorted(glob.glob(WORK + "/w*.txt")):
    for l in open(f, errors="replace"):
        w = l.rstrip("\n").split(" ", 1)
        if w[0] == "count": k, n = w[1].split(" "); cnt[k] = cnt.get(k, 0) + int(n)
        elif w[0] == "sample": samples.append(w[1][:1500])
        elif w[0] == "violation": viol.append(w[1])
        elif w[0] == "harness": harness.append(w[1])
        elif len(w) > 1: tot[w[0]] = tot.get(w[0], 0) + int(w[1])

def distinct(kind):
    s = set()
    for f in glob.glob(WORK + "/w*." + kind):
        b = open(f, "rb").read(); s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    return len(s)

confirmed = []
for v in viol:
    f, cls, msg = v.split(" ", 2)
    dst = os.path.join(REPLAYS, os.path.basename(f)); shutil.copy(f, dst)
    r = sim("replay", dst, timeout=300)
    if r.returncode == 1 and "class=" + cls in r.stdout: confirmed.append((dst, cls, msg))
    else: harness.append("a violation does not replay in a fresh process: " + msg[:300])

wall = time.time() - t0
group = lambda pre: {k[len(pre):]: n for k, n in sorted(cnt.items()) if k.startswith(pre)}
RULE = ("One case is one simulated run: a seed decides the program (threads, steps, operands, number formats), every preemption at memory-access granularity, "
        "every allocation failure, stream-device and iterator fault and every change of the ambient environment. A run is non-trivial when it executed at least one library "
        "operation besides environment changes; runs are distinct when the hash over their complete recorded history (results, flags, states, texts, faults fired, schedule) differs.")
hours = max(wall - t_build, 1e-9) / 3600
ev = {
    "property": PROP, "tier": TIER, "seed": SEED, "level": "exploration",
    "coverage": {
        "evaluations": tot.get("runs", 0), "distinct_nontrivial": min(distinct("hash"), tot.get("nontrivial", 0)), "rule": RULE,
        "samples": samples[:6],
        "simulated_runs_per_hour": int(tot.get("runs", 0) / hours), "steps": tot.get("steps", 0),
        "simulated_time": {"unit": "instrumented memory accesses of library code (the simulator's clock)", "total": tot.get("ticks", 0)},
        "distinct_schedules": distinct("sched"), "preemptions": tot.get("switches", 0),
        "distinct_states": {"measure": "operation x format x class of every operand x outcome x flags/traps before x fault fired x stream state x rounding mode", "count": distinct("state")},
        "faults_fired": group("fault."), "environment_changes": group("env."), "exceptions_seen": group("exc."), "operations": group("op."),
        "oracle_comparisons": {k: n for k, n in sorted(cnt.items()) if k.split(".")[0] not in ("op", "env", "exc", "fault")},
        "pristine_process_references": {"executed": tot.get("iso", 0), "answered_from_memory": tot.get("isohits", 0)},
        "repeat_gate": {"runs_repeated_in_place": tot.get("gate", 0), "seeds_repeated_in_fresh_processes": int(K), "identical": bool(det_ok)},
        "real_code": ["all of /repo/p1788 (headers, compiled from the working tree)", "libmpfr, libgmp, libstdc++ (installed)"],
        "stubs": ["thread scheduler (real threads released one at a time by the seed)", "allocator", "stream buffers", "range iterators"],
        "known_findings_shown": known_seen,
    },
    "assumptions": ["libmpfr and libgmp compute correctly rounded elementary functions and exact integers (they are the oracle's arithmetic, used at other precisions than the library)",
                    "code in libstdc++.so, libmpfr.so and libgmp.so runs between scheduling points; it is preempted only where it calls into instrumented code or the allocator"],
    "wall_s": round(wall, 2), "violations": len(confirmed)}
os.makedirs(V + "/evidence", exist_ok=True)
with open(V + "/evidence/%s.json" % PROP, "w") as f: json.dump(ev, f, indent=1); f.write("\n")

print("%s %s: %d runs, %d steps, %d distinct schedules, %.0f s (build %.0f s)" % (PROP, TIER, tot.get("runs", 0), tot.get("steps", 0), ev["coverage"]["distinct_schedules"], wall, t_build))
if confirmed:
    for dst, cls, msg in confirmed: print("violation class %s: %s" % (cls, msg[:1000])); print("VIOLATION property=%s replay=%s" % (PROP, dst))
    sys.exit(1)
if harness or p.returncode not in (0, 1) or not det_ok:
    for m in harness: print("harness: " + m[:500])
    if not det_ok: print("runs of the same seeds differ between two processes")
    print(open(WORK + "/log", errors="replace").read()[-2000:]); die("exit %d" % p.returncode)
if tot.get("runs", 0) == 0: die("nothing was run")
shutil.rmtree(WORK, ignore_errors=True)
sys.exit(0)
