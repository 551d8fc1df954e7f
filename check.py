#!/usr/bin/env python3
"""check.py PROP [--thorough] [--secs N]   seeded search for a violation of PROP in /repo's current tree
   check.py --replay FILE                  run a replay file against /repo's current tree

Exit 0: the property held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>" names a minimised replay file.
Exit 2: no answer (the tree does not build, or the simulator itself failed)."""
import os, sys, re, json, time, shutil, subprocess, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import simbuild
BUILD = simbuild.BUILD
SIM = os.path.join(BUILD, "vpicsim")
NW = 8
WALL0 = time.time()

# seconds of search per property: quick, thorough
QUICK_SECS, THOROUGH_SECS = 36, 420
REAL = ["all of /repo/src except the test programs, and deck/main.cc + deck/wrapper.cc (compiled unmodified for every rank): grid, fields, particles, "
        "species advance, boundary handlers, emitters, collision operators, collectives and message layer above MPI, thread dispatcher, "
        "checkpoint/restore, dumps, file layer, random number pools, command line and --modify handling"]
STUB = ["MPI (simulated transport with seeded latency, eager/rendezvous choice, matching and completion order)",
        "pthreads / libgomp (threads are fibers parked and released one at a time by the seeded scheduler)",
        "libc file I/O, directories (in-memory file system per run with injected faults and crash semantics)",
        "clocks, sleeping, signals and exit (simulated)", "malloc (per-rank arena with seeded fill and injected failures)",
        "input deck (sim/deck.cc, configured per run)"]

def die(msg, code=2):
    print("check.py: " + msg)
    sys.stdout.flush()
    sys.exit(code)

def listing():
    out = subprocess.run([SIM, "list"], stdout=subprocess.PIPE, text=True).stdout
    d = {}
    for l in out.splitlines():
        a, rule = l.split(" | ", 1)
        w = a.split()
        d[w[0]] = (w[1:], rule)
    return d

def build(variants):
    t = time.time()
    e = simbuild.build(variants)
    if e is not None:
        i = max(e.find("FAILED"), 0)
        print(e[i:i + 4000])
        die("the tree in %s does not build" % simbuild.REPO)
    return time.time() - t

class Scratch:
    def __enter__(self):
        base = os.path.join(BUILD, "scratch")
        os.makedirs(base, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="run", dir=base)
        for i in range(NW):
            os.makedirs(os.path.join(self.d, "w%d" % i))
        return self
    def w(self, i):
        return os.path.join(self.d, "w%d" % i)
    def __exit__(self, *a):
        if self.d.startswith(os.path.join(BUILD, "scratch") + "/run"):
            shutil.rmtree(self.d, ignore_errors=True)

def parse_blocks(text):
    """violation/death blocks and the summary lines of one simulator process"""
    blocks, summ, cur = [], [], None
    ins = False
    for l in text.splitlines():
        if l == "BEGIN":
            cur = {"draws": [], "devs": [], "execs": [], "notes": {}}
        elif l == "END":
            if cur is not None:
                blocks.append(cur)
            cur = None
        elif l == "SUMMARY":
            ins = True
        elif l == "ENDSUMMARY":
            summ.append("complete")
            ins = False
        elif ins:
            summ.append(l)
        elif cur is not None:
            k, _, v = l.partition(" ")
            if k in ("draw", "dev", "exec"):
                cur[k + "s"].append(v)
            elif k == "note":
                a, b = v.rsplit(" ", 1)
                cur["notes"][a] = int(b)
            else:
                cur[k] = v
    return blocks, summ

def one(scratch, args, timeout=320):
    p = subprocess.run([SIM, "one", "--dir", BUILD, "--scratch", scratch] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    b, _ = parse_blocks(p.stdout)
    return b[0] if b else {"status": "died", "msg": "simulator: exit %d %s" % (p.returncode, p.stderr[-300:]), "hash": "0", "draws": [], "devs": [], "execs": [], "notes": {}}

def is_bad(b):
    # a violation the property's oracle reports, or a run whose code under test takes the whole simulated machine down
    return b["status"] == "violation" or (b["status"] == "died" and "SIMFATAL" not in b["msg"])

def klass(msg):
    return re.sub(r"[-+]?\d[\d.e+-]*", "#", msg)[:48]

def base_args(prop, b, tier, sets=None):
    a = ["--prop", prop, "--lib", b["lib"], "--seed", b["seed"], "--tier", str(tier)]
    for k, v in (sets or {}).items():
        a += ["--set", "%s=%s" % (k, v)]
    return a

KINDS = ["switch", "next", "latency", "leave", "rendezvous", "sendread", "quantum", "spurious", "stall", "wakeorder", "short", "survive", "ack"]

def write_replay(path, prop, b, tier, sets, devs, msg, execs=()):
    with open(path, "w") as f:
        f.write("# replay with: python3 check.py --replay %s\n# %s\n" % (path, msg.replace("\n", " ")))
        f.write("prop %s\nlib %s\nseed %s\ntier %d\n" % (prop, b["lib"], b["seed"], tier))
        for k, v in sets.items():
            f.write("set %s %s\n" % (k, v))
        if devs is not None:
            f.write("plan 1\n")
            for d in devs:
                e, k, i, v = d.split()
                f.write("dev %s %s %s %s\n" % (e, KINDS[int(k)] if k.isdigit() else k, i, v))
        for e in execs:
            f.write("# exec %s\n" % e[:400])

def pool_first(cands, fn):
    """first candidate (in order) for which fn is true, evaluated NW at a time; returns index or None"""
    for i in range(0, len(cands), NW):
        part = cands[i:i + NW]
        with ThreadPoolExecutor(NW) as ex:
            rs = list(ex.map(lambda t: fn(t[0], t[1]), enumerate(part)))
        for j, r in enumerate(rs):
            if r:
                return i + j, r
    return None

def minimise(prop, b, tier, sc, budget):
    """shrink the drawn workload and policy, then the schedule and fault trace"""
    t0 = time.time()
    sets, cur, kl = {}, b, klass(b["msg"])
    def bad(w, s):
        try:
            r = one(sc.w(w), base_args(prop, b, tier, s) + ["--devs"])
        except subprocess.TimeoutExpired:
            return None
        return r if r["status"] == b["status"] and klass(r["msg"]) == kl else None
    r = bad(0, {})
    if not r:
        return sets, None, b, {}
    cur = r
    start = len(cur["draws"])
    improved = True
    while improved and time.time() - t0 < budget * 0.6:
        improved = False
        cands = []
        for d in cur["draws"]:
            w = d.split(" ")
            for s in w[2:]:
                if sets.get(w[0]) != s:
                    cands.append((w[0], s))
        i = 0
        while i < len(cands) and time.time() - t0 < budget * 0.6:
            hit = pool_first(cands[i:i + NW], lambda w, c: bad(w, dict(sets, **{c[0]: c[1]})))
            if hit:
                name, val = cands[i + hit[0]]
                sets[name] = val
                cur = hit[1]
                improved = True
                # the other simplifications of the same draw are settled; go on behind it
                i += hit[0] + 1
                while i < len(cands) and cands[i][0] == name:
                    i += 1
            else:
                i += NW
    # schedule and fault trace
    devs = cur["devs"]
    info = {"draws": start, "draws_changed": len(sets), "decisions_recorded": len(devs)}
    path = os.path.join(sc.d, "min")
    def bad_plan(w, dv):
        f = "%s%d.replay" % (path, w)
        write_replay(f, prop, b, tier, sets, dv, "")
        try:
            r = one(sc.w(w), ["--replay", f])
        except subprocess.TimeoutExpired:
            return None
        return r if r["status"] == b["status"] and klass(r["msg"]) == kl else None
    r = bad_plan(0, devs)
    if not r:
        return sets, None, cur, info
    cur = r
    n = 2
    if devs:
        r = bad_plan(0, [])
        if r:
            devs, cur = [], r
    while len(devs) > 0 and time.time() - t0 < budget:
        size = max(1, (len(devs) + n - 1) // n)
        chunks = [devs[k:k + size] for k in range(0, len(devs), size)]
        rest = [sum(chunks[:k] + chunks[k + 1:], []) for k in range(len(chunks))]
        hit = None
        for i in range(0, len(rest), NW):
            if time.time() - t0 > budget:
                break
            hit = pool_first(rest[i:i + NW], bad_plan)
            if hit:
                hit = (i + hit[0], hit[1])
                break
        if hit:
            devs, cur = rest[hit[0]], hit[1]
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(devs), 2 * n)
    info["decisions_kept"] = len(devs)
    return sets, devs, cur, info

def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", l.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out

def run_prop(prop, tier, secs, seed):
    build([])
    props = listing()
    if prop not in props:
        die("unknown property " + prop)
    libs, rule = props[prop]
    variants = sorted(set(libs), key=libs.index)
    bt = build(variants)
    with Scratch() as sc:
        t0 = time.time()
        known = known_findings()
        ignore = [z for x in known if x[0] == prop for z in ("--known", x[1].pattern)]
        procs = []
        for w in range(NW):
            f = open(os.path.join(sc.d, "out%d" % w), "w")
            procs.append((subprocess.Popen([SIM, "batch", "--prop", prop, "--dir", BUILD, "--scratch", sc.w(w), "--worker", str(w), "--nworker", str(NW),
                                            "--secs", str(secs), "--seed", str(seed), "--tier", str(tier)] + ignore, stdout=f, stderr=subprocess.STDOUT), f))
        for p, f in procs:
            try:
                p.wait(timeout=secs + 260)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            f.close()
        search_s = time.time() - t0
        num, notes, perlib, disc, nt, il, blocks = {}, {}, {}, {}, set(), set(), []
        complete, digests, slow = 0, [], 0.0
        for w in range(NW):
            text = open(os.path.join(sc.d, "out%d" % w), errors="replace").read()
            b, s = parse_blocks(text)
            blocks += b
            if "complete" not in s:
                print("check.py: worker %d ended early: %s" % (w, text[-400:]))
                continue
            complete += 1
            for l in s:
                k, _, v = l.partition(" ")
                if k == "num":
                    a, n = v.split(); num[a] = num.get(a, 0) + int(n)
                elif k == "note":
                    a, n = v.rsplit(" ", 1); notes[a] = notes.get(a, 0) + int(n)
                elif k == "lib":
                    a, n = v.split(); perlib[a] = perlib.get(a, 0) + int(n)
                elif k == "disc":
                    n, a = v.split(" ", 1); disc[a] = disc.get(a, 0) + int(n)
                elif k == "nt":
                    nt.add(v)
                elif k == "il":
                    il.add(v)
                elif k == "slowest":
                    slow = max(slow, float(v))
        # ---- gate what was found: same seed, fresh processes, same result
        findings, internal = [], []
        knownhits = {}
        seen = set()
        for b in sorted(blocks, key=lambda b: (b["status"] != "violation", len(b["msg"]), b["seed"])):
            if not is_bad(b):
                internal.append(b)
                continue
            kl = (b["status"], klass(b["msg"]))
            if kl in seen and findings:
                continue
            k = [x for x in known if x[0] == prop and x[1].search(b["msg"])]
            if k:
                knownhits[k[0][2]] = b
                continue
            rs = [one(sc.w(i), base_args(prop, b, tier)) for i in range(2)]
            if all(r["status"] == b["status"] and (b["status"] == "died" or (r["msg"], r["hash"]) == (b["msg"], b["hash"])) for r in rs):
                seen.add(kl)
                findings.append(b)
                if len(findings) >= 3:
                    break
            else:
                internal.append(b)
                print("check.py: seed %s (%s) did not repeat: %s / %s" % (b["seed"], b["lib"], b["msg"][:200], [r["status"] + " " + r["msg"][:120] for r in rs]))
        viol = []
        if findings:
            b = findings[0]
            sets, devs, cur, info = minimise(prop, b, tier, sc, 60 if tier == 0 else 240)
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s.replay" % (prop, hashlib.sha1((b["lib"] + b["seed"] + cur["msg"]).encode()).hexdigest()[:10]))
            write_replay(path, prop, b, tier, sets, devs, cur["msg"], cur["execs"])
            rs = [one(sc.w(i), ["--replay", path]) for i in range(2)]
            if not all(r["status"] == b["status"] and klass(r["msg"]) == klass(b["msg"]) for r in rs):
                write_replay(path, prop, b, tier, {}, None, b["msg"], b["execs"])
            r = one(sc.w(0), ["--replay", path])
            print("property %s, build %s, seed %s: %s" % (prop, b["lib"], b["seed"], r["msg"] or b["msg"]))
            print("minimised: %s; %s draws set, %s schedule/fault decisions" % (info, len(sets), "recorded" if devs is None else len(devs)))
            for q in findings[1:]:
                print("also: build %s, seed %s: %s" % (q["lib"], q["seed"], q["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            viol.append({"replay": path, "message": r["msg"] or b["msg"], "seed": b["seed"], "build": b["lib"]})
        for text, b in knownhits.items():
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        # ---- sample cases of this run, written out
        samples = []
        if not findings:
            for n in range(3):
                s = seed_of(seed, n)
                r = one(sc.w(0), ["--prop", prop, "--lib", libs[n % len(libs)], "--seed", str(s), "--tier", str(tier)])
                samples.append("seed %d build %s: %s; %s; %d processes' runs; event hash %s" % (s, libs[n % len(libs)], r["status"], ", ".join(" ".join(d.split(" ")[:2]) for d in r["draws"][:24]), len(r["execs"]), r["hash"]))
        else:
            samples = ["%s: %s" % (f["seed"], f["msg"]) for f in findings]
        faults = {k[6:]: v for k, v in sorted(notes.items()) if k.startswith("fault.")}
        probes = {k: v for k, v in sorted(notes.items()) if not k.startswith("fault.")}
        runs = num.get("runs", 0)
        ev = {"property": prop, "tier": "thorough" if tier else "quick", "seed": seed, "level": "exploration",
              "coverage": {"evaluations": runs, "distinct_nontrivial": len(nt), "rule": rule, "samples": samples,
                           "simulated_executions": num.get("execs", 0), "seeds_per_hour": int(runs / max(search_s, 1e-3) * 3600),
                           "executions_per_hour": int(num.get("execs", 0) / max(search_s, 1e-3) * 3600),
                           "simulated_seconds": round(num.get("sim_ns", 0) * 1e-9, 3), "scheduling_points": num.get("points", 0),
                           "fiber_switches": num.get("switches", 0), "forced_preemptions": num.get("preempts", 0), "messages_delivered": num.get("msgs", 0),
                           "faults_injected": faults, "probes": probes, "distinct_interleavings": len(il),
                           "interleaving_measure": "hash of the sequence of (process, thread, operation) events of an execution",
                           "runs_per_build": {k: "%d (%s)" % (v, simbuild.VARIANTS[k][1]) for k, v in perlib.items()}, "discarded": disc,
                           "real_components": REAL, "stubbed_components": STUB,
                           "workers": NW, "build_s": round(bt, 1), "search_s": round(search_s, 1), "slowest_run_s": slow},
              "assumptions": ["the oracle in sim/props_*.cc states the property", "threads interleave at synchronisation points and (in the *ts builds) at every compiled memory access, under sequentially consistent memory",
                              "MPI, file system, clock and allocator behave within their documented contracts as modelled in sim/"],
              "wall_s": round(time.time() - WALL0, 2), "violations": len(viol)}
        if viol:
            ev["coverage"]["violation"] = viol
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d runs (%d executions, %d distinct non-trivial) in %.0f s, build %.0f s, %d interleavings; faults %s" % (prop, runs, num.get("execs", 0), len(nt), search_s, bt, len(il), faults))
        if viol:
            return 1
        if internal:
            for b in internal[:3]:
                print("check.py: no answer for seed %s (%s): %s %s" % (b["seed"], b["lib"], b["status"], b["msg"][:300]))
            return 2
        if complete < NW or not runs or not nt:
            print("check.py: the search did not run (%d of %d workers, %d runs, %d non-trivial)" % (complete, NW, runs, len(nt)))
            return 2
    return 0

M64 = (1 << 64) - 1
def seed_of(seed, n):
    """the seed of run n of a batch (main.cc)"""
    x = ((seed * 0x10001) & M64) * 0x9e3779b97f4a7c15 + n & M64
    x = (x + 0x9e3779b97f4a7c15) & M64
    z = x
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9 & M64
    z = (z ^ (z >> 27)) * 0x94d049bb133111eb & M64
    return (z ^ (z >> 31)) >> 16

def replay(path):
    build([])
    prop = lib = None
    for l in open(path):
        w = l.split()
        if w[:1] == ["prop"]: prop = w[1]
        if w[:1] == ["lib"]: lib = w[1]
    build([lib])
    with Scratch() as sc:
        r = one(sc.w(0), ["--replay", path])
        print("status %s\n%s\nevent hash %s" % (r["status"], r["msg"], r["hash"]))
        for e in r["execs"]:
            print(e[:600])
        if is_bad(r):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0 if r["status"] in ("ok", "discard") else 2

def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    prop = a[0]
    tier = 1 if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else 0
    secs = THOROUGH_SECS if tier else QUICK_SECS
    if "--secs" in a:
        secs = float(a[a.index("--secs") + 1])
    return run_prop(prop, tier, secs, int(os.environ.get("VERIF_SEED", "1") or 1))

if __name__ == "__main__":
    sys.exit(main())
