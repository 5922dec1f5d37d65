"""Seeded search over simulated runs: generate, run, judge, confirm, minimise, report.

A check module supplies gen/build/oracle (and optionally place); everything random comes
from VERIF_SEED through random.Random strings, so one (seed, property, index) is one case.
"""
import hashlib, json, multiprocessing as mp, os, random, sys, time, traceback, collections
from . import build as B, simdrv as D

VERIF = B.VERIF
NW = int(os.environ.get("SIM_WORKERS", "8"))

class Check:
    pid = "?"
    quick_s, thorough_s = 40, 600        # search budget, seconds
    quick_n, thorough_n = 100000, 10**9    # at most this many cases
    max_variants = 4                     # fault placements tried per generated case
    rule = ""
    real = "jsish C sources of /repo/src and miniz (all compiled files of the default build), unmodified"
    stub = "file system, clock, sleep, signals, mutexes and scheduler, sockets, child processes, standard streams, dynamic loading"
    assumptions = []
    fault_classes = {}                   # class -> [(kind, arg choices)]
    allow_stuck = False
    def gen(self, rng, i): raise NotImplementedError
    def build(self, p): raise NotImplementedError
    def oracle(self, p, r): raise NotImplementedError   # -> list of (class, message)
    def place(self, rng, p, base):
        """fault placements for a case, given what its fault-free run did"""
        out = []
        cls = [(c, base.counts.get(c, 0) - p.get("skip", {}).get(c, 0)) for c in self.fault_classes]
        cls = [(c, n) for c, n in cls if n > 0]
        if not cls: return out
        for _ in range(self.max_variants):
            q = json.loads(json.dumps(p)); fs = []
            for _ in range(1 if rng.random() < .7 else rng.randint(2, 3)):
                c, n = rng.choice(cls); k, args = rng.choice(self.fault_classes[c])
                nth = p.get("skip", {}).get(c, 0) + rng.randint(1, n)
                fs.append([c, nth, k, rng.choice(args) if isinstance(args, (list, tuple)) else args])
            q["faults"] = fs; out.append(q)
        return out
    def nontrivial(self, p, r):
        return bool(r.fired) or r.stats.get("sched", "0") != "0" or bool(p.get("ops"))
    def shrink(self, p):
        """extra shrink candidates, most aggressive first"""
        return []
    # -- common --
    def scenario(self, p):
        sc = self.build(p)
        for f in p.get("faults", []): sc.fault(*f)
        for e in p.get("events", []): sc.event(*e)
        for k, v in p.get("cfg", {}).items(): sc.sets[k] = v
        if "pres" in p:
            sc.pres = [list(x) for x in p["pres"]]; sc.set(explicit_sched=1, p_edge=0, p_sync=0)
        return sc
    def judge(self, p, r):
        v = []
        d = r.died()
        if r.status.startswith("badscenario") or r.status in ("hang", "serverdied") or any(e.kind == "SIMFAIL" for e in r.events) or r.stats.get("over") == "1":
            v.append(("simulator-failure", r.status + " " + " ".join(repr(e) for e in r.events if e.kind == "SIMFAIL")[:300])); return v
        if d: v.append(("crash:" + d.split()[0], "the interpreter process died: %s %s" % (d, r.status)))
        st = r.stuck()
        if st and not self.allow_stuck: v.append(("stuck:" + st, "the run did not finish: " + st))
        if not v or self.judge_after_crash:
            v += self.oracle(p, r)
        return v
    judge_after_crash = False

def rng_for(*a):
    return random.Random(":".join(str(x) for x in a))

class Stats:
    def __init__(self):
        self.runs = self.cases = self.nontriv = self.det = self.simus = self.switches = self.cov = 0
        self.fired = collections.Counter(); self.hashes = set(); self.scheds = set(); self.tags = collections.Counter()
        self.samples = []; self.steps = 0

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].split() if "=" in x and x.split("=")[0] in ("property", "key"))
                if d.get("property") == pid:
                    out.append((d["key"], l.split(" :: ", 1)[1] if " :: " in l else l))
    return out

def worker(ck, exe, seed, tier, w, nw, deadline, nmax, q):
    st = Stats(); sim = D.Sim(exe); known = set(k for k, _ in load_known(ck.pid)); seenknown = {}
    viol = None; err = None
    try:
        i = w
        while time.time() < deadline and i < nmax and not os.path.exists(q["stop"]):
            rng = rng_for(seed, ck.pid, i)
            p = ck.gen(rng, i); p["idx"] = i
            st.cases += 1
            queue = [p]; first = True
            while queue and time.time() < deadline + 20:
                p = queue.pop(0)
                r = sim.run(ck.scenario(p)); st.runs += 1
                note(st, ck, p, r)
                if st.runs % 25 == 1:
                    r2 = sim.run(ck.scenario(p)); st.det += 1
                    if r2.hash() != r.hash():
                        err = "nondeterministic run: case %d params %s" % (i, json.dumps(p)[:2000]); break
                vs = ck.judge(p, r)
                fresh = [v for v in vs if v[0] not in known]
                for v in vs:
                    if v[0] in known: seenknown.setdefault(v[0], v[1])
                if fresh:
                    if fresh[0][0] == "simulator-failure": err = "simulator failure case %d: %s" % (i, fresh[0][1])
                    else: viol = (i, p, fresh)
                    break
                if first and p.get("want_faults") and not vs:
                    queue += ck.place(rng, p, r)
                first = False
            if viol or err: break
            i += nw
    except Exception:
        err = traceback.format_exc()
    sim.close()
    if viol or err:
        open(q["stop"], "w").close()
    q["pipe"].send((st, viol, err, seenknown)); q["pipe"].close()

def note(st, ck, p, r):
    h = r.hash()
    if h not in st.hashes:
        st.hashes.add(h)
        if ck.nontrivial(p, r): st.nontriv += 1
    st.scheds.add(r.stats.get("sched", "0"))
    st.simus += int(r.stats.get("time_us", 0) or 0); st.steps += int(r.stats.get("steps", 0) or 0)
    st.switches += int(r.stats.get("switches", 0) or 0); st.cov = max(st.cov, int(r.stats.get("cov", 0) or 0))
    for c, k in r.fired: st.fired["%s:%s" % (c, D.FAULT_NAMES.get(k, k))] += 1
    for e in r.events:
        if e.kind in ("SIG", "CLOCKJUMP", "CRASH", "POWERLOSS", "LOCK_TIMEOUT", "DBEXTLOCK", "PEERCLOSE", "KILLED"): st.fired["event:" + e.kind.lower()] += 1
    for t in getattr(ck, "tags", lambda p, r: ())(p, r): st.tags[t] += 1
    if len(st.samples) < 2: st.samples.append({"params": json.loads(json.dumps(p))if len(json.dumps(p)) < 3000 else json.dumps(p)[:3000], "status": r.status, "trace_hash": h, "events": len(r.events)})

def vclass(vs): return vs[0][0] if vs else None

def minimise(ck, sim, p, cls, budget=45, maxruns=600):
    t0 = time.time(); runs = [0]
    def bad(q):
        if time.time() - t0 > budget or runs[0] > maxruns: return False
        runs[0] += 1
        try:
            r = sim.run(ck.scenario(q)); vs = ck.judge(q, r)
        except Exception:
            return False
        return any(v[0] == cls for v in vs)
    def clone(q): return json.loads(json.dumps(q))
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for q in ck.shrink(p):
            if bad(q): p = q; changed = True; break
        for key in ("faults", "events", "pres", "ops"):
            l = p.get(key)
            if not l: continue
            n = max(1, len(l) // 2)
            while n >= 1:
                k = 0
                while k < len(p[key]):
                    q = clone(p); del q[key][k:k+n]
                    if bad(q): p = q; changed = True
                    else: k += n
                n //= 2
        for k in list(p.get("cfg", {})):
            q = clone(p); del q["cfg"][k]
            if bad(q): p = q; changed = True
    return p, runs[0]

def replay_file(path):
    d = json.load(open(path))
    from importlib import import_module
    ck = import_module("checks." + d["property"].lower()).CHECK
    exe = B.build(); sim = D.Sim(exe)
    r = sim.run(D.Scenario.from_json(d["scenario"])); sim.close()
    vs = ck.judge(d["params"], r)
    for v in vs: print("  %s: %s" % v)
    same = any(v[0] == d["class"] for v in vs)
    print("trace hash %s (recorded %s)" % (r.hash(), d["trace_hash"]))
    if same:
        print("VIOLATION property=%s replay=%s" % (d["property"], path)); return 1
    print("the violation did not occur"); return 0

def main(ck, tier=None, seed=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick"); seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    print("property=%s seed=%d tier=%s" % (ck.pid, seed, tier)); sys.stdout.flush()
    exe = B.build()
    tb = time.time()
    budget = float(os.environ.get("SIM_BUDGET", ck.quick_s if tier == "quick" else ck.thorough_s)); nmax = ck.quick_n if tier == "quick" else ck.thorough_n
    stop = "/tmp/simstop.%d" % os.getpid()
    deadline = tb + budget
    ctx = mp.get_context("fork"); ps = []
    for w in range(NW):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(ck, exe, seed, tier, w, NW, deadline, nmax, {"stop": stop, "pipe": b})); p.start(); b.close(); ps.append((p, a))
    tot = Stats(); viols = []; errs = []; seenknown = {}
    for p, a in ps:
        try:
            st, v, e, sk = a.recv()
        except EOFError:
            errs.append("worker died"); continue
        p.join()
        for k in ("runs", "cases", "det", "simus", "switches", "steps"): setattr(tot, k, getattr(tot, k) + getattr(st, k))
        tot.cov = max(tot.cov, st.cov); tot.fired += st.fired; tot.nontriv += st.nontriv; tot.tags += st.tags; tot.hashes |= st.hashes; tot.scheds |= st.scheds; tot.samples += st.samples[:1]
        if v: viols.append(v)
        if e: errs.append(e)
        seenknown.update(sk)
    if os.path.exists(stop): os.unlink(stop)
    rc = 0; vio = None
    if viols:
        viols.sort(key=lambda v: v[0]); i, p, vs = viols[0]
        sim = D.Sim(exe); rs = [sim.run(ck.scenario(p)) for _ in range(2)]
        sim.close(); sim2 = D.Sim(exe); rs.append(sim2.run(ck.scenario(p)))
        ok = len(set(r.hash() for r in rs)) == 1 and all(any(x[0] == vs[0][0] for x in ck.judge(p, r)) for r in rs)
        if not ok:
            errs.append("violation of case %d did not reproduce identically: %s %s" % (i, vs[0], [r.hash() for r in rs]))
        else:
            cls = vs[0][0]
            if rs[0].decisions and "pres" not in p and rs[0].stats.get("decover") == "0":
                q = json.loads(json.dumps(p)); q["pres"] = [list(x) for x in rs[0].decisions]
                r = sim2.run(ck.scenario(q))
                if any(x[0] == cls for x in ck.judge(q, r)): p = q
            pm, mr = minimise(ck, sim2, p, cls)
            sim2.close(); sim3 = D.Sim(exe); sc = ck.scenario(pm); r1 = sim3.run(sc); sim3.close(); sim4 = D.Sim(exe); r2 = sim4.run(sc); sim4.close()
            v1 = [v for v in ck.judge(pm, r1) if v[0] == cls]
            if not v1 or r1.hash() != r2.hash():
                errs.append("minimised violation did not replay identically")
            else:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (ck.pid, r1.hash()[:8]))
                json.dump({"property": ck.pid, "class": cls, "message": v1[0][1], "seed": seed, "case": i, "params": pm, "scenario": sc.to_json(),
                           "trace_hash": r1.hash(), "trace": [repr(e) for e in r1.events][:400], "stderr": r1.stderr[:3000]}, open(path, "w"), indent=1)
                print("  %s: %s" % v1[0]); print("  case=%d minimised in %d runs: ops=%d faults=%s" % (i, mr, len(pm.get("ops", [])), pm.get("faults", [])))
                vio = path; rc = 1
                print("VIOLATION property=%s replay=%s" % (ck.pid, path))
    for k, msg in load_known(ck.pid):
        print("KNOWN-FINDING: property=%s key=%s %s" % (ck.pid, k, msg))
    wall = time.time() - t0; sw = max(time.time() - tb, .001)
    ev = {"property": ck.pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if vio else 0,
          "assumptions": list(ck.assumptions) + ["the simulated kernel behaves as POSIX allows for the calls jsish makes", "search samples schedules and faults; it does not enumerate them"],
          "coverage": {"evaluations": tot.runs, "distinct_nontrivial": tot.nontriv, "rule": ck.rule or "one generated case or one fault placement in it; distinct by full event trace; non-trivial when a fault or preemption fired or operations ran",
            "samples": tot.samples[:3] or [{"note": "no run"}],
            "cases": tot.cases, "seeds": tot.cases, "runs_per_hour": int(tot.runs / sw * 3600), "seeds_per_hour": int(tot.cases / sw * 3600), "simulated_seconds": round(tot.simus / 1e6, 3),
            "faults_fired": dict(tot.fired), "distinct_traces": len(tot.hashes), "distinct_schedules": len(tot.scheds), "distinct_measure": "hash of the complete event trace; schedules by hash of (point, thread) switches",
            "thread_switches": tot.switches, "code_edges_reached": tot.cov, "executed_edges": tot.steps, "determinism_reruns": tot.det, "probes": dict(tot.tags),
            "real_components": ck.real, "stub_components": ck.stub, "known_findings_seen": seenknown}}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ck.pid + ".json"), "w"), indent=1)
    print("runs=%d cases=%d distinct=%d nontrivial=%d faults=%d sim_s=%.1f wall=%.1fs" % (tot.runs, tot.cases, len(tot.hashes), tot.nontriv, sum(tot.fired.values()), tot.simus/1e6, wall))
    if tot.tags: print("probes", dict(tot.tags.most_common(40)))
    if vio: return 1
    if errs:
        for e in errs[:3]: print("ERROR", e)
        return 2
    return rc
