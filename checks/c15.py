"""C15 signals: each delivered signal is acted on the way the script last set it: callbacks run once per batch from the event loop, none is lost or invented."""
import errno, json
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_EINTR, F_DELAY
from vlib.fgen import jstr

NUM = {"HUP": 1, "INT": 2, "QUIT": 3, "USR1": 10, "USR2": 12, "ALRM": 14, "TERM": 15, "CONT": 18, "WINCH": 28, "XCPU": 24, "PWR": 30, "TSTP": 20, "VTALRM": 26}
NAME = {v: k for k, v in NUM.items()}
BADN = ["FOO", "USR", "USR11", "SIG", "SIGSIGUSR1", "10x", "-", "--USR1", "0", "64", "999", "99999999999999", "USR1 ", "IGUSR1", "nown signal", "unknown signal", "KNOWN SIGNAL"]
BENIGN = (17, 18, 23, 28)                     # default action: nothing
PRE = """
var ID={}, CNT={}, DEPTH=0;
function TRY(i,f) { simlog('o',i); var r, x=''; try { r=f(); if (r===undefined || r===null) r='-'; } catch(e) { x='X'+e; }; if (x!='') simlog('e',i,'X',x); else simlog('e',i,'R',typeof r=='object'?JSON.stringify(r):r); };
function RUN(l) { for (var z=0; z<l.length; z++) ONE(l[z]); };
function ONE(o) {
  if (o.t=='cb') TRY(o.i,function() { return ID[o.k]=Signal.callback(MK(o.k,o.b), o.s); });
  else if (o.t=='hd') TRY(o.i,function() { return o.m.length==1?Signal.handle(o.m[0]):o.m.length==2?Signal.handle(o.m[0],o.m[1]):Signal.handle(o.m[0],o.m[1],o.m[2]); });
  else if (o.t=='ig') TRY(o.i,function() { return o.m.length==1?Signal.ignore(o.m[0]):o.m.length==2?Signal.ignore(o.m[0],o.m[1]):Signal.ignore(o.m[0],o.m[1],o.m[2]); });
  else if (o.t=='rs') TRY(o.i,function() { return o.m.length==1?Signal.reset(o.m[0]):o.m.length==2?Signal.reset(o.m[0],o.m[1]):Signal.reset(o.m[0],o.m[1],o.m[2]); });
  else if (o.t=='ki') TRY(o.i,function() { return o.s===undefined?Signal.kill(o.p<0?Util.getpid():o.p):Signal.kill(o.p<0?Util.getpid():o.p, o.s); });
  else if (o.t=='al') TRY(o.i,function() { return Signal.alarm(o.n); });
  else if (o.t=='ls') TRY(o.i,function() { return [Signal.handle(), Signal.ignore(), Signal.reset()]; });
  else if (o.t=='up') TRY(o.i,function() { DEPTH++; var r=-1; try { r=update(o.o===undefined?o.n:o.o); } catch(e) { DEPTH--; throw(e); }; DEPTH--; return r; });
  else if (o.t=='sl') TRY(o.i,function() { return sleep(o.n); });
  else if (o.t=='tm') TRY(o.i,function() { return setTimeout(function() { simlog('F','t'+o.i,DEPTH); simlog('f','t'+o.i); }, o.n); });
  else if (o.t=='cl') { if (ID[o.k]!==undefined) TRY(o.i,function() { return clearInterval(ID[o.k]); }); }
  else if (o.t=='wk') TRY(o.i,function() { for (var q=0; q<o.n; q++) simyield(); return 0; });
  else if (o.t=='ev') TRY(o.i,function() { var e=Info.event(ID[o.k]); return ID[o.k]===undefined||e===undefined?'-':[e.type,e.sigNum,e.count,e.busy]; });
};
function MK(k,b) { return function() {
  CNT[k]=(CNT[k]?CNT[k]:0)+1; var c=CNT[k]; simlog('F',k,DEPTH);
  for (var y=0; y<b.length; y++) if (b[y].c==c) {
    if (b[y].a) simadv(b[y].a);
    else if (b[y].x) { simlog('f',k); throw('boom'); }
    else RUN(b[y].l); };
  simlog('f',k); }; };
"""
class C(Check):
    pid = "C15"
    quick_s = 35
    max_variants = 3
    rule = ("a generated history of callbacks, handle, ignore, reset, kill and alarm calls and update() loops in one program, perhaps with a second interpreter in a thread, under signals delivered at seeded code edges, "
            "at sleeps and from inside callbacks, with failing sigaction and kill calls and interrupted or delayed sleeps; distinct by full event trace")
    fault_classes = {"sigact": [(F_ERR, [errno.EINVAL, errno.EPERM])], "kill": [(F_ERR, [errno.EPERM, errno.ESRCH])],
                     "sleep": [(F_EINTR, 0), (F_DELAY, [1000, 20000, 700000])], "time": [(F_DELAY, [1000, 30000])]}
    def spell(self, rng, n):
        s = NAME[n]; return rng.choice(["SIG"+s, s, s.lower(), "sig"+s.lower(), "-SIG"+s, "-"+s.lower(), "-sig"+s.lower(), "Sig"+s.capitalize(), n, str(n), "-%d" % n, "SIG%d" % n])
    def n_(self):
        self.c += 1; return self.c
    def op(self, rng, depth=0):
        a = rng.random(); i = self.n_(); S = self.sigs
        if a < .2 and depth < 2:
            k = "c%d" % i; return {"t": "cb", "i": i, "k": k, "s": self.spell(rng, rng.choice(S)) if rng.random() < .94 else rng.choice(["KILL", 9, "SIGSTOP", 0, -3, 64, 1000] + BADN), "b": self.body(rng, depth)}
        if a < .3:
            t = rng.choice(["hd", "hd", "ig", "ig", "rs"]); m = [self.spell(rng, x) for x in rng.sample(S, rng.randint(1, min(3, len(S))))]
            if rng.random() < .12: m = [rng.choice(["KILL", "SIGSTOP", 9, "19"] + BADN)] if t != "rs" else [rng.choice(BADN)]
            return {"t": t, "i": i, "m": m}
        if a < .52:
            o = {"t": "ki", "i": i, "p": -1 if rng.random() < .9 else rng.choice([7, 99999, 1.5, 1e12])}
            x = rng.random()
            if x < .9: o["s"] = self.spell(rng, rng.choice(self.live if self.live and x < .87 else [n for n in S if n in BENIGN] or S))
            elif x < .95: o["s"] = rng.choice(BADN + [-5, 64, 1000])
            elif 15 in S: pass
            else: o["s"] = 0
            return o
        if a < .58: return {"t": "al", "i": i, "n": rng.choice([0, .001, .0255, .2, .25, .999999, 1, 1.5, 2.25, 3, 60, 1000.5]) if rng.random() < .9 else rng.choice([-1, -.5, 1e12])} if 14 in S else {"t": "wk", "i": i, "n": 5}
        if a < .64: return {"t": "ls", "i": i}
        if a < .82 and depth < 2: return {"t": "up", "i": i, "n": rng.choice([0, 0, 0, 1, 5, 30, 300])} if rng.random() < .9 else {"t": "up", "i": i, "o": {"minTime": rng.choice([0, 5, 40]), "sleep": rng.choice([1, 7])}}
        if a < .88: return {"t": "sl", "i": i, "n": rng.choice([1, 10, 400, 1500])}
        if a < .92: return {"t": "tm", "i": i, "n": rng.choice([0, 1, 10, 100])}
        if a < .95: return {"t": "cl", "i": i, "k": "c%d" % rng.randint(1, self.c)}
        if a < .97: return {"t": "ev", "i": i, "k": "c%d" % rng.randint(1, self.c)}
        return {"t": "wk", "i": i, "n": rng.choice([3, 40, 300])}
    def body(self, rng, depth):
        b = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            x = rng.random(); c = rng.randint(1, 3)
            if x < .2: b.append({"c": c, "a": rng.choice([10, 2000, 60000])})
            elif x < .35: b.append({"c": c, "x": 1})
            else: b.append({"c": c, "l": [self.op(rng, depth+1) for _ in range(rng.choice([1, 1, 2]))]})
        return b
    def gen(self, rng, i):
        self.c = 0
        self.sigs = rng.sample(sorted(NUM.values()), rng.randint(1, 4))
        if rng.random() < .3 and 14 not in self.sigs: self.sigs.append(14)
        self.live = []
        p = {"ops": [], "events": [], "cfg": {}, "seed": rng.randrange(1 << 30), "worker": None}
        for s in self.sigs:
            if rng.random() < .75:
                self.live.append(s)
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    j = self.n_(); p["ops"].append({"t": "cb", "i": j, "k": "c%d" % j, "s": self.spell(rng, s), "b": self.body(rng, 0)})
        thr = rng.random() < .25 and self.live
        if thr:
            w = []
            for s in rng.sample(self.live, rng.randint(1, len(self.live))):
                j = self.n_(); w.append({"t": "cb", "i": j, "k": "c%d" % j, "s": self.spell(rng, s), "b": [x for x in self.body(rng, 2) if "l" not in x]})
            p["worker"] = w
        for _ in range(rng.randint(2, 14)): p["ops"].append(self.op(rng))
        if self.live:
            hi = rng.choice([3000, 30000, 400000])
            for _ in range(rng.choice([0, 1, 2, 4, 8])):
                p["events"].append([rng.randrange(1000, hi), 1, rng.choice([s for s in self.live if s != 14] or [28]), 0])
        if thr: p["cfg"]["p_edge"] = rng.choice([0, 100, 3000]); p["cfg"]["p_sync"] = rng.choice([0, 20000])
        if rng.random() < .3: p["cfg"]["jitter_us"] = rng.choice([200, 4000])
        p["want_faults"] = rng.random() < .6
        return p
    def build(self, p):
        sc = Scenario(p["seed"]).set(edge_ns=20)
        js = [PRE]
        if p["worker"] is not None:
            w = PRE + "RUN(%s); simlog('WUP'); while (1) { DEPTH++; update(5); DEPTH--; };" % json.dumps(p["worker"])
            js.append("var WK=new Interp({subthread:true,name:'w',scriptStr:%s}); WK.eval('0');" % jstr(w))
        js.append("RUN(%s);" % json.dumps(p["ops"]))
        js.append("RUN([{t:'up',i:9998,n:0},{t:'up',i:9999,n:%d}]); simlog('END');" % (600 if p["worker"] is not None else 20))
        sc.phase("\n".join(js))
        return sc
    def num(self, s):
        if isinstance(s, (int, float)): return int(s) if 0 < s < 64 else None
        t = s[1:] if s.startswith("-") else s
        if t[:3].lower() == "sig": t = t[3:]
        if t.isdigit(): return int(t) if 0 < int(t) < 64 else None
        return {"KILL": 9, "STOP": 19}.get(t.upper(), NUM.get(t.upper()))
    def flat(self, l, d):
        for o in l:
            d[o["i"]] = o
            for b in o.get("b", []): self.flat(b.get("l", []), d)
        return d
    def oracle(self, p, r):
        v = []
        O = self.flat(p["ops"] + (p["worker"] or []), {9998: {"t": "up", "i": 9998, "n": 0}, 9999: {"t": "up", "i": 9999}})
        evs = r.events
        D, H, G = "default", "handle", "ignore"
        state = {n: {D} for n in range(1, 64)}
        dirty = {}              # sig -> number of open windows changing it
        open_ = {}              # op index -> dict
        regs = {}               # k -> registration
        deliv = []              # (seq, t, sig, certain)
        arms = []               # possible alarms: (due lo, due hi)
        armed = None
        upst = {}               # tid -> stack of open updates [i, count]
        running = {}            # tid -> set of callbacks running
        lastj = {}; killsync = None; killed = None; endseq = None; finseq = None; changes = []
        for e in evs:
            if e.kind == "J":
                a = e.js(); tid = e.tid
                if a[0] == "o":
                    o = O.get(a[1]); 
                    w = open_[a[1]] = {"seq": e.seq, "t": e.t, "old": {}, "fault": False, "kills": [], "sigs": []}
                    if not o: lastj[tid] = e.seq; continue
                    if o["t"] in ("hd", "ig", "rs", "cb"):
                        new = {"hd": H, "cb": H, "ig": G, "rs": D}[o["t"]]
                        for s in ([o["s"]] if o["t"] == "cb" else o["m"]):
                            n = self.num(s)
                            if n is None or n in (9, 19): break
                            w["old"][n] = set(state[n]); dirty[n] = dirty.get(n, 0)+1
                            state[n] = state[n] | {new}
                            changes.append((e.seq, n, new))
                    if o["t"] == "cb":
                        n = self.num(o["s"])
                        if n and n not in (9, 19): regs[o["k"]] = {"sig": n, "t0": e.seq, "t1": None, "tid": tid, "runs": [], "clr": None, "i": o["i"], "L": []}
                    if o["t"] == "cl" and o["k"] in regs and regs[o["k"]]["clr"] is None: regs[o["k"]]["clr0"] = e.seq
                    if o["t"] == "up": upst.setdefault(tid, []).append([o["i"], 0])
                    if a[1] == 9998: finseq = e.seq
                elif a[0] == "e":
                    o = O.get(a[1]); w = open_.pop(a[1], None)
                    if not o or not w: lastj[tid] = e.seq; continue
                    ok = a[2] == "R"; t = o["t"]
                    if t in ("hd", "ig", "rs", "cb"):
                        names = [o["s"]] if t == "cb" else o["m"]
                        bad = [s for s in names if self.num(s) is None or (self.num(s) in (9, 19) and t != "rs")]
                        if ok and bad: v.append(("accepted", "%s of %r did not raise an error" % (t, bad[0])))
                        if ok and w["fault"]: v.append(("fault-lost", "%s of %r succeeded though sigaction failed" % (t, names)))
                        if not ok and not bad and not w["fault"]: v.append(("refused", "%s of %r raised %r" % (t, names, a[3])))
                        new = {"hd": H, "cb": H, "ig": G, "rs": D}[t]
                        for n in w["old"]:
                            dirty[n] -= 1
                            if dirty[n]: state[n] = {D, H, G}; continue
                            if ok: state[n] = {new}
                            elif len(names) == 1: state[n] = w["old"][n]
                        if t == "cb" and o["k"] in regs:
                            if ok: regs[o["k"]]["t1"] = e.seq
                            else: regs[o["k"]]["failed"] = e.seq
                    elif t == "ki":
                        n = 15 if "s" not in o else 0 if o["s"] == 0 and not isinstance(o["s"], str) else self.num(o["s"]); pid = o["p"]
                        bad = n is None or pid not in (-1, 7, 99999)
                        if bad and (ok or w["kills"]): v.append(("kill-bad", "kill(%r, %r) was accepted" % (pid, o.get("s"))))
                        if not bad:
                            if [x[:2] for x in w["kills"]] != [[4242 if pid < 0 else pid, n]]: v.append(("kill-sent", "kill(%r, %r) sent %r" % (pid, o.get("s", "-"), w["kills"])))
                            if ok != (pid < 0 and not w["fault"]): v.append(("kill-result", "kill(%r, %r) %s though the system call %s" % (pid, o.get("s"), "succeeded" if ok else "raised", "failed" if ok else "succeeded")))
                    elif t == "al":
                        if o["n"] < 0 or o["n"] > 2**31:
                            if ok: v.append(("alarm-bad", "alarm(%r) did not raise" % o["n"]))
                        elif not ok: v.append(("alarm-raised", "alarm(%r) raised %r" % (o["n"], a[3])))
                        else:
                            ret = a[3]
                            prev = w.get("armed0"); okv = []
                            if armed is None and prev is None: okv = [(0, 0)]
                            if prev: okv.append(((prev[0]-e.t)/1e6, (prev[1]-w["t"])/1e6))
                            if prev and prev[0] <= e.t+1: okv.append((0, 0))
                            if not prev: okv = [(0, 0)]
                            if not any(isinstance(ret, (int, float)) and lo-2e-6 <= ret <= hi+2e-6 for lo, hi in okv): v.append(("alarm-left", "alarm(%r) returned %r but the seconds left before it were %r" % (o["n"], ret, okv)))
                            armed = (w["t"]+o["n"]*1e6-2, e.t+o["n"]*1e6+2) if o["n"] else None
                    elif t == "ls":
                        if not ok: v.append(("list-raised", a[3])); continue
                        L = a[3] if isinstance(a[3], list) else json.loads(a[3])
                        for n in NAME:
                            if len(state[n]) != 1 or any(s == n for q, s, x in changes if q > w["seq"]): continue
                            st = next(iter(state[n]))
                            got = [x for x, l in zip((H, G, D), L) if "SIG"+NAME[n] in l]
                            if got != [st]: v.append(("list", "signal SIG%s is set to %s but is listed under %r" % (NAME[n], st, got)))
                    elif t == "up":
                        st = upst[tid].pop()
                        if not ok: v.append(("update-raised", "update raised %r" % (a[3],)))
                        elif a[3] != st[1]: v.append(("update-count", "update returned %r after %d callbacks" % (a[3], st[1])))
                    elif t == "cl":
                        rg = regs.get(o["k"])
                        if rg and ok: rg["clr"] = e.seq
                        if rg and rg["t1"] and not ok and not rg.get("cleared"): v.append(("clear", "removing callback %s raised %r" % (o["k"], a[3])))
                        if rg: rg["cleared"] = 1
                    elif t == "ev" and ok and a[3] != "-":
                        x = a[3] if isinstance(a[3], list) else json.loads(a[3]); rg = regs.get(o["k"])
                        n = len(rg["runs"]) if rg else 0
                        if rg and x != ["signal", rg["sig"], n, (o["k"] in running.get(tid, set()))]: v.append(("info", "Info.event gave %r for a callback of signal %d that ran %d times" % (x, rg["sig"], n)))
                elif a[0] == "F":
                    k = a[1]
                    if upst.get(tid): upst[tid][-1][1] += 1
                    if not a[2]: v.append(("outside", "callback %s ran outside the event loop" % k))
                    rs = running.setdefault(tid, set())
                    if k in rs: v.append(("nested", "callback %s started again inside itself" % k))
                    rs.add(k)
                    if not k.startswith("t"):
                        rg = regs.get(k)
                        if not rg: v.append(("unregistered", "callback %s ran though it was never registered" % k))
                        else:
                            if rg.get("failed"): v.append(("failed-ran", "callback %s ran though its registration raised an error" % k))
                            if rg["clr"]: v.append(("cleared-ran", "callback %s ran after it was removed" % k))
                            if rg["tid"] != tid: v.append(("thread", "callback %s ran in another thread" % k))
                            lo = rg["L"][-1] if rg["L"] else -1
                            if not any(s == rg["sig"] and lo < q for q, t_, s, c in deliv):
                                v.append(("invented", "callback %s for signal %d ran %s" % (k, rg["sig"], "again though no further signal came" if rg["L"] else "though no signal was delivered")))
                            rg["runs"].append(e.seq)
                            L = lastj.get(tid, 0)
                            if not p["worker"] and not p.get("faults"):
                                L = max([L] + [q for q, t_, s, c in deliv if s == rg["sig"] and t_ < e.t-3000])
                            rg["L"].append(L)
                            nd = sum(1 for q, t_, s, c in deliv if s == rg["sig"] and q > rg["t0"]) + (1 if any(s == rg["sig"] and q < (rg["t1"] or e.seq) for q, t_, s, c in deliv) else 0)
                            if len(rg["runs"]) > nd: v.append(("too-many", "callback %s ran %d times after %d deliveries of signal %d" % (k, len(rg["runs"]), nd, rg["sig"])))
                elif a[0] == "f": running.setdefault(tid, set()).discard(a[1])
                elif a[0] == "END": endseq = e.seq; endt = e.t
                lastj[tid] = e.seq
            elif e.kind == "KILL":
                x = dict(y.split("=") for y in e.rest.split())
                killsync = int(x["sig"])
                for i, w in open_.items():
                    if O.get(i, {}).get("t") == "ki": w["kills"].append([int(x["pid"]), int(x["sig"])])
                continue
            elif e.kind == "FAULT":
                for i, w in open_.items():
                    if e.rest.split()[0] == "sigact" and O.get(i, {}).get("t") in ("hd", "ig", "rs", "cb"): w["fault"] = True
                    if e.rest.split()[0] == "kill" and O.get(i, {}).get("t") == "ki": w["fault"] = True
                continue
            elif e.kind == "ALARM":
                for i, w in open_.items():
                    if O.get(i, {}).get("t") == "al": w["armed0"] = armed; w["rang"] = 1
            elif e.kind == "SIG":
                n, how = int(e.rest.split()[0]), e.rest.split()[1]
                st = state.get(n, {D})
                if n == 14 and killsync != 14:
                    pend = [O[i]["n"] for i, w in open_.items() if O.get(i, {}).get("t") == "al"]
                    if armed is None and not pend: v.append(("alarm-invented", "an alarm signal came though no alarm was set"))
                    elif armed and not pend and not (armed[0] <= e.t): v.append(("alarm-early", "the alarm came at %d us though it was due at %d us" % (e.t, armed[0])))
                    elif armed and not pend and e.t > armed[1] + 1e6 + 4e6: pass
                    armed = None
                killsync = None
                if how == "default" and D not in st: v.append(("default-action", "signal %d took its default action though the script set it to %s" % (n, "/".join(st))))
                if how != "default" and st == {D}: v.append(("not-reset", "signal %d is %s though the script left it at its default" % (n, how)))
                if how != "default" and H in st: deliv.append((e.seq, e.t, n, st == {H}))
            elif e.kind == "KILLED": killed = e.seq
            if e.kind not in ("KILL",): killsync = None if e.kind != "SIG" else killsync
        if killed is None and endseq is None and not v and r.status == "ok":
            v.append(("no-end", "the program did not reach its end"))
        if endseq and killed is None:
            for k, rg in regs.items():
                if rg["t1"] is None: continue
                for q, t_, s, c in deliv:
                    if s != rg["sig"] or not c or q < rg["t1"] or q > finseq: continue
                    nxt = [x for x in rg["runs"] if x > q]
                    if nxt: continue
                    if rg.get("clr0"): continue
                    if any(n == s and q <= x for x, n, new in changes if new != H): continue
                    v.append(("lost", "signal %d delivered at step %d never ran callback %s, registered before it" % (s, q, k))); break
            if armed and endt > armed[1] + 2e6: v.append(("alarm-lost", "the alarm due at %d us never came" % armed[0]))
        return v
    def tags(self, p, r):
        t = []
        if p["worker"] is not None: t.append("thread")
        if any(e.kind == "KILLED" for e in r.events): t.append("killed")
        n = sum(1 for e in r.events if e.kind == "SIG")
        if n > 1: t.append("many-signals")
        if any(e.kind == "J" and e.js()[0] == "F" and not str(e.js()[1]).startswith("t") for e in r.events): t.append("callback-ran")
        return t
    def shrink(self, p):
        out = []
        def cp(): return json.loads(json.dumps(p))
        if p["worker"] is not None: q = cp(); q["worker"] = None; out.append(q)
        for i in range(len(p["ops"])):
            q = cp(); del q["ops"][i]; out.append(q)
        for i in range(len(p["events"])):
            q = cp(); del q["events"][i]; out.append(q)
        for i, o in enumerate(p["ops"]):
            if o.get("b"): q = cp(); q["ops"][i]["b"] = []; out.append(q)
        return out
CHECK = C()
