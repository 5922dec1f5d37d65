"""C01 timers and the event loop under a virtual clock, clock jumps, slow callbacks and interrupted sleeps."""
import json
from vlib.harness import Check
from vlib.simdrv import Scenario, F_EINTR, F_DELAY

MS = 1000
class C(Check):
    pid = "C01"
    rule = ("a generated program of timer creations, cancellations, clock jumps and update() calls, whose callbacks cancel, create, "
            "throw, run long or nest update(); plus placements of interrupted or delayed sleeps and clock reads; distinct by full event trace")
    fault_classes = {"sleep": [(F_EINTR, 0), (F_DELAY, [1*MS, 7*MS, 40*MS, 1200*MS])], "time": [(F_DELAY, [1*MS, 3*MS, 30*MS, 999*MS, 1001*MS])]}
    max_variants = 2
    MSV = [0, 0, 1, 2, 3, 5, 10, 17, 50, 99, 100, 250, 500, 999, 1000, 1001, 1500, 2000, 3000]

    def gen(self, rng, i):
        n = rng.randint(1, 7)
        timers = []
        style = rng.random()
        for k in range(n):
            kind = rng.choice("TTI")
            ms = rng.choice(self.MSV) if rng.random() < .6 else rng.randint(0, 1200)
            if kind == "I" and ms < 5: ms = rng.choice([0, 5, 10, 20, 100]) if style < .8 else ms
            acts = []
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]) if style > .25 else 0):
                a = rng.random()
                if a < .3: acts.append(["clr", rng.randrange(n), rng.randint(1, 3)])
                elif a < .45: acts.append(["clr", k, rng.randint(1, 3)])
                elif a < .65: acts.append(["new", rng.randrange(n), rng.randint(1, 2)])
                elif a < .75: acts.append(["adv", rng.choice([1, 3, 20, 150, 1100]), rng.randint(1, 3)])
                elif a < .85: acts.append(["upd", rng.choice([0, 0, 1, 30]), rng.randint(1, 2)])
                elif a < .93: acts.append(["throw", 0, rng.randint(1, 3)])
                else: acts.append(["bad", rng.choice([0, 999999]), rng.randint(1, 3)])
            timers.append({"kind": kind, "ms": ms, "acts": acts, "life": rng.choice([1, 2, 3, 5, 8]) if kind == "I" else 1})
        ops = []
        for _ in range(rng.randint(2, 12)):
            a = rng.random()
            if a < .45: ops.append(["new", rng.randrange(n)])
            elif a < .6: ops.append(["clr", rng.randrange(n)])
            elif a < .85: ops.append(["upd", rng.choice([0, 1, 2, 7, 30, 100, 400, 999, 1000, 1300]), rng.choice([None]*5 + [{"sleep": rng.choice([1, 2, 10, 50])}, {"maxEvents": rng.choice([1, 1, 2, 3, -1])}, {"maxPasses": rng.randint(1, 4)}])])
            elif a < .95: ops.append(["adv", rng.choice([1, 5, 120, 1000, 2500])])
            elif style > .7: ops.append(["jump", rng.choice([-3000, -500, -20, 20, 700, 5000, 100000])])
        ops.append(["upd", rng.choice([0, 100, 1500, 4000]), None])
        return {"timers": timers, "ops": ops, "epoch": 1700000000000000 + rng.choice([0, 1, 500, 999000, 999999, rng.randrange(1000000)]),
                "cfg": {"jitter_us": rng.choice([0, 0, 300, 5000])}, "want_faults": rng.random() < .5, "seed": rng.randrange(1 << 30)}

    def build(self, p):
        sc = Scenario(p["seed"]).set(epoch_us=p["epoch"], edge_ns=2)
        js = ["var ids=[],made=[],cnt=[];",
              "function NOW(){ return %d+simnow(); };" % (p["epoch"]%1000000), "function L(){ simlog.apply(null,arguments); }",
              "function mk(k,kind,ms,fn){ var b=NOW(),m=NOW(); var id=(kind=='T'?setTimeout(fn,ms):setInterval(fn,ms)); ids[k]=id; made[k]=(made[k]||0)+1; simlog('N',k,id,b,m,NOW()); return; };",
              "function cl(k){ if (ids[k]===undefined) return; var id=ids[k]; simlog('c',k,id); try { clearInterval(id); simlog('C',k,id,1); } catch(e) { simlog('C',k,id,0); } };",
              "function up(ms,o){ simlog('U',NOW(),NOW(),ms,o===null?'':JSON.stringify(o)); var r=-1; try { if (o===null) r=update(ms); else { o.minTime=ms; r=update(o); } } catch(e) { simlog('UX',''+e); } simlog('V',NOW(),NOW(),r); };",
              "function bd(id){ try { clearInterval(id); simlog('B',1); } catch(e) { simlog('B',0); } };"]
        for k, t in enumerate(p["timers"]):
            b = "function cb%d(){ cnt[%d]=(cnt[%d]||0)+1; var g=%d; " % (k, k, k, k)
            body = ""
            for a, x, nth in t["acts"]:
                c = {"clr": "cl(%d);" % x, "adv": "simadv(%d);" % (x*1000), "upd": "up(%d,null);" % x, "throw": "simlog('X',%d,me,NOW()); throw('boom');" % k,
                     "bad": "bd(%d);" % x}.get(a) or "if ((made[%d]||0)<6) { new%d(); };" % (x, x)
                body += " if (c==%d) { %s };" % (nth, c)
            if t["kind"] == "I": body += " if (c>=%d) { cl1(%d,me); };" % (t["life"], k)
            # every created timer gets its own closure carrying its serial
            js.append("var ser%d=0;" % k)
            js.append("function new%d(){ ser%d++; var me=ser%d; var c=0; var f=function(){ c++; simlog('F',%d,me,NOW(),NOW(),c); %s simlog('X',%d,me,NOW()); }; mk(%d,'%s',%d,f); idof[%d+'_'+me]=ids[%d]; };" % (k, k, k, k, body, k, k, t["kind"], t["ms"], k, k))
        js.insert(1, "var idof={};")
        js.insert(2, "function cl1(k,me){ var id=idof[k+'_'+me]; simlog('c',k,id); try { clearInterval(id); simlog('C',k,id,1); } catch(e) { simlog('C',k,id,0); } };")
        for o in p["ops"]:
            if o[0] == "new": js.append("new%d();" % o[1])
            elif o[0] == "clr": js.append("cl(%d);" % o[1])
            elif o[0] == "upd": js.append("up(%d,%s);" % (o[1], "null" if o[2] is None else json.dumps(o[2]).replace('"', "")))
            elif o[0] == "adv": js.append("simadv(%d);" % (o[1]*1000))
            elif o[0] == "jump": js.append("simlog('J',%d); simjump(%d);" % (o[1], o[1]*1000))
        js.append("simlog('END');")
        sc.phase("\n".join(js))
        return sc

    def oracle(self, p, r):
        v = []
        timers = {}       # id -> dict
        serial = {}
        stack = []        # update frames
        cbs = []
        ended = False
        slow = sum(f[3] for f in p.get("faults", []) if f[2] == F_DELAY)
        jit = p.get("cfg", {}).get("jitter_us", 0)
        clearing = None
        for e, a in r.js():
            t = a[0]
            if t == "END": ended = True
            elif t == "J":
                pass   # the wall clock must not matter
            elif t == "N":
                k, id_, w, m, w2 = a[1:6]
                if id_ in timers and timers[id_]["alive"]:
                    v.append(("id-reused", "timer id %s handed out twice while live" % id_))
                serial[k] = serial.get(k, 0) + 1
                d = p["timers"][k]
                timers[id_] = {"k": k, "kind": d["kind"], "ms": d["ms"]*MS, "w": w, "m": m, "w2": w2, "alive": True, "fires": 0, "last": w2, "id": id_, "busy": 0, "lastm": m,
                               "ser": serial[k], "upd": len(stack), "born": e.seq, "wl": w2}
            elif t == "c": clearing = a[2]
            elif t == "C":
                k, id_, ok = a[1:4]; tm = timers.get(id_)
                if tm is None: continue
                if ok and not tm["alive"]: v.append(("clear-dead", "cancelling timer %s of slot %d succeeded although it was already gone" % (id_, k)))
                if not ok and tm["alive"]: v.append(("clear-live-failed", "cancelling the pending timer %s of slot %d was refused" % (id_, k)))
                if ok: tm["alive"] = False; tm["cleared"] = True
            elif t == "B":
                if a[1]: v.append(("clear-unknown", "cancelling an id never handed out succeeded"))
            elif t == "F":
                k, ser, w, m, c = a[1:6]
                tm = [x for x in timers.values() if x["k"] == k and x["ser"] == ser]
                if not tm: v.append(("fire-unknown", "callback of slot %d ran without a timer" % k)); continue
                tm = tm[0]
                if not stack: v.append(("fire-outside", "a timer callback ran outside update()"))
                if not tm["alive"]:
                    v.append(("fire-after-cancel" if tm.get("cleared") else "fire-twice", "timer slot %d (id %s) ran after it was %s" % (k, tm["id"], "cancelled" if tm.get("cleared") else "done")))
                if tm["busy"]: v.append(("reentered", "timer slot %d ran again inside its own callback" % k))
                # lower bound: creation + n periods, in whole milliseconds of the monotonic clock
                n = tm["fires"] + 1
                if w < (tm["w"]//MS)*MS + n*tm["ms"]:
                    v.append(("early", "timer slot %d (%d ms) run number %d happened %d us before it was due" % (k, tm["ms"]//MS, n, tm["w"] + n*tm["ms"] - w)))
                if tm["fires"]:
                    pre = stack[-1]["cbtime"] if stack else 0
                    gap = w - tm["last"]
                    if gap < tm["ms"] - 2*MS - max((f["cbtime"] for f in stack), default=0) - slow and not tm.get("slowpass"):
                        v.append(("burst", "interval slot %d (%d ms) repeated after only %d us" % (k, tm["ms"]//MS, gap)))
                tm["fires"] += 1; tm["last"] = w; tm["lastm"] = m; tm["busy"] += 1
                tm["slowpass"] = bool(stack) and stack[-1]["cbtime"] > 2*MS
                if stack: stack[-1]["n"] += 1
                cbs.append((tm, w))
            elif t == "X":
                if not cbs: v.append(("order", "callback end without start")); continue
                tm, w0 = cbs.pop(); tm["busy"] -= 1
                if stack:
                    stack[-1]["cbtime"] += max(0, a[3]-w0)
                if tm["kind"] == "T": tm["alive"] = False; tm["done"] = True
            elif t == "U":
                stack.append({"w": a[1], "m": a[2], "ms": a[3]*MS, "n": 0, "cbtime": 0, "seq": e.seq, "opt": json.loads(a[4]) if a[4] else {}})
            elif t == "UX":
                v.append(("update-error", "update() raised: %s" % a[1]))
            elif t == "V":
                if not stack: v.append(("order", "update end without start")); continue
                f = stack.pop(); w, m, ret = a[1:4]
                if stack: stack[-1]["n"] += 0
                opt = f["opt"]
                el = m - f["m"]
                mx = opt.get("maxEvents", -1); full = mx > 0 and f["n"] >= mx
                if mx > 0 and f["n"] > mx: v.append(("update-max", "update() limited to %d events ran %d callbacks" % (mx, f["n"])))
                if f["ms"] > 0 and not (opt and "maxPasses" in opt) and not full and w - f["w"] < f["ms"] - MS:
                    v.append(("update-short", "update(%d) returned after %d us" % (f["ms"]//MS, w - f["w"])))
                sl = opt.get("sleep", 1)*MS
                over = f["ms"] + f["cbtime"] + 2*(sl + jit) + slow + 15*MS
                if el > over:
                    v.append(("update-long", "update(%d) took %d us although callbacks took only %d us" % (f["ms"]//MS, el, f["cbtime"])))
                if ret != f["n"]: v.append(("update-count", "update() reported %s events but ran %d callbacks" % (ret, f["n"])))
                if opt and ("maxPasses" in opt or full):
                    continue
                # progress: everything due well before the end has run
                for tm in timers.values():
                    if not tm["alive"] or tm["busy"] or tm["born"] > f["seq"] and f["ms"] == 0: continue
                    due = tm["last"] + tm["ms"] if tm["fires"] else tm["w2"] + tm["ms"]
                    slack = 2*MS + f["cbtime"] + 2*(sl + jit) + slow + 2000
                    if f["ms"] == 0: slack = 2*MS + f["cbtime"] + slow
                    if due + slack < w:
                        v.append(("lost", "timer slot %d (%s, %d ms) was due %d us before update() returned but did not run" % (tm["k"], "interval" if tm["kind"] == "I" else "timeout", tm["ms"]//MS, w - due)))
        if not ended: v.append(("script-died", "the program did not reach its end: " + "; ".join(repr(e) for e in r.events[-3:])[:300]))
        return v

    def tags(self, p, r):
        out = []
        for e, a in r.js():
            if a[0] == "F": out.append("callbacks")
            elif a[0] == "J": out.append("clock-jump")
            elif a[0] == "C" and a[3]: out.append("cancelled")
        return out
CHECK = C()
