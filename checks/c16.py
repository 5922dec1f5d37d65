"""C16 threads: what one interpreter sends another thread's interpreter arrives once, in order, unchanged; a waiting call gets its own answer; no interpreter runs two scripts at once."""
import json
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_EINTR, F_DELAY
from vlib.fgen import jstr
import errno
COMMON = """
function BODY(b) { for (var z=0; z<b.length; z++) { var x=b[z];
  if (x[0]=='y') simyield();
  else if (x[0]=='a') simadv(x[1]);
  else if (x[0]=='s') { simlog('p',K,x[1]); Super(x[1],x[2]); }
  else if (x[0]=='z') { simlog('p',K,-7); Ping(); }
  else if (x[0]=='t') setTimeout(TMO(x), x[1]);
  else if (x[0]=='u') { IN=0; update(x[1]); IN=1; }
  else if (x[0]=='x') throw('no'+x[1]);
 };
};
function T(k) { if (IN) simlog('OV',K,-k); simlog('F',K,-k,'0'); };
function TMO(x) { return function() { simlog('p',K,x[2]); Super(x[2],x[3]); }; };
function F(id,d,b) { if (IN) simlog('OV',K,id); simlog('F',K,id,JSON.stringify(d)); IN=1; try { BODY(b); } catch(e) { IN=0; simlog('f',K,id); throw(e); }; IN=0; simlog('f',K,id); return [id,d]; };
"""
LOCAL = "var K=%d, IN=0; " + COMMON + " simlog('UP',K);"
WORK = "var K=%d, IN=0; " + COMMON + " simlog('UP',K); while (1) { update(%s); };"
MAIN = """
var W=[], GOT=0;
function PING(k,j) { simlog('P',k,j,'0'); GOT++; };
function SUP(k,mid,d) { simlog('P',k,mid,JSON.stringify(d)); GOT++; if (RE[mid]) RUN(RE[mid]); };
function MKW(k,s,loc) { var w; try { w=loc?new Interp({name:'w'+k,scriptStr:s}):new Interp({subthread:true,name:'w'+k,scriptStr:s}); } catch(e) { simlog('mx',k,''+e); W[k]=null; return; }; W[k]=w; simlog('mk',k); };
function AL(k,as) { if (W[k]) { W[k].alias('Ping',PING,[k,-7],as); W[k].alias('Super',SUP,[k],as); simlog('al',k); }; };
function BAR() { for (var k=0; k<W.length; k++) if (W[k]) W[k].eval('0'); }; // until each has come so far
function RUN(l) { for (var z=0; z<l.length; z++) { var o=l[z], w=o.w===undefined?null:W[o.w];
  if (o.t=='U') { update(o.ms); continue; };
  if (o.t=='Y') { simyield(); continue; };
  if (o.t=='D') { simadv(o.us); continue; };
  if (!w) continue;
  if (o.t=='A') { simlog('a',o.w,o.id); try { if (o.f) w.call(o.f,[-o.id]); else w.call('F',[o.id,o.d,o.b]); simlog('ok',o.w,o.id); } catch(e) { simlog('ax',o.w,o.id,''+e); }; };
  if (o.t=='E') { simlog('e',o.w,o.id); try { w.eval(o.c,true); simlog('ok',o.w,o.id); } catch(e) { simlog('ax',o.w,o.id,''+e); }; };
  if (o.t=='S') { simlog('s',o.w,o.id); try { var r=w.call('F',[o.id,o.d,o.b],true); simlog('sr',o.w,o.id,JSON.stringify(r)); } catch(e) { simlog('sx',o.w,o.id,''+e); }; };
  if (o.t=='V') { simlog('v',o.w,o.id); try { var r=w.eval(o.c); simlog('sr',o.w,o.id,JSON.stringify(r)); } catch(e) { simlog('sx',o.w,o.id,''+e); }; };
 };
};
"""
def J1(x):
    try: return json.loads(x)
    except ValueError: return "not JSON: " + x
class C(Check):
    pid = "C16"
    quick_s = 45
    max_variants = 2
    rule = ("a generated history of asynchronous and waiting calls, evals and alias callbacks between a main interpreter and one to three interpreters in threads of their own, with handlers that reply, throw, wait, set timers or update, "
            "run under seeded preemption at every code edge and lock; distinct by full event trace")
    fault_classes = {"sleep": [(F_EINTR, 0), (F_DELAY, [1000, 30000, 400000])], "time": [(F_DELAY, [3000, 100000])], "lock": [(F_DELAY, [100, 5000, 60000])], "tcreate": [(F_ERR, [errno.EAGAIN])]}
    DAT = [0, 1, -5, 1.5, "", "x", "a b", "it's", 'q"q', "\\", "n\nl", "\u00e9\u4e2d", "\U0001f600 \U0010ffff", "a\u0000b\u0000", "\u0000\u0000", {"k": "\u0000z"}, ["\ud7ff\u0080\uffff"], None, True, False, [], [1, 2], ["a", None], {"k": 1}, {"a": [1, {"b": "c"}]}, "L" * 300, list(range(150)), list(range(300))]
    def body(self, rng, deep=True):
        b = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            a = rng.random()
            if a < .25: b.append(["y"])
            elif a < .35: b.append(["a", rng.choice([10, 3000, 40000])])
            elif a < .75: b.append(["s", self.mid(), rng.choice(self.DAT)] if rng.random() < .85 else ["z"])
            elif a < .88: b.append(["t", rng.choice([0, 5, 30]), self.mid(), rng.choice(self.DAT)])
            elif a < .94: b.append(["u", rng.choice([0, 5, 40])])
            else: b.append(["x", rng.randrange(100)]); break
        return b
    def mid(self): self.nm += 1; return self.nm
    def oid(self): self.no += 1; return self.no
    def mkop(self, rng, nw, inner=False):
        a = rng.random()
        if a < .12: return {"t": "U", "ms": rng.choice([0, 1, 20, 60])} if not inner else {"t": "Y"}
        if a < .20: return {"t": "Y"}
        if a < .26: return {"t": "D", "us": rng.choice([5, 500, 20000, 70000])}
        o = {"w": rng.randrange(nw), "id": self.oid(), "d": rng.choice(self.DAT), "b": self.body(rng)}
        if rng.random() < .2: k = rng.choice([1, 1, 2]); return {"t": rng.choice("AAE"), "f": "T", "w": o["w"], "id": -k, "b": [], "c": "T(%d)" % k} # messages that cannot be told apart
        o["t"] = rng.choice("AAAAAEEEESSVV")
        if o["t"] in "EV":
            call = "F(%d,%s,%s)" % (o["id"], json.dumps(o["d"]), json.dumps(o["b"]))
            o["c"] = call + (rng.choice([";", "", "; ", " // note", ";\n"]) if o["t"] == "E" else "")
            if o["t"] == "E" and rng.random() < .1: o["c"] = "bad syntax ("; o["bad"] = 1
        return o
    def gen(self, rng, i):
        self.nm = self.no = 0
        nw = rng.choice([1, 1, 2, 2, 3, 3]); ops = []
        ws = [{"loop": rng.choice(["20", "5", "1", "50", "{minTime:8,maxEvents:1}", "{minTime:10,sleep:3}"]), "as": rng.random() < .3, "ready": rng.random() < .7, "loc": rng.random() < .2} for _ in range(nw)]
        for _ in range(rng.randint(2, 14)): ops.append(self.mkop(rng, nw))
        re = {}
        for m in range(1, self.nm + 1):
            if rng.random() < .12: re[str(m)] = [self.mkop(rng, nw, True) for _ in range(rng.randint(1, 2))]
        return {"ws": ws, "ops": ops, "re": re, "want_faults": rng.random() < .4, "cfg": {"p_edge": rng.choice([0, 30, 300, 1000, 3000, 10000]), "p_sync": rng.choice([0, 2, 4, 10]), "jitter_us": rng.choice([0, 200]), "edge_ns": rng.choice([5, 100, 1000, 5000])}, "seed": rng.randrange(1 << 30)}
    def build(self, p):
        sc = Scenario(p["seed"])
        js = [MAIN, "var RE=%s;" % json.dumps(p["re"])]
        for k, w in enumerate(p["ws"]):
            lp = w["loop"]
            js.append("MKW(%d,%s,%s);" % (k, jstr(LOCAL % k if w["loc"] else WORK % (k, lp)), "true" if w["loc"] else "false"))
            if w["ready"]: js.append("update(40);")
            js.append("AL(%d,%s);" % (k, "true" if w["as"] else "false"))
        js.append("update(150); BAR(); simlog('GO');")
        for o in p["ops"]: js.append("RUN([%s]);" % json.dumps(o))
        js.append("BAR(); var g=-1, n=0; while (n<12) { g=GOT; update(60); BAR(); n++; if (GOT!=g) n=0; };")
        js.append("simlog('END');")
        sc.phase("\n".join(js), opt=1); sc.set(tick_ns=2000, max_steps=12000000)
        return sc
    def oracle(self, p, r):
        v = []; J = []
        for e in r.events:
            if e.kind == "J": J.append((e, e.js()))
            elif e.kind == "RESULT" and not e.rest.startswith("rc=0"): v.append(("main-failed", "the main script failed: " + e.rest[:200])); return v
        if not any(a[0] == "END" for e, a in J): v.append(("no-end", "the main script did not reach its end")); return v
        ops = {o["id"]: o for o in p["ops"] + [x for l in p["re"].values() for x in l] if "id" in o and o["id"] > 0}
        starts = {}; posted = {}; res = {}; sent = {}; recv = {}
        ordp = {}; ordf = {}; bad = None; mtid = 0
        fails = {(a[1], a[2]): a[3] for e, a in J if a[0] == "ax"}
        for e, a in J:
            if a[0] in "aesv" and len(a[0]) == 1:
                posted[a[2]] = (e, a[0], a[1])
                if a[0] == "e" and a[2] in ops and ops[a[2]].get("bad"): continue
                ordp.setdefault((a[1], "q"), []).append(a[2])
            elif a[0] == "ax" and p["ws"][a[1]]["loc"] and (ops[a[2]].get("bad") or any(y[0] == "x" for y in ops[a[2]]["b"])): pass
            elif a[0] == "ax": v.append(("refused", "message %d to interpreter %d was refused: %s" % (a[2], a[1], a[3]))); return v
            elif a[0] == "F":
                if a[2] < 0: ordf.setdefault((a[1], "q"), []).append(a[2]); continue
                if a[2] in starts: v.append(("twice", "message %d was run twice by interpreter %d" % (a[2], a[1]))); return v
                starts[a[2]] = (e, a[3]); o = ops.get(a[2])
                if o and not p["ws"][a[1]]["loc"] and e.tid == 0: v.append(("wrong-thread", "message %d ran in the thread of its sender, not that of interpreter %d" % (a[2], a[1]))); return v
                if o is None or a[1] != o["w"] or a[2] not in posted: v.append(("stray", "interpreter %d ran message %s that was not sent to it" % (a[1], a[2]))); return v
                if json.loads(a[3]) != o["d"]: v.append(("changed", "message %d arrived with the argument %s, it was sent %s" % (a[2], a[3][:80], json.dumps(o["d"])[:80]))); return v
                k = "q"; ordf.setdefault((a[1], k), []).append(a[2])
            elif a[0] == "OV" and p["ws"][a[1]]["loc"]: pass # a call made from a callback of a call
            elif a[0] == "OV": v.append(("overlap", "interpreter %d began message %d while it was running another" % (a[1], a[2]))); return v
            elif a[0] in ("sr", "sx"): res[a[2]] = (a[0], a[3], e)
            elif a[0] == "p": sent.setdefault(a[1], []).append(a[2])
            elif a[0] == "P": recv.setdefault(a[1], []).append((a[2], a[3]))
        for k, want in ordp.items():
            got = ordf.get(k, [])
            if got != want:
                lost = [x for x in want if x not in got]
                v.append(("lost" if lost else "order", "interpreter %d ran messages %s of %s, sent in the order %s" % (k[0], got, "its calls and evals", want))); return v
        D = {-7: (0, 0)}
        for o in ops.values():
            for x in o["b"]:
                if x[0] == "s": D[x[1]] = (o["w"], x[2])
                if x[0] == "t": D[x[2]] = (o["w"], x[3])
        for k in set(sent) | set(recv):
            s = sent.get(k, []); g = [m for m, d in recv.get(k, [])]
            if s != g: v.append(("lost-back" if len(g) < len(s) else "back-order", "the callbacks of interpreter %d arrived as %s, they were made as %s" % (k, g, s))); return v
            for m, d in recv.get(k, []):
                if json.loads(d) != D[m][1]: v.append(("changed-back", "callback %d arrived with %s, it was made with %s" % (m, d[:80], json.dumps(D[m][1])[:80]))); return v
        for i, (e, t, w) in posted.items():
            if t in "sv":
                o = ops[i]
                if i not in res: v.append(("unanswered", "waiting call %d got no answer" % i)); return v
                k, x, e2 = res[i]; th = [y for y in o["b"] if y[0] == "x"]
                if th:
                    if k != "sx": v.append(("swallowed", "waiting call %d threw in interpreter %d but returned %s" % (i, w, x[:80]))); return v
                elif k != "sr" or x is None or J1(x) != [i, o["d"]]: v.append(("answer", "waiting call %d was answered by %s %s" % (i, k, str(x)[:120]))); return v
        return v
    def tags(self, p, r):
        for e, a in r.js():
            if a[0] in ("F", "P", "sr", "sx", "mx"): yield a[0] + ("" if a[0] != "F" else "-t%d" % min(e.tid, 1))
    def shrink(self, p):
        out = []
        for k in list(p["re"]):
            q = json.loads(json.dumps(p)); del q["re"][k]; out.append(q)
        for o in p["ops"]:
            for j in range(len(o.get("b", []))):
                q = json.loads(json.dumps(p)); x = [y for y in q["ops"] if y.get("id") == o["id"]][0]
                if "c" in x: continue
                del x["b"][j]; out.append(q)
        for k, val in (("p_edge", 0), ("p_sync", 0), ("jitter_us", 0)):
            if p["cfg"].get(k): q = json.loads(json.dumps(p)); q["cfg"][k] = val; out.append(q)
        return out
CHECK = C()
