"""C13 lifecycle: an interpreter may end (script over, error, exit) or be dropped at any moment of the traffic with others; each user is told, nothing is lost or run twice, nothing crashes or hangs."""
import json, errno
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_EINTR, F_DELAY
from vlib.fgen import jstr
WCOM = """
var Q=0, NP=0;
function POST(n) { for (var z=0; z<n; z++) { NP++; simlog('p',K,NP); try { Cb(K,NP); simlog('pd',K,NP); } catch(e) { simlog('px',K,NP,''+e); }; }; };
function H(id,x,y) { simlog('h',K,id);
  if (x=='t') throw('no'+id);
  if (x=='x') { simlog('hx',K,id); exit(y); simlog('AX',K,id); };
  if (x=='q') Q=1;
  if (x=='p') POST(y);
  if (x=='u') { update(y); simlog('hu',K,id); };
  if (x=='s') sleep(y/1000);
  if (x=='y') for (var z=0; z<y; z++) simyield();
  if (x=='i') setInterval(function() { simlog('t',K,id); POST(1); }, y);
  return id*3; };
function ZZ(x) { throw('zz'); };
"""
MAIN = """
var W=[], KK=[], RN=0;
function OP(o) { var s=o.s, w=W[s], k=KK[s], t=o.t, r;
  if (t=='U') { update(o.ms); return; };
  if (t=='Y') { simyield(); return; };
  if (t=='S') { sleep(o.ms/1000); return; };
  if (t=='N') { simlog('n0',o.k); try { w=new Interp(o.c); } catch(e) { simlog('nx',o.k,''+e); W[s]=null; return; }; W[s]=w; KK[s]=o.k; simlog('n1',o.k); if (o.rdy) { try { w.eval('0'); } catch(e) { simlog('rx',o.k,''+e); }; }; return; };
  if (!w) return;
  if (t=='D') { simlog('d0',k); w=null; W[s]=null; simlog('d1',k); return; };
  if (t=='C') { simlog('c0',k,o.id); try { r=w.call('H',[o.id,o.x,o.y],true); simlog('c1',k,o.id,JSON.stringify(r)); } catch(e) { simlog('cx',k,o.id,''+e); }; return; };
  if (t=='E') { simlog('c0',k,o.id); try { r=w.eval(o.c); simlog('c1',k,o.id,JSON.stringify(r)); } catch(e) { simlog('cx',k,o.id,''+e); }; return; };
  if (t=='A') { simlog('a0',k,o.id); try { w.call('H',[o.id,o.x,o.y]); simlog('a1',k,o.id); } catch(e) { simlog('ax',k,o.id,''+e); }; return; };
  if (t=='F') { simlog('a0',k,o.id); try { w.eval(o.c,true); simlog('a1',k,o.id); } catch(e) { simlog('ax',k,o.id,''+e); }; return; };
  if (t=='L') { simlog('l0',k,o.v); try { w.alias('Cb',CB(o.v),o.v%3==0?null:[o.v],o.as); simlog('l1',k,o.v); } catch(e) { simlog('lx',k,o.v,''+e); }; return; };
  if (t=='M') { simlog('l0',k,0); try { w.alias('Cb',null,null); simlog('l1',k,0); } catch(e) { simlog('lx',k,0,''+e); }; return; };
  if (t=='G') { try { simlog('g1',k,w.conf('name')); } catch(e) { simlog('gx',k,''+e); }; return; };
  if (t=='I') { try { simlog('i1',k,typeof(w.info().opCnt)); } catch(e) { simlog('gx',k,''+e); }; return; };
  if (t=='J') { try { simlog('i1',k,typeof(Info.interp(w).opCnt)); } catch(e) { simlog('gx',k,''+e); }; return; };
  if (t=='Z') { var zm={}; simlog('z0',k); for (var z=0; z<o.n; z++) { try { if (o.x=='e') w.eval("throw 'zz';"); else if (o.x=='c') w.call('ZZ',[z],true); else if (o.x=='p') w.eval('var zx=(;'); else if (w.eval('return 5;')!==5) throw('not5'); } catch(e) { zm[''+e]=z; }; };
    for (var m in zm) simlog('z',k,o.x,m,zm[m]); return; };
  if (t=='K') { try { simlog('k1',k,w.alias()); } catch(e) { simlog('gx',k,''+e); }; return; };
};
function CB(v) { if (v%3==0) return function(k,n) { GOT(v,k,n); }; return function(a,k,n) { GOT(a,k,n); }; };
function GOT(v,k,n) { simlog('q',v,k,n); var l=RE[k+'/'+n]; if (l) for (var z=0; z<l.length; z++) OP(l[z]); simlog('qe',v,k,n); };
"""
class C(Check):
    pid = "C13"
    quick_s = 45
    max_variants = 3
    rule = ("a generated history of interpreters, in threads or not, that are made, called, evaluated in, given and stripped of callbacks, asked for options, dropped and remade while their scripts end, throw or exit after a few passes of their event loop, "
            "run under seeded preemption at every code edge and lock, with failing thread creation, interrupted and long sleeps and slow locks; distinct by full event trace")
    fault_classes = {"sleep": [(F_EINTR, 0), (F_DELAY, [1000, 30000, 200000])], "time": [(F_DELAY, [3000, 100000])], "lock": [(F_DELAY, [100, 5000, 60000])], "tcreate": [(F_ERR, [errno.EAGAIN, errno.ENOMEM])]}
    def wscript(self, rng, k, loc, nk, depth=0):
        js = ["var K=%d;" % k, WCOM, "simlog('ws',K);"]
        if depth == 0 and rng.random() < .2 and not loc:
            g = nk(); js.append("function RC(k,n) { simlog('q',1,k,n); simlog('qe',1,k,n); }; var SW=null; try { SW=new Interp({subthread:true,name:'w%d',scriptStr:%s}); } catch(e) { }; try { SW.alias('Cb',RC,null); } catch(e) { };" % (g, jstr(self.wscript(rng, g, False, nk, 1))))
            self.grand[str(g)] = k
        if rng.random() < .2: js.append("setInterval(function() { simlog('t',K,0); POST(1); }, %d);" % rng.choice([1, 4, 15]))
        if rng.random() < .3: js.append("POST(%d);" % rng.choice([1, 3]))
        if not loc:
            n = rng.choice([1, 1, 2, 3, 5, 8]); lp = rng.choice(["1", "5", "20", "{minTime:4,sleep:2}", "0"])
            js.append("for (var n=0; n<%d && !Q; n++) { update(%s); %s};" % (n, lp, rng.choice(["", "", "POST(1); ", "simyield(); "])))
        if rng.random() < .3: js.append("POST(%d);" % rng.choice([1, 2]))
        if loc: return "\n".join(js)
        a = rng.random()
        js.append("simlog('we',K);")
        if a < .15: js.append("throw('over');")
        elif a < .3: js.append("exit(%d);" % rng.choice([0, 1, 7]))
        elif a < .4: js.append("setTimeout(function() { simlog('t',K,-1); }, 1);")
        return "\n".join(js)
    def oid(self): self.no += 1; return self.no
    def msg(self, rng, o):
        o["id"] = self.oid(); o["x"] = rng.choice(["", "", "", "t", "x", "q", "p", "p", "u", "s", "y", "i"]); o["y"] = {"x": rng.choice([0, 3]), "p": rng.choice([1, 2]), "u": rng.choice([0, 3, 12]), "s": rng.choice([1, 9]), "y": rng.choice([1, 4]), "i": rng.choice([2, 7])}.get(o["x"], 0)
        c = "H(%d,%s,%d)" % (o["id"], json.dumps(o["x"]), o["y"])
        if o["t"] == "E": o["c"] = "return " + c + ";"
        if o["t"] == "F": o["c"] = c + ";"
        return o
    def mkop(self, rng, ns):
        a = rng.random(); s = rng.randrange(ns)
        if a < .08: return {"t": "U", "ms": rng.choice([0, 1, 8, 30])}
        if a < .13: return {"t": "Y"}
        if a < .17: return {"t": "S", "ms": rng.choice([1, 10, 40])}
        if a < .62: return self.msg(rng, {"t": rng.choice("CCCEEAAF"), "s": s})
        if a < .72:
            self.nv += 1; return {"t": "L", "s": s, "v": self.nv, "as": rng.random() < .3}
        if a < .77: return {"t": "M", "s": s}
        if a < .85:
            if rng.random() < .25: return {"t": "Z", "s": s, "x": rng.choice("eecpg"), "n": rng.choice([2, 9, 130])}
            return {"t": rng.choice("GIJK"), "s": s}
        if a < .91: return {"t": "D", "s": s}
        return self.mknew(rng, s)
    def mknew(self, rng, s):
        k = self.nk(); loc = rng.random() < .25
        c = {"name": "w%d" % k, "scriptStr": self.wscript(rng, k, loc, self.nk)}
        if not loc: c["subthread"] = True
        elif rng.random() < .5: c["maxDepth"] = 120
        self.ks[str(k)] = {"loc": loc}
        return {"t": "N", "s": s, "k": k, "c": c, "rdy": rng.random() < .7}
    def nk(self): self.kn += 1; return self.kn
    def gen(self, rng, i):
        self.no = self.nv = self.kn = 0; self.ks = {}; self.grand = {}
        ns = rng.choice([1, 1, 2, 3]); ops = []
        for s in range(ns):
            ops.append(self.mknew(rng, s))
            if rng.random() < .8: self.nv += 1; ops.append({"t": "L", "s": s, "v": self.nv, "as": rng.random() < .3})
        for _ in range(rng.randint(2, 16)): ops.append(self.mkop(rng, ns))
        re = {}
        for k in range(1, self.kn + 1):
            for n in (1, 2, 3):
                if rng.random() < .1 and str(k) not in self.grand:
                    l = []
                    for _ in range(rng.randint(1, 2)):
                        o = self.mkop(rng, ns)
                        while o["t"] == "N": o = self.mkop(rng, ns)
                        l.append(o)
                    re["%d/%d" % (k, n)] = l
        return {"seed": rng.randrange(1 << 31), "ops": ops, "re": re, "ks": self.ks, "grand": self.grand, "fin": rng.choice(["wait", "wait", "wait", "leave", "exit"]), "want_faults": rng.random() < .4,
            "cfg": {"p_edge": rng.choice([0, 30, 300, 1000, 3000]), "p_sync": rng.choice([0, 2, 4, 10]), "jitter_us": rng.choice([0, 200]), "edge_ns": rng.choice([5, 20, 100])}}
    def build(self, p):
        sc = Scenario(p["seed"])
        js = [MAIN, "var RE=%s;" % json.dumps(p["re"])]
        for o in p["ops"]: js.append("OP(%s);" % json.dumps(o))
        if p["fin"] == "wait":
            js.append("var n=0, up=1; while (up && n<600) { up=0; n++; for (var s=0; s<W.length; s++) if (W[s] && LOC[KK[s]]!=1) { try { W[s].eval('0'); up=1; } catch(e) { }; }; update(up?5:0); };")
            js.append("simlog('FIN',up); for (n=0; n<3; n++) update(0);")
            js.insert(1, "var LOC=%s;" % json.dumps({k: 1 for k, w in p["ks"].items() if w["loc"]}))
        js.append("simlog('END');")
        if p["fin"] == "exit": js.append("exit(5); simlog('AX',0,0);")
        sc.phase("\n".join(js)); sc.set(tick_ns=2000, max_steps=12000000)
        return sc
    def oracle(self, p, r):
        v = []; J = []; tend = {}; tid = {}
        def bad(c, m): v.append((c, m)); return v
        for e in r.events:
            if e.kind == "J":
                a = e.js(); J.append((e, a))
                if a[0] == "ws": tid[a[1]] = e.tid
            elif e.kind == "THREAD_END": tend[e.tid] = e.seq
            elif e.kind == "RESULT" and not e.rest.startswith("rc=0") and p["fin"] != "exit": return bad("main-failed", "the main script failed: " + e.rest[:200])
        if not any(a[0] == "END" for e, a in J): return bad("no-end", "the main script did not reach its end")
        ks = p["ks"]; grand = p["grand"]; tf = any("tcreate" in str(f) for f in r.fired)
        ops = {}
        for o in p["ops"] + [x for l in p["re"].values() for x in l]:
            if "id" in o: ops[o["id"]] = o
        over = {}; ran = {}; rank = {}; sent = {}; at = {}; fin = None; depth = {}
        alias = {}; al = {}; post = {}; got = {}; cur = {}
        for e, a in J:
            t = a[0]
            if t in ("h", "t", "p", "pd", "px", "ws", "hu") and a[1] in over: return bad("after-end", "interpreter %d went on (%s) after it had %s" % (a[1], t, over[a[1]][1]))
            if t == "AX": return bad("after-exit", "interpreter %d went on after exit" % a[1])
            if t == "ws":
                loc = ks.get(str(a[1]), {}).get("loc")
                if not loc and e.tid == 0: return bad("wrong-thread", "the script of interpreter %d ran in the main thread" % a[1])
            elif t == "we": over[a[1]] = (e.seq, "come to its end")
            elif t == "hx": over[a[1]] = (e.seq, "called exit")
            elif t == "h":
                if a[2] in ran: return bad("twice", "message %d was run twice by interpreter %d" % (a[2], a[1]))
                if a[2] not in at or at[a[2]][1] != a[1]: return bad("stray", "interpreter %d ran message %s that was not sent to it" % (a[1], a[2]))
                ran[a[2]] = e.seq; rank.setdefault(a[1], []).append(a[2])
            elif t in ("c0", "a0"): at[a[2]] = (e.seq, a[1]); sent.setdefault(a[1], []).append((a[2], t))
            elif t in ("c1", "cx"):
                k, i = a[1], a[2]; x = ops[i]["x"]; te = tend.get(tid.get(k), 1 << 60)
                if t == "c1":
                    if i not in ran:
                        return bad("not-run", "a waiting call (%d) to interpreter %d returned, but was not run" % (i, k))
                    if x == "t": return bad("swallowed", "waiting call %d threw but returned %s" % (i, a[3]))
                    if x != "x" and k not in over and a[3] != str(i * 3): return bad("answer", "waiting call %d was answered %s" % (i, a[3]))
                    if at[i][0] > te: return bad("answered-after-end", "waiting call %d was answered though the thread had ended" % i)
                else:
                    if i not in ran and "gone" not in a[3]: sent[k] = [y for y in sent[k] if y[0] != i]
                    if x == "t" and i in ran: continue
                    if k in over:
                        if i in ran and x not in ("x", "u") and over[k][0] < ran[i]: return bad("ran-but-gone", "waiting call %d failed (%s) though it was run" % (i, a[3]))
                        if i in ran and over[k][1] != "called exit": return bad("ran-but-gone", "waiting call %d failed (%s) though it was run" % (i, a[3]))
                        continue
                    if k not in tid or not self.ready(p, k): # script may not have come so far
                        if i in ran: return bad("ran-but-failed", "waiting call %d failed (%s) though it was run" % (i, a[3]))
                        continue
                    return bad("refused", "waiting call %d to interpreter %d failed though that is running: %s" % (i, k, a[3]))
            elif t == "ax":
                k, i = a[1], a[2]; loc = ks[str(k)]["loc"]
                sent[k] = [y for y in sent[k] if y[0] != i] if i not in ran else sent[k]
                if i in ran:
                    if not loc: return bad("ran-but-failed", "message %d failed (%s) though it was run" % (i, a[3]))
                elif k not in over and k in tid and self.ready(p, k): return bad("refused", "message %d to interpreter %d was refused though that is running: %s" % (i, k, a[3]))
            elif t == "nx" and not tf and not ks[str(a[1])]["loc"]: return bad("no-interp", "interpreter %d was not made: %s" % (a[1], a[2]))
            elif t in ("lx", "gx", "rx") and a[1] not in over and a[1] in tid: return bad("refused", "interpreter %d refused though it is running: %s" % (a[1], a[-1]))
            elif t == "z" and a[1] not in over and a[1] in tid and self.ready(p, a[1]) and not (a[2] in "ec" and "zz" in a[3] or a[2] == "p" and "depth" not in a[3] and "gone" not in a[3]): return bad("refused", "interpreter %d refused a repeated use (%s, %d times) though it is running: %s" % (a[1], a[2], a[4], a[3]))
            elif t == "l0": alias.setdefault(a[1], set()).add(a[2])
            elif t == "l1": alias[a[1]] = {a[2]}; al.setdefault(a[1], set()).add(a[2])
            elif t == "g1" and a[2] != "w%d" % a[1]: return bad("conf", "the option name of interpreter %d is %s" % (a[1], a[2]))
            elif t == "p": cur[a[1]] = set(alias.get(a[1], {0}))
            elif t == "pd": post.setdefault(a[1], []).append((a[2], e.seq))
            elif t == "q":
                g = got.setdefault(a[2], []); g.append((a[3], a[1]))
                if len(g) > 1 and g[-1][0] <= g[-2][0]: return bad("back-order", "the callbacks of interpreter %d arrived as %s" % (a[2], [x for x, y in g]))
            elif t == "FIN":
                fin = e.seq
                if a[1]: return bad("never-ends", "an interpreter whose script was over still answered or did not end")
        for k, l in sent.items():
            acc = [i for i, t in l]; exe = rank.get(k, [])
            if ks[str(k)]["loc"]: continue
            if exe != acc[:len(exe)]: return bad("order", "interpreter %d ran messages %s of %s" % (k, exe, acc))
        if fin:
            for k, l in post.items():
                if k in tid and str(k) not in grand and (ks[str(k)]["loc"] or tend.get(tid[k], 1 << 60) < fin):
                    g = [x for x, y in got.get(k, [])]; w = [x for x, y in l]
                    if g != w and not [1 for e, a in J if a[0] == "p" and a[1] == k and a[2] in g and a[2] not in w]: return bad("lost-back", "interpreter %d made the callbacks %s before it ended, %s arrived" % (k, w, g))
        return v
    def ready(self, p, k):
        for o in p["ops"]:
            if o["t"] == "N" and o["k"] == k: return o["rdy"] or o.get("c", {}).get("subthread") is None
        return False
    def tags(self, p, r):
        for e, a in r.js():
            if a[0] in ("c1", "cx", "ax", "nx", "lx", "q", "px"): yield a[0] + ("" if a[0] not in ("cx", "ax") else a[3][:14])
        yield p["fin"]
    def shrink(self, p):
        out = []
        for k in list(p["re"]):
            q = json.loads(json.dumps(p)); del q["re"][k]; out.append(q)
        for k, val in (("p_edge", 0), ("p_sync", 0), ("jitter_us", 0)):
            if p["cfg"].get(k): q = json.loads(json.dumps(p)); q["cfg"][k] = val; out.append(q)
        return out
CHECK = C()
