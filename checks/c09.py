"""C09 TCP sockets: every connection's byte stream and life cycle, whatever its peers and the network do to it or to the others."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_SHORT, F_EINTR, unesc
from vlib.fgen import gdata
import json, re, errno
E = errno
JS = r"""
var SK=[], CN=[], NACT=0;
function SEND(k,id,d,o=0) { var s=SK[k]; if (!s) return; try { if (o) s.send(id,d,{noAsync:true}); else s.send(id,d); simbytes('T'+k+'_'+id,d); } catch(e) { simbytes('X'+k+'_'+id,d); simlog('serr',k,id,''+e); }; };
function NAMES(k,top=1) { if (SK[k]) { simlog('names',k,SK[k].names(),top?SK[k].conf('connectCnt'):-1); }; };
function CLOSE(k,id) { if (!SK[k]) return; simlog('cl',k,id); try { SK[k].close(id); simlog('cld',k,id); } catch(e) { simlog('clx',k,id,''+e); }; };
function UP(ms) { var t=simnow(); update(ms); simlog('up',ms,simnow()-t); };
function ACT(k,ev,id,d) {
  NACT++; var c=CN[k]; c[ev]++; var a=PLAN[k+ev+c[ev]];
  if (!a) { if (ev=='r' && c.echo && c.r<40) SEND(k,id,d); return; };
  for (var n=0; n<a.length; n++) { var x=a[n];
    if (x.a=='echo') { if (ev=='r') SEND(k,id,d); }
    else if (x.a=='send') SEND(k,id,simget('/w/d'+x.d));
    else if (x.a=='bcast') SEND(k,-1,simget('/w/d'+x.d));
    else if (x.a=='close') CLOSE(k,id);
    else if (x.a=='closeall') CLOSE(k,-1);
    else if (x.a=='closex') { var q=c.ids[x.i%(c.ids.length||1)]; if (q) CLOSE(k,q); }
    else if (x.a=='stop') CLOSE(k,0);
    else if (x.a=='throw') { simlog('thr',k,ev,id); throw 'planned'; }
    else if (x.a=='drop') { simlog('drop',k); SK[k]=null; }
    else if (x.a=='names') { if (ev=='r') NAMES(k,0); }
    else if (x.a=='nest') { update(x.ms); }
    else if (x.a=='sup') { if (SK[k]) SK[k].update(); }
    else if (x.a=='conf') { if (SK[k]) SK[k].conf({onRecv:RECV(k)}); }
    else if (x.a=='rej') { simlog('rej',k,id); return false; };
  };
};
function RECV(k) { return function(s,id,d) { simbytes('R'+k+'_'+id,d); ACT(k,'r',id,d); }; };
function MK(k,o) {
  CN[k]={o:0,r:0,c:0,echo:o.echo_,ids:[],cli:o.client?1:0}; delete o.echo_;
  o.onOpen=function(s,info) { var a=s.names(), m=0; for (var z=0; z<a.length; z++) if (a[z]>m) m=a[z]; CN[k].ids.push(m); simlog('o',k,m); return ACT(k,'o',m,''); };
  o.onRecv=RECV(k);
  o.onClose=function(s,id) { simlog('c',k,id); ACT(k,'c',id,''); };
  o.onCloseLast=function(s) { simlog('l',k); };
  simlog('mk',k); try { SK[k]=new Socket(o); simlog('new',k); } catch(e) { simlog('nx',k,''+e); };
};
function ID(k,i) { if (i<0) return -1; if (!CN[k]) return null; if (CN[k].cli) return 0; if (CN[k].ids.length>i) return CN[k].ids[i]; return null; };
function SS(k,i,d,o=0) { var q=ID(k,i); if (q===null) return; if (o) SEND(k,q,d,o); else SEND(k,q,d); };
function SC(k,i) { var q=ID(k,i); if (q) CLOSE(k,q); };
function RV(k,i) { var q=ID(k,i); if (q===null || !SK[k]) return; try { var z=SK[k].recv(q); simbytes('R'+k+'_'+q,z); } catch(e) { simlog('rve'); }; };
function IDC(k,i) { var q=ID(k,i); if (!SK[k]) return; if (q===null) q=77; try { var z=SK[k].idconf(q); simlog('idc',k,q,z.recvCnt,z.sentCnt); } catch(e) { simlog('idx',k,q); }; };
var PA=[], PL=[];
function PRECV(p) { if (p<0) return 0; return simpeer('recv',p); };
function PACC() { for (var z=0; z<PL.length; z++) { var a=simpeer('accept',PL[z]); while (a>=0) { PA.push(a); a=simpeer('accept',PL[z]); }; }; };
function SETTLE() { var idle=0, n=0; while (idle<4+SK.length*3+PA.length && n<3000) { n++; var g=0, na=NACT; update(15); PACC(); g=NACT-na; for (var z=0; z<PA.length; z++) { var r=PRECV(PA[z]); if (r>0) g+=r; }; if (g>0) idle=0; else idle++; }; simlog('settled',n); };
"""
SIZ = [1, 1, 2, 7, 50, 200, 1000, 1000, 4096, 8191, 8192, 8193]

class C(Check):
    pid = "C09"
    quick_s = 45
    rule = ("a generated history of connections, sends, closes, resets and callback behaviours (echoing, broadcasting, closing, throwing, dropping the socket, updating inside a callback) on servers and clients with slow, stalled, closing and "
            "resetting peers, segmented and delayed streams; run undisturbed and with failing, interrupted and partial socket calls; distinct by full event trace")
    fault_classes = {"send": [(F_ERR, [E.ECONNRESET, E.EPIPE, E.EAGAIN, E.ETIMEDOUT]), (F_SHORT, [1, 7, 100]), (F_SHORT, [1, 7, 100]), (F_EINTR, 0)], "recv": [(F_ERR, [E.ECONNRESET, E.EAGAIN, E.ETIMEDOUT]), (F_EINTR, 0), (F_SHORT, [1, 5, 100])],
                     "accept": [(F_ERR, [E.ECONNABORTED, E.EMFILE, E.EAGAIN]), (F_EINTR, 0)], "select": [(F_EINTR, 0)], "socket": [(F_ERR, [E.EMFILE])], "bind": [(F_ERR, [E.EADDRINUSE])], "listen": [(F_ERR, [E.EADDRINUSE])],
                     "connect": [(F_ERR, [E.ECONNREFUSED, E.ETIMEDOUT])], "gai": [(F_ERR, [4])], "sockopt": [(F_ERR, [E.EINVAL])]}
    max_variants = 4

    def place(self, rng, p, base):
        # construction calls are few: give the traffic calls most of the placements
        keep = self.fault_classes
        if rng.random() < .85: self.fault_classes = {k: v for k, v in keep.items() if k in ("send", "recv", "accept", "select")}
        try: return Check.place(self, rng, p, base)
        finally: self.fault_classes = keep
    def gen(self, rng, i):
        mode = rng.choice(["server", "server", "server", "both", "client"])
        dat = []; ops = []
        def data(big=True):
            n = rng.choice(SIZ) if rng.random() < .8 else rng.randint(1, 3000)
            if big and rng.random() < .04: n = rng.choice([20000, 70000, 70000])
            dat.append([rng.choice(["bin", "txt", "lines", "nul"]), n, rng.randrange(10000)]); return len(dat) - 1
        socks = []
        def sopt(**kw):
            o = {"timeout": rng.choice([.001, .01]), "echo_": int(rng.random() < .4)}; o.update(kw)
            if rng.random() < .15: o["noAsync"] = True
            o["sendTimeout"] = 200000; o["recvTimeout"] = 100000
            if rng.random() < .1: o["keepalive"] = True
            return o
        npeer = 0; nlis = 0
        if mode != "client":
            o = sopt(port=9000)
            if rng.random() < .15: o["maxConnects"] = rng.choice([1, 2, 3])
            socks.append("s"); ops.append({"t": "mk", "k": 0, "o": o})
            for _ in range(rng.randint(1, 4)): ops.append({"t": "pc", "port": 9000}); npeer += 1
            if rng.random() < .15: o = sopt(port=9001); socks.append("s"); ops.append({"t": "mk", "k": 1, "o": o}); ops.append({"t": "pc", "port": 9001}); npeer += 1
        if mode != "server":
            if mode == "client" or rng.random() < .4: ops.append({"t": "pl", "port": 7000}); nlis = 1
            for _ in range(rng.randint(1, 3)):
                k = len(socks); socks.append("c"); ops.append({"t": "mk", "k": k, "o": sopt(client=True, port=7000 if nlis and (mode == "client" or rng.random() < .4) else 9000)})
                ops.append({"t": "pa"}); npeer += 1
        ops.append({"t": "up", "ms": rng.choice([5, 20])})
        for _ in range(rng.randint(4, 22)):
            a = rng.random(); k = rng.randrange(len(socks))
            if a < .24: ops.append({"t": "ps", "p": rng.randrange(6), "d": data()})
            elif a < .45: ops.append({"t": "ss", "k": k, "i": rng.choice([-1, 0, 0, 1, 1, 2, 3]), "d": data(), "sync": int(rng.random() < .15)})
            elif a < .62: ops.append({"t": "up", "ms": rng.choice([1, 5, 20, 50])})
            elif a < .70: ops.append({"t": "pr", "p": rng.randrange(6)})
            elif a < .76: ops.append({"t": rng.choice(["px", "px", "pz"]), "p": rng.randrange(6)})
            elif a < .81 and mode != "client": ops.append({"t": "pc", "port": 9000})
            elif a < .86: ops.append({"t": "sc", "k": k, "i": rng.choice([-1, 0, 0, 1, 2, 9])})
            elif a < .88: ops.append({"t": "stop", "k": k})
            elif a < .92: ops.append({"t": "nm", "k": k})
            elif a < .94: ops.append({"t": "rv", "k": k, "i": rng.randrange(3)})
            elif a < .96: ops.append({"t": "drop", "k": k})
            elif a < .98: ops.append({"t": "idc", "k": k, "i": rng.randrange(3)})
            else: ops.append({"t": "pa"})
        plan = {}
        for k, ty in enumerate(socks):
            for ev, pr in (("o", .15), ("r", .22), ("c", .12)):
                for n in range(1, 7):
                    if rng.random() < pr:
                        acts = []
                        for _ in range(rng.randint(1, 2)):
                            x = {"a": rng.choice(["echo", "send", "send", "bcast", "close", "closex", "closeall", "names", "nest", "sup", "conf", "throw", "drop", "stop"] + (["rej"] * 3 if ev == "o" else []))}
                            if x["a"] in ("drop", "stop", "closeall") and rng.random() < .5: x["a"] = "send"
                            if x["a"] in ("send", "bcast"): x["d"] = data(False)
                            if x["a"] == "closex": x["i"] = rng.randrange(4)
                            if x["a"] == "nest": x["ms"] = rng.choice([1, 10])
                            acts.append(x)
                        plan["%d%s%d" % (k, ev, n)] = acts
        cfg = {"net_min_us": rng.choice([10, 100, 1000]), "net_jit_us": rng.choice([0, 500, 5000]), "net_chunk": rng.choice([0, 0, 10, 1000]), "net_sndbuf": rng.choice([65536, 65536, 4096, 1000])}
        if cfg["net_sndbuf"] < 5000 or cfg["net_chunk"] == 10:
            for d in dat: d[1] = min(d[1], 9000)
        return {"ops": ops, "plan": plan, "dat": dat, "cfg": cfg, "want_faults": True, "seed": rng.randrange(1 << 30)}
    def build(self, p):
        sc = Scenario(p["seed"])
        for n, d in enumerate(p["dat"]): sc.file("/w/d%d" % n, gdata(d))
        js = ["var PLAN=%s;" % json.dumps(p["plan"]), JS]
        for o in p["ops"]:
            t = o["t"]
            pe = "PA[%d%%(PA.length||1)]" % o["p"] if "p" in o else ""
            g = "simget('/w/d%d')" % o["d"] if "d" in o else ""
            if t == "mk": s = "MK(%d,%s)" % (o["k"], json.dumps(o["o"]))
            elif t == "pc": s = "var q=simpeer('connect',%d); if (q>=0) PA.push(q)" % o["port"]
            elif t == "pl": s = "PL.push(simpeer('listen',%d))" % o["port"]
            elif t == "pa": s = "PACC()"
            elif t == "ps": s = "if (PA.length) simpeer('send',%s,%s)" % (pe, g)
            elif t == "pr": s = "if (PA.length) PRECV(%s)" % pe
            elif t in ("px", "pz"): s = "if (PA.length) simpeer('%s',%s)" % ("close" if t == "px" else "reset", pe)
            elif t == "ss": s = "SS(%d,%d,%s%s)" % (o["k"], o["i"], g, ",1" if o["sync"] else "")
            elif t == "sc": s = "SC(%d,%d)" % (o["k"], o["i"])
            elif t == "stop": s = "CLOSE(%d,0)" % o["k"]
            elif t == "nm": s = "NAMES(%d)" % o["k"]
            elif t == "up": s = "UP(%d)" % o["ms"]
            elif t == "drop": s = "simlog('drop',%d); SK[%d]=null" % (o["k"], o["k"])
            elif t == "rv": s = "RV(%d,%d)" % (o["k"], o["i"])
            elif t == "idc": s = "IDC(%d,%d)" % (o["k"], o["i"])
            js.append(s + ";")
        js.append("simcalm(); SETTLE(); for (var k=0; k<SK.length; k++) NAMES(k); simlog('FIN');")
        js.append("for (var k=0; k<SK.length; k++) SK[k]=null; for (var z=0; z<PA.length; z++) PRECV(PA[z]); update(5); simlog('END');")
        sc.phase("\n".join(js)); sc.set(tick_ns=2000, p_edge=0)
        return sc
    def client(self, p, k):
        return int(any(o["t"] == "mk" and o["k"] == k and o["o"].get("client") for o in p["ops"]))
    def shrink(self, p):
        for k in list(p["plan"]):
            q = json.loads(json.dumps(p)); del q["plan"][k]; yield q
        for n, d in enumerate(p["dat"]):
            if d[1] > 9: q = json.loads(json.dumps(p)); q["dat"][n][1] = 3; yield q

    def oracle(self, p, r):
        v = []
        conns = {}; bynet = {}; pend = {}; sock = {}; live = {}; everids = {}; peernet = {}; fin = None; end = False
        cur_acc = None; clientnet = {}; mk = None; ended = {}; ups = []
        def ep(n): return conns.setdefault(n, {"net": n, "T": [], "R": bytearray(), "NR": bytearray(), "PR": bytearray(), "PS": bytearray(), "gone": None, "err": [], "script": None, "o": 0, "c": 0, "closed_by": None, "rej": 0, "thr": 0, "after": 0, "stub": None, "peer": None, "late": 0, "drop": 0, "taint": 0})
        last_close = {}; expect_last = {}; incb = None
        tr0 = [(e, e.js() if e.kind == "J" else None) for e in r.events]
        for e, a in tr0:
            k = e.kind
            if k == "NET":
                m = re.match(r"accept fd=(\d+) id=(\d+) peer=(\d+)", e.rest)
                if m: y, x = int(m[2]), int(m[3]); ep(y)["peer"] = x; ep(x)["peer"] = y; cur_acc = y; continue
                m = re.match(r"connect id=(\d+) port=(\d+) ok", e.rest)
                if m and mk is not None: clientnet[mk] = int(m[1]); c = ep(int(m[1])); c["script"] = (mk, 0); bynet[(mk, 0)] = c; live.setdefault(mk, set())
                continue
            if k == "PEERCONN": m = re.match(r"(\d+) id=(\d+)", e.rest); peernet[int(m[1])] = int(m[2]); ep(int(m[2]))["stub"] = int(m[1]); continue
            if k == "PEERACC": m = re.match(r"(\d+) id=(\d+) peer=(\d+)", e.rest); peernet[int(m[1])] = int(m[2]); c = ep(int(m[2])); c["stub"] = int(m[1]); c["peer"] = int(m[3]); ep(int(m[3]))["peer"] = int(m[2]); continue
            if k in ("PEERSEND", "PEERRECV"):
                f = e.rest.split(" ", 2); n = int(f[1])
                if int(f[0]) in peernet and n > 0: ep(peernet[int(f[0])])["PS" if k == "PEERSEND" else "PR"] += unesc(f[2])
                continue
            if k == "NETRECV":
                f = e.rest.split(" ", 2); c = ep(int(f[0])); c["NR"] += unesc(f[2]) if len(f) > 2 else b""; continue
            if k in ("NETSENDERR", "NETRECVERR"):
                m = re.match(r"(-?\d+) errno=(\d+)", e.rest)
                if int(m[2]) not in (E.EAGAIN, E.EINTR): ep(int(m[1]))["err"].append(int(m[2]))
                continue
            if k == "NETGONE":
                f = e.rest.split(); c = ep(int(f[0])); c["gone"] = f[1]; continue
            if k == "B":
                h, _, rest = e.rest.partition(" "); d = unesc(rest.partition(" ")[2])
                m = re.match(r"([TXR])(\d+)_(-?\d+)$", h)
                if not m: continue
                kk, id = int(m[2]), int(m[3])
                if m[1] == "R":
                    c = bynet.get((kk, id))
                    if c is None: v.append(("ghost", "data arrived for a connection %d of socket %d that never opened" % (id, kk))); return v
                    if c["c"]: v.append(("after-close", "data arrived on connection %d of socket %d after its close" % (id, kk))); return v
                    c["R"] += d
                else:
                    tg = [(kk, 0)] if (kk in clientnet) else [(kk, z) for z in sorted(live.get(kk, ()))] if id == -1 else [(kk, id)]
                    for t in tg:
                        c = bynet.get(t)
                        if c is not None and (kk in clientnet or id == -1 or id in live.get(kk, ())):
                            if m[1] == "T": c["T"].append((d, 0))
                            else: c["T"].append((d, 1)); c["taint"] = 1
                continue
            if k != "J": continue
            t = a[0]
            if t == "mk": mk = a[1]
            elif t in ("new", "nx"):
                if t == "nx":
                    if not r.fired and not any(x.rest.startswith("connect") and x.rest.endswith("refused") for x in r.of("NET")): v.append(("spurious", "creating a socket failed: %s" % a)); return v
                    c = bynet.pop((mk, 0), None)
                else: live.setdefault(a[1], set())
                mk = None
            elif t == "o":
                kk, id = a[1], a[2]
                if id in everids.setdefault(kk, set()) or not id: v.append(("open", "connection id %s of socket %d opened twice" % (id, kk))); return v
                everids[kk].add(id)
                if cur_acc is None: v.append(("open", "a connection opened that nobody made")); return v
                c = ep(cur_acc); cur_acc = None; c["script"] = (kk, id); c["o"] = 1; bynet[(kk, id)] = c; live.setdefault(kk, set()).add(id)
            elif t == "rej": bynet[(a[1], a[2])]["rej"] = 1
            elif t == "thr":
                c = bynet.get((a[1], a[3]))
                if c is not None: c["thr"] = a[2] if c["thr"] != "o" else "o"
                if a[2] == "o": c["rej"] = 1
            elif t == "c":
                kk, id = a[1], a[2]; c = bynet.get((kk, id))
                if c is None: v.append(("ghost", "close of a connection %d of socket %d that never opened" % (id, kk))); return v
                c["c"] += 1; live.get(kk, set()).discard(id)
                if c["c"] > 1: v.append(("close-twice", "connection %d of socket %d was reported closed twice" % (id, kk))); return v
            elif t in ("cl",):
                kk, id = a[1], a[2]
                for (q, z), c in bynet.items():
                    if q == kk and ((z == id) or (id == -1 and z > 0) or (id == -1 and q in clientnet)) and not c["c"]: c["closed_by"] = 1
                if id == 0: ep(-1 - kk)["gone"] = "stop"
            elif t == "clx":
                if not any(x.get("a") == "throw" for y in p["plan"].values() for x in y): v.append(("spurious", "close raised %s" % a)); return v
            elif t == "drop":
                for (q, z), c in bynet.items():
                    if q == a[1]: c["drop"] = 1
                ep(-1 - a[1])["drop"] = 1
            elif t == "names":
                kk = a[1]; rejnow = {z for (q, z), c in bynet.items() if q == kk and c["rej"]}
                if kk not in clientnet:
                    want = live.get(kk, set()) - rejnow; got = a[2]
                    if isinstance(got, dict) or sorted(set(got) - rejnow) != sorted(want) or len(set(got)) != len(got): v.append(("names", "the socket lists connections %s but %s are open" % (got, sorted(want)))); return v
                    if not rejnow & set(got) and a[3] not in (-1, len(want)) and not rejnow: v.append(("count", "the socket counts %s connections, %d are open" % (a[3], len(want)))); return v
            elif t == "up":
                if a[2] > a[1] * 1000 + 300000 and not any(o["t"] == "mk" and o["o"].get("noAsync") for o in p["ops"]): v.append(("stalled", "update(%d) took %d us of simulated time" % (a[1], a[2]))); return v
            elif t == "idx":
                if a[2] in live.get(a[1], ()) and not bynet[(a[1], a[2])]["rej"]: v.append(("idconf", "open connection %d has no settings" % a[2])); return v
            elif t == "idc":
                if a[2] in {z for (q, z), c in bynet.items() if q == a[1] and (c["c"] or c["rej"])} and a[1] not in clientnet: v.append(("idconf", "closed connection %d still has settings" % a[2])); return v
            elif t == "FIN":
                fin = 1
                for c in conns.values(): c["fin"] = dict(gone=c["gone"], c=c["c"], R=len(c["R"]), PR=len(c["PR"]), NR=len(c["NR"]))
            elif t == "END": end = True
        if not fin: return [("died", "the program stopped early: " + repr(r.events[-5:])[:400])]
        if not end: return [("died", "the program stopped at the end: " + repr(r.events[-5:])[:400])]
        fd = r.of("FDS")
        if fd and not fd[0].rest.startswith("open=0 "): v.append(("fd-leak", "descriptors left open: " + fd[0].rest)); return v
        # both directions of every connection
        for n, c in sorted(conns.items()):
            if n < 0: continue
            if c["script"]:
                who = "connection %d of socket %d" % (c["script"][1], c["script"][0]); k = c["script"][0]
                if bytes(c["R"]) != bytes(c["NR"]): v.append(("recv-bytes", "%s received %d bytes but its callback got %s" % (who, len(c["NR"]), self.d(c["R"], c["NR"])))); return v
            else:
                who = "peer %s" % c["stub"]; k = None
            q = conns.get(c["peer"])
            sent = b"".join(d for d, f in c["T"]) if c["script"] else bytes(c["PS"])
            if q is None: continue
            got = bytes(q["R"]) if q["script"] else bytes(q["PR"])
            # stream integrity: what arrived is a prefix of what was sent
            if not c["taint"]:
                if not sent.startswith(got): v.append(("stream", "%s: the other end received %s" % (who, self.d(got, sent)))); return v
            else:
                if not self.tmatch(c["T"], got): v.append(("stream", "%s (with failed sends): the other end received %d bytes that were not sent in this order" % (who, len(got)))); return v
            ok = lambda z: not z["err"] and not z["closed_by"] and not z["drop"] and not z["rej"] and not z["thr"] and z["fin"]["gone"] is None
            if ok(c) and ok(q) and (q["script"] or q["stub"] is not None) and (c["script"] or c["stub"] is not None) and not (self.unaccepted(c, q)):
                for z in (c, q):
                    if z["fin"]["c"]: v.append(("lost", "%s was closed although nothing happened to it" % (who,))); return v
                if not c["taint"] and len(got) != len(sent): v.append(("undelivered", "%s: %d bytes sent, %d delivered to the other end although both are open and all faults stopped" % (who, len(sent), len(got)))); return v
            # a peer that closed cleanly after sending: everything arrives, then the close
            if not c["script"] and c["stub"] is not None and c["fin"]["gone"] == "fin" and q["script"] and not q["err"] and not q["closed_by"] and not q["drop"] and not q["rej"] and not q["thr"]:
                if len(got) != len(sent): v.append(("undelivered", "%s sent %d bytes and closed, but only %d arrived" % (who, len(sent), len(got)))); return v
        for n, c in sorted(conns.items()):
            if n < 0 or not c["script"]: continue
            k, id = c["script"]; who = "connection %d of socket %d" % (id, k); q = conns.get(c["peer"]); cl = k in clientnet
            if c["rej"]:
                if c["c"] and not c["closed_by"]: v.append(("rejected", "%s was refused by its open callback but reported closed" % who)); return v
                if c["fin"]["gone"] is None: v.append(("rejected", "%s was refused by its open callback but stayed open" % who)); return v
                continue
            if c["drop"]:
                if c["fin"]["gone"] is None: v.append(("dropped", "%s is still open although its socket object is gone" % who)); return v
                continue
            if c["fin"]["c"] and c["fin"]["gone"] is None: v.append(("close", "%s was reported closed but its descriptor is open" % who)); return v
            if cl and c["closed_by"]: continue
            must = c["closed_by"] or (c["thr"] and not cl) or (q is not None and q["fin"]["gone"] is not None)
            if must and not c["fin"]["c"]:
                v.append(("not-closed", "%s ended (%s) but no close was reported" % (who, "closed by the program" if c["closed_by"] else "callback raised" if c["thr"] else "the other end is gone"))); return v
            if not must and c["fin"]["c"] and not c["err"]: v.append(("lost", "%s was closed for no reason" % who)); return v
        # the last close
        for k in sorted(live):
            seq = [(a[0], a[2] if len(a) > 2 else None) for e, a in tr0 if a and a[0] in ("o", "c", "l", "FIN", "drop", "rej") and (a[0] == "FIN" or a[1] == k)]
            if any(x[0] == "drop" for x in seq) or any(c["thr"] for c in conns.values() if c["script"] and c["script"][0] == k) or any(c["rej"] for c in conns.values() if c["script"] and c["script"][0] == k): continue
            if k in clientnet: nl = None
            cnt = 0; due = 0; lasts = 0
            seq = seq[:[x[0] for x in seq].index("FIN")]
            for t, x in seq:
                if t == "o": cnt += 1
                elif t == "c": cnt -= 1; due += (cnt <= 0)
                elif t == "l": lasts += 1
            if k in clientnet: due = sum(1 for t, x in seq if t == "c")
            if lasts != due and not any(ev in key for key in p["plan"] if key.startswith("%dc" % k) for ev in "c"): v.append(("last", "socket %d: %d times no connection was left, but the last close was reported %d times" % (k, due, lasts))); return v
        return v
    def unaccepted(self, c, q):
        return not ((c["script"] or c["stub"] is not None) and (q["script"] or q["stub"] is not None))
    def tmatch(self, T, got):
        """failed sends may have delivered any prefix of their data"""
        pos = {0}
        for d, f in T:
            nx = set()
            for s in pos:
                rest = got[s:]
                if not f:
                    if rest.startswith(d): nx.add(s + len(d))
                    elif d.startswith(rest): return True
                else:
                    n = 0
                    while n < len(d) and n < len(rest) and d[n] == rest[n]: n += 1
                    if n == len(rest): return True
                    nx.update(s + z for z in range(n + 1))
            pos = nx
        return len(got) in pos
    def d(self, a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
        return "%d bytes, differing from the %d expected at offset %d: %r instead of %r" % (len(a), len(b), n, bytes(a[n:n+16]), bytes(b[n:n+16]))
    def tags(self, p, r):
        for e, a in r.js():
            if a[0] in ("o", "c", "l", "rej", "thr", "drop", "serr", "cl", "nx", "rve", "idc", "idx"): yield a[0]
CHECK = C()
