"""C10 UDP sockets: each datagram whole, once and unaltered, whatever happens to others."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_EINTR, unesc
from vlib.fgen import gdata
import json, re, errno, collections
E = errno
JS = r"""
var SK=[], CN=[], N=0, PA=[], TM=0;
function SEND(k,d,o=0) { var s=SK[k]; if (!s) return; simbytes((o?'Y':'Q')+k,d); try { if (o) s.send(0,d,{noAsync:true}); else s.send(0,d); simlog('ok',k); } catch(e) { simlog('serr',k,''+e); }; };
function RECV(k) { return function(s,id,d) { N++; simbytes('R'+k,d); CN[k]++; var a=PLAN['c'+k+'_'+CN[k]]; if (!a) return;
  for (var n=0; n<a.length; n++) { var x=a[n];
    if (x.a=='send') SEND(x.k,simget('/w/d'+x.d),x.o);
    else if (x.a=='throw') { simlog('thr',k); throw 'planned'; }
    else if (x.a=='false') return false;
    else if (x.a=='nest') { update(x.ms); }
    else if (x.a=='sup') { if (SK[k]) SK[k].update(); }
    else if (x.a=='recv') { RV(x.k); }
    else if (x.a=='conf') { if (SK[k]) SK[k].conf({onRecv:RECV(k)}); }
    else if (x.a=='drop') { simlog('drop',k); SK[k]=null; };
  }; }; };
function MK(k,o) { CN[k]=0; o.udp=true; if (!o.client) { if (o.cb_) o.onRecv=RECV(k); else o.noUpdate=true; }; delete o.cb_; simlog('mk',k); try { SK[k]=new Socket(o); simlog('new',k); } catch(e) { simlog('nx',k,''+e); }; };
function RV(k) { if (!SK[k]) return; try { var z=SK[k].recv(); N++; simbytes('R'+k,z); } catch(e) { simlog('rve',k); }; };
function PR(p) { var z=simpeer('recv',p); if (z>0) N++; return z; };
function UP(ms) { var t=simnow(); update(ms); simlog('up',ms,simnow()-t); };
function SETTLE() { var idle=0, n=0; while (idle<8+2*SK.length && n<2000) { n++; var b=N; update(10); for (var z=0; z<PA.length; z++) PR(PA[z]); if (N>b) idle=0; else idle++; }; simlog('settled',n); };
"""
SIZ = [1, 1, 3, 40, 100, 512, 1000, 1472, 1473, 4096, 8191, 8192, 9000, 9000]
PERM = (E.EPERM, E.ENETUNREACH, E.EMSGSIZE, E.ECONNREFUSED, E.EHOSTUNREACH, E.EPIPE)

class C(Check):
    pid = "C10"
    quick_s = 40
    rule = ("a generated history of datagrams between script clients and servers and outside senders, of every size from empty to unsendable, over a network that loses, duplicates, delays and reorders, with callbacks that raise, "
            "send, receive, update or drop their socket; run undisturbed and with failing and interrupted socket calls; distinct by full event trace")
    fault_classes = {"send": [(F_ERR, [E.ENOBUFS, E.EAGAIN]), (F_ERR, list(PERM)), (F_EINTR, 0)], "recv": [(F_ERR, [E.ECONNREFUSED, E.EAGAIN, E.ECONNREFUSED]), (F_EINTR, 0)], "select": [(F_EINTR, 0)]}
    max_variants = 5

    def gen(self, rng, i):
        dat = []; ops = []
        def data():
            n = rng.choice(SIZ) if rng.random() < .75 else rng.randint(1, 2000)
            a = rng.random()
            if a < .05: n = rng.choice([65507, 65506, 65508, 70000, 32768])
            dat.append([rng.choice(["bin", "txt", "lines", "nul"]), n, rng.randrange(10000)]); return len(dat) - 1
        ns = rng.choice([0, 1, 1, 1, 2]); nc = rng.choice([1, 1, 2, 3] if not ns else [0, 1, 1, 2]); np = rng.randint(1, 3)
        k = 0; srv = []; cli = []
        for n in range(ns):
            ops.append({"t": "mk", "k": k, "o": {"port": 9000 + n, "timeout": rng.choice([.001, .01]), "cb_": 1, "recvTimeout": 20000}}); srv.append(k); k += 1
        for n in range(np): ops.append({"t": "pu", "port": rng.choice([7000, 7001, 0, 0]) if n else 7000})
        for n in range(nc):
            o = {"client": True, "port": rng.choice(([9000, 9000, 9000] if ns else []) + ([9001] if ns > 1 else []) + [7000, 7777]), "timeout": rng.choice([.001, .01]), "recvTimeout": 20000}
            if rng.random() < .2: o["noAsync"] = True
            if rng.random() < .2: o["broadcast"] = True
            ops.append({"t": "mk", "k": k, "o": o}); cli.append(k); k += 1
        for _ in range(rng.randint(4, 26)):
            a = rng.random()
            if a < .3 and ns: ops.append({"t": "ps", "p": rng.randrange(np), "d": data() if rng.random() < .93 else -1, "port": rng.choice([9000, 9000, 9001 if ns > 1 else 9000])})
            elif a < .62 and cli: ops.append({"t": "ss", "k": rng.choice(cli), "d": data(), "sync": int(rng.random() < .25)})
            elif a < .78: ops.append({"t": "up", "ms": rng.choice([1, 5, 20, 50])})
            elif a < .84 and cli: ops.append({"t": "pa", "p": rng.randrange(np), "d": data()})
            elif a < .9: ops.append({"t": "rv", "k": rng.choice(cli + cli + srv)})
            elif a < .95: ops.append({"t": "sup", "k": rng.randrange(k)})
            elif a < .965: ops.append({"t": "drop", "k": rng.randrange(k)})
            else: ops.append({"t": "burst", "k": rng.randrange(k), "n": rng.randint(2, 12), "d": data(), "p": rng.randrange(np)})
        plan = {}
        for s in srv:
            for n in range(1, 9):
                if rng.random() < .25:
                    acts = []
                    for _ in range(rng.randint(1, 2)):
                        x = {"a": rng.choice(["send", "send", "throw", "false", "nest", "sup", "conf", "drop", "recv"])}
                        if x["a"] == "drop" and rng.random() < .7: x["a"] = "throw"
                        if x["a"] == "send":
                            if not cli: continue
                            x.update(k=rng.choice(cli), d=data(), o=int(rng.random() < .3))
                        if x["a"] == "recv":
                            x["k"] = rng.choice(srv + cli)
                        if x["a"] == "nest": x["ms"] = rng.choice([1, 10])
                        acts.append(x)
                    if acts: plan["c%d_%d" % (s, n)] = acts
        cfg = {"net_min_us": rng.choice([10, 100, 1000]), "net_jit_us": rng.choice([0, 500, 5000]), "net_loss": rng.choice([0, 0, 100, 300]), "net_dup": rng.choice([0, 0, 200]), "net_reorder": rng.choice([0, 300])}
        return {"ops": ops, "plan": plan, "dat": dat, "cfg": cfg, "want_faults": True, "seed": rng.randrange(1 << 30)}
    def build(self, p):
        sc = Scenario(p["seed"])
        for n, d in enumerate(p["dat"]): sc.file("/w/d%d" % n, gdata(d))
        js = ["var PLAN=%s;" % json.dumps(p["plan"]), JS]
        for o in p["ops"]:
            t = o["t"]; g = ("simget('/w/d%d')" % o["d"] if o["d"] >= 0 else "''") if "d" in o else ""
            if t == "mk": s = "MK(%d,%s)" % (o["k"], json.dumps(o["o"]))
            elif t == "pu": s = "PA.push(simpeer('udp',%d))" % o["port"]
            elif t == "ps": s = "if (PA.length) simpeer('send',PA[%d%%PA.length],%s,%d)" % (o["p"], g, o["port"])
            elif t == "pa": s = "if (PA.length && PR(PA[%d%%PA.length])>=0) simpeer('send',PA[%d%%PA.length],%s,0)" % (o["p"], o["p"], g)
            elif t == "ss": s = "SEND(%d,%s%s)" % (o["k"], g, ",1" if o["sync"] else "")
            elif t == "up": s = "UP(%d)" % o["ms"]
            elif t == "rv": s = "RV(%d)" % o["k"]
            elif t == "sup": s = "if (SK[%d]) SK[%d].update()" % (o["k"], o["k"])
            elif t == "drop": s = "simlog('drop',%d); SK[%d]=null" % (o["k"], o["k"])
            elif t == "burst":
                cl = any(q["t"] == "mk" and q["k"] == o["k"] and q["o"].get("client") for q in p["ops"])
                s = "for (var bi=0; bi<%d; bi++) %s" % (o["n"], "SEND(%d,bi+'|'+%s)" % (o["k"], g) if cl else "{ if (PA.length) simpeer('send',PA[%d%%PA.length],bi+'|'+%s,%d); }" % (o["p"], g, 9000))
            js.append(s + ";")
        js.append("simcalm(); SETTLE(); simlog('FIN');")
        js.append("for (var k=0; k<SK.length; k++) SK[k]=null; update(5); simlog('END');")
        sc.phase("\n".join(js)); sc.set(tick_ns=2000, p_edge=0)
        return sc
    def shrink(self, p):
        for k in list(p["plan"]):
            q = json.loads(json.dumps(p)); del q["plan"][k]; yield q
        for n, d in enumerate(p["dat"]):
            if d[1] > 9: q = json.loads(json.dumps(p)); q["dat"][n][1] = 3; yield q

    def oracle(self, p, r):
        opt = {o["k"]: o["o"] for o in p["ops"] if o["t"] == "mk"}
        net = {}; of = {}; mk = None; q = collections.defaultdict(list); port = {}; sync = {}
        R = collections.defaultdict(list); NR = collections.defaultdict(list); due = collections.defaultdict(collections.Counter); dropped = set(); alive = {}; last = None; fin = end = False; cur = None
        ports = {}
        def viol(c, m): return [(c, m)]
        for e in r.events:
            k = e.kind
            if k == "NET":
                m = re.match(r"socket fd=\d+ id=(\d+) udp", e.rest)
                if m and mk is not None: net[int(m[1])] = mk; of[mk] = int(m[1]); continue
                m = re.match(r"dgram from=(\d+) to=(\d+) len=(\d+) copies=(\d+) ?(noroute)?", e.rest)
                if m: last = (int(m[1]), int(m[2]), int(m[3]), 0 if m[5] else int(m[4]))
            elif k in ("NETSEND", "PEERSEND"):
                f = e.rest.split(" ", 2); d = unesc(f[2]) if len(f) > 2 else b""
                if int(f[1]) < 0: last = None; continue
                if last is None: return viol("simulator", "datagram without a route")
                if len(d) != last[2]: return viol("simulator", "datagram size")
                for kk in opt:
                    if ports.get(kk) == last[1] and kk not in dropped and last[3]: due[kk][d] += last[3]
                if k == "NETSEND":
                    kk = net.get(int(f[0]))
                    if kk is None: last = None; continue
                    ports.setdefault(kk, last[0])
                    if opt[kk].get("client") and last[1] != opt[kk]["port"]: return viol("address", "client %d sent to port %d instead of %d" % (kk, last[1], opt[kk]["port"]))
                    if not q[kk]: return viol("ghost", "client %d sent a datagram of %d bytes nobody asked for" % (kk, len(d)))
                    want = q[kk].pop(0)
                    if want[1] != d: return viol("sent-bytes", "client %d put %s on the wire" % (kk, self.d(d, want[1])))
                    want[2] = "sent"
                last = None
            elif k == "NETSENDERR":
                m = re.match(r"(-?\d+) errno=(\d+)", e.rest); kk = net.get(int(m[1])); en = int(m[2])
                if kk is not None and en not in (E.EAGAIN, E.EINTR, E.ENOBUFS):
                    if not q[kk]: return viol("ghost", "client %d tried to send a datagram nobody asked for" % kk)
                    q[kk].pop(0)[2] = "lost"
            elif k == "NETRECV":
                f = e.rest.split(" ", 2); kk = net.get(int(f[0]))
                if kk is not None: NR[kk].append(unesc(f[2]) if len(f) > 2 else b"")
            elif k == "B":
                h, _, rest = e.rest.partition(" "); d = unesc(rest.partition(" ")[2]); m = re.match(r"([QYR])(\d+)$", h)
                if not m: continue
                kk = int(m[2])
                if m[1] == "R":
                    n = len(R[kk])
                    if kk in dropped and not end and False: pass
                    if n >= len(NR[kk]): return viol("ghost", "socket %d delivered a datagram of %d bytes that did not arrive" % (kk, len(d)))
                    if NR[kk][n] != d: return viol("recv-bytes", "socket %d delivered %s" % (kk, self.d(d, NR[kk][n])))
                    R[kk].append(d)
                else:
                    it = [m[1], d, None]; q[kk].append(it); cur = it
                    sync.setdefault(kk, []).append(it)
            elif k == "J":
                a = e.js(); t = a[0]
                if t == "mk": mk = a[1]
                elif t == "new":
                    mk = None
                    if not opt[a[1]].get("client"): ports[a[1]] = opt[a[1]]["port"]
                elif t == "nx": return viol("spurious", "creating a socket failed: %s" % a)
                elif t in ("ok", "serr"):
                    kk = a[1]; it = sync[kk].pop()
                    issync = it[0] == "Y" or opt[kk].get("noAsync")
                    if t == "ok" and issync and it[2] != "sent": return viol("sync-lost", "client %d: an immediate send of %d bytes reported success but was not sent" % (kk, len(it[1])))
                    if t == "serr":
                        if not issync: return viol("spurious", "client %d: send raised %s" % (kk, a))
                        if it[2] == "sent": return viol("sync-err", "client %d: an immediate send raised although it was sent" % kk)
                        if not r.fired and len(it[1]) <= 65507: return viol("spurious", "client %d: send raised %s" % (kk, a))
                        if it in q[kk]: q[kk].remove(it)
                elif t == "drop": dropped.add(a[1])
                elif t == "up":
                    if a[2] > a[1] * 1000 + 400000: return viol("stalled", "update(%d) took %d us of simulated time" % (a[1], a[2]))
                elif t == "FIN":
                    fin = True
                    for kk in opt:
                        if kk in dropped: continue
                        if q[kk]: return viol("undelivered", "client %d still holds %d datagrams after all faults stopped" % (kk, len(q[kk])))
                elif t == "END": end = True
        if not fin or not end: return viol("died", "the program stopped early: " + repr(r.events[-5:])[:400])
        for kk in opt:
            srv = not opt[kk].get("client")
            if len(R[kk]) != len(NR[kk]) and kk not in dropped and (not srv or opt[kk].get("cb_")): return viol("recv-lost", "socket %d read %d datagrams but delivered %d" % (kk, len(NR[kk]), len(R[kk])))
            if kk in dropped: continue
            got = collections.Counter(NR[kk])
            if srv and opt[kk].get('cb_'):
                if got != due[kk]:
                    x = (due[kk] - got) or (got - due[kk]); d = next(iter(x))
                    return viol("arrived", "socket %d: %d datagrams arrived, %d were read; for example one of %d bytes" % (kk, sum(due[kk].values()), sum(got.values()), len(d)))
            elif got - due[kk]: return viol("arrived", "socket %d read datagrams that were not sent to it" % kk)
        fd = r.of("FDS")
        if fd and not fd[0].rest.startswith("open=0 "): return viol("fd-leak", "descriptors left open: " + fd[0].rest)
        return []
    def d(self, a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
        return "%d bytes, differing from the %d expected at offset %d: %r instead of %r" % (len(a), len(b), n, bytes(a[n:n+16]), bytes(b[n:n+16]))
    def tags(self, p, r):
        for e, a in r.js():
            if a[0] in ("ok", "serr", "thr", "drop", "rve"): yield a[0]
        for e in r.events:
            if e.kind == "NET" and "copies=" in e.rest: yield "dgram" + e.rest.split("copies=")[1].split()[0]
CHECK = C()
