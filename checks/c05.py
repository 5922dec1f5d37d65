"""C05 database transactions: all or nothing, acknowledged work is durable, nothing else changes; across I/O errors, full disks, other processes' locks, crashes and power loss."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_SHORT, F_FULL, F_CRASH, unesc
from vlib import fgen
import json

JS = """
function V(s,n) { var o='v'+s+':'; while (o.length<n) o+='abcdefghij'+s; return o; };
var DB=[], nb=0;
function Q(c,s) { var db=DB[c];
  if (s[0]=='ins') db.query("INSERT INTO kv VALUES(?,?)",{values:[s[1],V(s[2],s[3])]});
  else if (s[0]=='rep') { var k=s[1], v=V(s[2],s[3]); db.query("REPLACE INTO kv VALUES(@k,$v)"); }
  else if (s[0]=='upd') db.query("UPDATE kv SET v=? WHERE k=?",{values:[V(s[2],s[3]),s[1]]});
  else if (s[0]=='updall') db.query("UPDATE kv SET v=v||'"+s[1]+"'");
  else if (s[0]=='del') db.query("DELETE FROM kv WHERE k="+s[1]);
  else if (s[0]=='ev') db.eval(s[1]);
  else if (s[0]=='bad') db.query("INSERT INTO nosuch VALUES(1)");
  else if (s[0]=='sel') { var r=db.query("SELECT k,v FROM kv ORDER BY k"), o=''; for (var i=0; i<r.length; i++) o+=r[i].k+'='+r[i].v+';'; simbytes('D'+s[1],o); }
  else if (s[0]=='part') { db.query("SELECT k,v FROM kv ORDER BY k", function(r) { return false; }); }
};
function MON(i) { simquiet(1); try { var m=new Sqlite('/w/t.db'); var r=m.query("SELECT k,v FROM kv ORDER BY k"), o=''; for (var q=0; q<r.length; q++) o+=r[q].k+'='+r[q].v+';'; simbytes('M'+i,o); } catch(e) { simlog('M',i,''+e); }; m=null; simquiet(0); };
function I(id,c,s) { try { Q(c,s); simlog('I',id,1); } catch(e) { simlog('I',id,0,''+e); throw e; }; };
"""
# every inner step is [id, kind, ...]; ids index the log

class C(Check):
    pid = "C05"
    quick_s = 45
    rule = ("a generated program of autocommit statements, multi-statement evals and (nested, throwing, catching) transactions over one or two connections, with other processes' locks; "
            "run once undisturbed, then with I/O errors, full disk, busy results, and crashes or power loss at chosen database writes, syncs and deletes; the surviving file is reopened and compared; distinct by full event trace")
    fault_classes = {"dbwrite": [(F_ERR, 0), (F_FULL, 0), (F_SHORT, [1, 100, 511]), (F_CRASH, 0), (F_CRASH, 0), (F_CRASH, 0)], "dbsync": [(F_ERR, 0), (F_CRASH, 0), (F_CRASH, 0)],
                     "dbdel": [(F_ERR, 0), (F_CRASH, 0), (F_CRASH, 0)], "dbread": [(F_ERR, 0)], "dblock": [(F_ERR, [0, 0, 1])], "dbtrunc": [(F_ERR, 0), (F_CRASH, 0)], "dbopen": [(F_ERR, 0)], "dbsize": [(F_ERR, 0)]}
    max_variants = 5

    def gen(self, rng, i):
        self.nid = 0
        nid = self.ids()
        n2 = rng.random() < .4
        def stmt(c, intx):
            a = rng.random(); k = rng.randint(1, 8); vs = rng.randrange(1000); vl = rng.choice([0, 0, 10, 100, 900, 3000])
            if a < .3: return ["ins", k, vs, vl]
            if a < .5: return ["rep", k, vs, vl]
            if a < .62: return ["upd", k, vs, vl]
            if a < .68: return ["updall", "+%d" % (vs % 10)]
            if a < .78: return ["del", k]
            if a < .88:
                parts = []
                for _ in range(rng.randint(1, 3)):
                    k = rng.randint(1, 8)
                    parts.append(rng.choice(["INSERT INTO kv VALUES(%d,'e%d')" % (k, vs), "DELETE FROM kv WHERE k=%d" % k, "REPLACE INTO kv VALUES(%d,'f%d')" % (k, vs)]))
                return ["ev", ";".join(parts) + rng.choice(["", ";", "; ", ";\n"])]
            if a < .91: return ["bad"]
            if a < .95: return ["part"]
            return ["sel", nid()]
        def tx(c, depth):
            inner = []
            for _ in range(rng.randint(0, 5)):
                a = rng.random()
                if a < .14 and depth < 3: inner.append([nid(), "tx", tx(c, depth + 1), int(rng.random() < .6)])
                elif a < .22 and n2: inner.append([nid(), "st", 1 - c, rng.choice([["sel", nid()], ["ins", rng.randint(1, 8), rng.randrange(1000), 5]]), 1])
                else:
                    s = stmt(c, True); inner.append([nid(), "st", c, s, int(rng.random() < .5)])
            return {"id": nid(), "c": c, "type": rng.choice(["", "", "", "deferred", "immediate", "exclusive"]) if depth == 1 else "", "in": inner, "end": rng.choices(["ok", "throw", "ret", "veto"], [6, 2.5, 1, .4 if depth == 1 else 0])[0]}
        ops = []
        for _ in range(rng.randint(1, 9)):
            a = rng.random(); c = int(n2 and rng.random() < .4)
            if a < .5: ops.append(["tx", tx(c, 1)])
            elif a < .78: ops.append(["st", nid(), c, stmt(c, False)])
            elif a < .88:
                lv = rng.choice([2, 4, 4]); us = rng.choice([200, 5000, 60000, 300000]); ops.append(["lock", lv, us])
                if rng.random() < .3: ops.append(["adv", rng.choice([100, 10000])])
            elif a < .94: ops.append(["reopen", nid(), c])
            else: ops.append(["busy", nid(), c, rng.choice([["timeout", 0], ["timeout", 20], ["timeout", 500], ["cb", 3, 0], ["cb", 50, 5000], ["cb", 0, 0]])])
        p = {"ops": ops, "two": int(n2), "ini": [[k, rng.randrange(1000), rng.choice([3, 50, 2000])] for k in sorted(rng.sample(range(1, 9), rng.randint(0, 5)))],
             "cache": rng.choice([0, 0, 0, 1, 2]), "stmtcache": rng.choice([0, 0, 1, 3, -1]), "mode": rng.randrange(4), "journal": rng.choice(["delete", "delete", "delete", "truncate", "persist"]), "want_faults": True, "seed": rng.randrange(1 << 30)}
        return p
    def ids(self):
        c = [0]
        def f(): c[0] += 1; return c[0]
        return f

    def openjs(self, p, c):
        js = "DB[%d]=new Sqlite('/w/t.db'%s);" % (c, "" if p["stmtcache"] == 0 else ",{stmtCacheMax:%d}" % (0 if p["stmtcache"] < 0 else p["stmtcache"]))
        if p["cache"]: js += "DB[%d].eval('PRAGMA cache_size=%d');" % (c, p["cache"])
        if p["journal"] != "delete": js += "DB[%d].onecolumn('PRAGMA journal_mode=%s');" % (c, p["journal"])
        return js
    def build(self, p):
        sc = Scenario(p["seed"]); sc.dir("/w")
        js = [JS, "simquiet(1); var s0=new Sqlite('/w/t.db'); s0.eval('CREATE TABLE kv(k INTEGER PRIMARY KEY, v TEXT);'); "]
        for k, vs, vl in p["ini"]: js.append("s0.query('INSERT INTO kv VALUES(?,?)',{values:[%d,V(%d,%d)]});" % (k, vs, vl))
        js.append("s0=null; simquiet(0); simlog('SETUP');")
        js.append("try { %s } catch(e) { simlog('OPENFAIL',''+e); exit(0); };" % " ".join(self.openjs(p, c) for c in range(1 + p["two"])))
        js.append("simlog('GO');"); n0 = len(js)
        def st(s): return json.dumps(s)
        def txjs(t, ind):
            b = []
            for e in t["in"]:
                if e[1] == "st":
                    x = "I(%d,%d,%s);" % (e[0], e[2], st(e[3]))
                    b.append("try { %s } catch(e) {};" % x if e[4] else x)
                else:
                    x = txjs(e[2], ind + 1)
                    b.append("try { %s } catch(e) {};" % x if e[3] else x)
            end = {"ok": "", "ret": "return %d;" % (t["id"] % 3), "throw": "throw 'thrown%d';" % t["id"], "veto": ""}[t["end"]]
            veto = "DB[%d].conf({onCommit:function() { simlog('CM'); return %s; }});" % (t["c"], "true") if t["end"] == "veto" else ""
            unveto = "DB[%d].conf({onCommit:null});" % t["c"] if t["end"] == "veto" else ""
            args = "function() { %s simlog('E',%d); %s }" % (" ".join(b), t["id"], end) + (",'%s'" % t["type"] if t["type"] else "")
            return "%s simlog('B',%d); try { DB[%d].transaction(%s); simlog('T',%d,1); } catch(e) { simlog('T',%d,0,''+e); %s throw e; }; %s" % (veto, t["id"], t["c"], args, t["id"], t["id"], unveto, unveto)
        for o in p["ops"]:
            if o[0] == "tx": b = txjs(o[1], 1)
            elif o[0] == "st": b = "I(%d,%d,%s);" % (o[1], o[2], st(o[3]))
            elif o[0] == "lock": b = "simdblock('/w/t.db',%d,%d);" % (o[1], o[2])
            elif o[0] == "adv": b = "simadv(%d);" % o[1]
            elif o[0] == "reopen": b = "DB[%d]=null; try { %s simlog('O',%d,1); } catch(e) { simlog('O',%d,0,''+e); exit(0); };" % (o[2], self.openjs(p, o[2]), o[1], o[1])
            elif o[0] == "busy":
                m = o[3]
                b = "DB[%d].conf({timeout:%d,onBusy:null}); simlog('BSY',%d,0);" % (o[2], m[1], o[1]) if m[0] == "timeout" else \
                    "DB[%d].conf({timeout:0,onBusy:function(db,n) { simlog('BC',n,typeof db); simadv(%d); return n<%d; }}); simlog('BSY',%d,1);" % (o[2], m[2], m[1], o[1])
            js.append("try { %s } catch(e) {}; MON(%d);" % (b, len(js) - n0))
        js.append("simlog('END');")
        sc.phase("\n".join(js), opt=1 if p["seed"] % 3 == 0 else 0)
        dump = """var d=new Sqlite('/w/t.db',{timeout:600000}); simlog('IC',d.onecolumn('PRAGMA integrity_check')); var r=d.query("SELECT k,v FROM kv ORDER BY k"), o='';
for (var i=0; i<r.length; i++) o+=r[i].k+'='+r[i].v+';'; simbytes('FINAL',o); delete d;"""
        sc.phase("simcalm();" + dump, opt=0x100 | (p["mode"] << 9) if self.powerloss(p) else 0)
        sc.set(tick_ns=5000, p_edge=0)
        return sc
    def powerloss(self, p): return p["seed"] % 4 == 0 or any(f[2] == F_CRASH for f in p.get("faults", []))

    # reference model
    def apply(self, s, st):
        """statement against a state: (should succeed, new state, states reachable when it stops early)"""
        st = dict(st); k = s[0]; V = self.val
        if k == "ins":
            if s[1] in st: return False, st, [dict(st)]
            st[s[1]] = V(s[2], s[3])
        elif k == "rep": st[s[1]] = V(s[2], s[3])
        elif k == "upd":
            if s[1] in st: st[s[1]] = V(s[2], s[3])
        elif k == "updall":
            for q in st: st[q] += s[1]
        elif k == "del": st.pop(s[1], None)
        elif k == "bad": return False, st, [dict(st)]
        elif k == "ev":
            mids = [dict(st)]
            for q in s[1].split(";"):
                q = q.strip()
                if not q: continue
                if q.startswith("DELETE"): st.pop(int(q.split("k=")[1]), None)
                else:
                    kk, vv = q[q.index("(")+1:-1].split(",", 1); kk = int(kk); vv = vv.strip("'")
                    if q.startswith("INSERT") and kk in st: return False, st, mids
                    st[kk] = vv
                mids.append(dict(st))
            return True, st, mids
        return True, st, None
    def oracle(self, p, r):
        v = []; ser = self.ser
        state = {k: self.val(vs, vl) for k, vs, vl in p["ini"]}
        evs = r.events
        ph = [n for n, e in enumerate(evs) if e.kind == "PHASE"]
        p0 = evs[:ph[1]] if len(ph) > 1 else evs
        p1 = evs[ph[1]:] if len(ph) > 1 else []
        crashed = any(e.kind == "CRASH" for e in p0)
        log = [(n, e, e.js()) for n, e in enumerate(p0) if e.kind == "J"]
        tags = [a[0] for _, _, a in log]
        fin = None; ic = None
        for e in p1:
            if e.kind == "B" and e.rest.startswith("FINAL"): fin = unesc(e.rest.split(" ", 2)[2]).decode("latin-1")
            if e.kind == "J" and e.js()[0] == "IC": ic = e.js()[1]
        if fin is None: return [("no-final", "the database could not be read back after the run: " + repr(p1[-5:])[:300])]
        if ic != "ok": v.append(("integrity", "integrity_check after restart: %s" % str(ic)[:200]))
        if "SETUP" not in tags: return v + ([] if crashed else [("setup", "setup failed")])
        if "GO" not in tags:
            if not r.fired and not crashed: v.append(("spurious", "opening failed with no fault: " + repr(p0[-3:])))
            if fin != ser(state): v.append(("final", "nothing was written yet the database changed: " + diff(fin, ser(state))))
            return v
        early = any(a[0] == "O" and a[2] == 0 for _, _, a in log)
        if "END" not in tags and not crashed and not early: v.append(("script-died", "the program stopped early: " + repr(p0[-4:])[:300]))
        rec = {}; mon = {}; dumps = {}
        for n, e, a in log:
            if a[0] in ("I", "T", "E", "B", "BSY", "O"): rec.setdefault((a[0], a[1]), (n, e, a))
            if a[0] == "M": mon.setdefault(a[1], (n, None, a[2]))
        for n, e in enumerate(p0):
            if e.kind == "B":
                h, _, rest = e.rest.partition(" ")
                d = unesc(rest.partition(" ")[2]).decode("latin-1")
                if h.startswith("D"): dumps[int(h[1:])] = d
                elif h.startswith("M"): mon[int(h[1:])] = (n, d, None)
        start = next(n for n, e, a in log if a[0] == "GO")
        base = [state]; known = True; fin_alts = [state]; ext = [0, 0]; bus = {0: ("timeout", 0), 1: ("timeout", 0)}; everflt = False; unsure = None
        for i, o in enumerate(p["ops"]):
            m = mon.get(i); stop = m[0] if m else len(p0)
            win = p0[start:stop]; flt = any(e.kind == "FAULT" for e in win); everflt |= flt; t0 = p0[start].t
            locked = ext[0] and t0 <= ext[1]
            start = stop
            alts = [base[0]]                 # states allowed after this step
            if o[0] == "lock":
                x = [e for e in win if e.kind == "DBEXTLOCK"]
                if x: ext = [o[1], x[0].t + o[2]]
            elif o[0] == "busy":
                if ("BSY", o[1]) in rec: bus[o[2]] = tuple(o[3])
            elif o[0] == "reopen":
                x = rec.get(("O", o[1])); bus[o[2]] = ("timeout", 0)
                if x and not x[2][2] and not flt and not locked and not everflt: v.append(("spurious", "reopen failed with no fault: " + str(x[2][3])))
            elif o[0] == "st":
                ok, new, mids = self.apply(o[3], base[0]) if known else (None, None, None)
                x = rec.get(("I", o[1]))
                if x is None:
                    alts = None if not known else [base[0]] + ([new] if ok else []) + (mids or [])
                elif x[2][2]:
                    if known:
                        if not ok: v.append(("accepted", "step %d %s should have failed and did not" % (o[1], o[3])))
                        if o[3][0] == "sel" and o[3][1] in dumps and dumps[o[3][1]] != ser(base[0]): v.append(("visible", "step %d sees %s" % (o[1], diff(dumps[o[3][1]], ser(base[0])))))
                        alts = [new]
                    else: alts = None
                else:
                    if known and ok and not flt and not locked and not everflt: v.append(("spurious", "step %d %s failed with no fault and no lock: %s" % (o[1], o[3], x[2][3])))
                    if known: alts = mids if mids and (not ok or flt or locked) else [base[0]]
                    if known and ok and flt and p["journal"] != "delete": alts = alts + [new]   # the journal was already invalidated when its sync failed
                    if known and not ok and mids and not flt and not locked and not everflt: alts = [mids[-1]]
                    if ok and locked and not flt and not everflt and o[3][0] != "ev":
                        # must wait out the busy timeout or ask onBusy again before giving up
                        b = bus[o[2]]; need = b[1] * (1000 if b[0] == "timeout" else b[2])
                        if need and x[1].t < t0 + need and x[1].t < ext[1] + 2000: v.append(("gave-up", "step %d gave up on a lock after %.1f ms, busy setting %s" % (o[1], (x[1].t - t0) / 1e3, b)))
                        if need and t0 + need > ext[1] + 30000: v.append(("gave-up", "step %d gave up although the lock ended %.1f ms before its busy limit %s" % (o[1], (t0 + need - ext[1]) / 1e3, b)))
            elif o[0] == "tx":
                alts = self.tx(p, o[1], rec, dumps, base, known, flt, locked, everflt, v, not m and crashed)
            # what a fresh connection sees now
            if m is None: fin_alts = None if unsure == "any" or alts is None else alts + (unsure or []); break
            if m[1] is not None:
                if alts is not None and not any(m[1] == ser(a) for a in alts):
                    v.append(("state", "after step %d %s a new connection sees %s" % (i, json.dumps(o)[:160], diff(m[1], ser(alts[-1]))))); return v
                prev = base[0]; base[0] = self.parse(m[1]); known = True; fin_alts = [base[0]]
                if flt and p["journal"] != "delete" and (alts is None or len(alts) > 1): unsure = "any" if alts is None or unsure == "any" else alts + (unsure or [])
                elif prev != base[0]: unsure = None
                if unsure: fin_alts = fin_alts + unsure if unsure != "any" else None
            else:
                if not everflt: v.append(("unreadable", "after step %d %s a new connection cannot read the database: %s" % (i, json.dumps(o)[:160], m[2]))); return v
                known = alts is not None and len(alts) == 1; fin_alts = alts
                if known: base[0] = alts[0]
        if fin_alts is not None and not any(fin == ser(a) for a in fin_alts):
            v.append(("final", "after the restart the database holds %s" % diff(fin, ser(fin_alts[0]))))
        return v
    def parse(self, s):
        return {int(x.split("=", 1)[0]): x.split("=", 1)[1] for x in s.split(";") if x}
    def tx(self, p, t, rec, dumps, base, known, flt, locked, everflt, v, incrash):
        ser = self.ser
        S = {"frames": [], "amb": not known, "wrote": False, "read": False}
        def run(t, cur, depth):
            """-> (outcome 1 returned / 0 raised / None unfinished, state)"""
            if ("B", t["id"]) not in rec: return None, cur
            F = {"b": cur}; S["frames"].append(F); raised = False; done = True
            for e in t["in"]:
                if e[1] == "tx":
                    o, new = run(e[2], cur, depth + 1)
                    if o is None: done = False; break
                    cur = new
                    if o == 0 and (flt or everflt): S["amb"] = True      # undoing just the inner part may have failed, then everything is undone
                    if o == 0 and not e[3]: raised = True; break
                    continue
                x = rec.get(("I", e[0])); s = e[3]
                if x is None:
                    done = False
                    if e[2] != t["c"] and s[0] == "ins": S["other"] = self.apply(s, base[0])[1]
                    break
                good = x[2][2]
                if e[2] != t["c"]:
                    if s[0] == "sel" and good and known and s[1] in dumps and dumps[s[1]] != ser(base[0]) and not S["amb"]:
                        v.append(("isolation", "step %d: the other connection sees uncommitted or wrong data: %s" % (e[0], diff(dumps[s[1]], ser(base[0])))))
                    if s[0] == "ins" and good:
                        if S["wrote"] and not S["amb"] and not flt and not everflt: v.append(("isolation", "step %d: another connection committed while this transaction held its writes" % e[0]))
                        ok, new, _ = self.apply(s, base[0])
                        if known and not ok and not S["amb"]: v.append(("accepted", "step %d %s should have failed" % (e[0], s)))
                        base[0] = new
                        if not S["amb"]:
                            cur = new
                            for f in S["frames"]: f["b"] = new
                    if not good and flt and p["journal"] != "delete": S["none"] = True
                    if not good and not e[4]: raised = True; break
                    continue
                ok, new, mids = self.apply(s, cur)
                if good:
                    if not S["amb"]:
                        if not ok: v.append(("accepted", "step %d %s should have failed and did not" % (e[0], s)))
                        if s[0] == "sel" and s[1] in dumps and dumps[s[1]] != ser(cur): v.append(("visible", "step %d inside transaction %d sees %s" % (e[0], t["id"], diff(dumps[s[1]], ser(cur)))))
                    if s[0] in ("ins", "rep", "upd", "updall", "del", "ev"): S["wrote"] = True
                    cur = new
                else:
                    if ok and not flt and not locked and not everflt and not p["two"] and not S["amb"]: v.append(("spurious", "step %d %s failed with no fault and no lock: %s" % (e[0], s, x[2][3])))
                    if flt or locked or everflt or p["two"]:
                        if ok or flt or everflt or s[0] == "ev": S["amb"] = True      # sqlite may have rolled everything back by itself
                    elif s[0] == "ev" and mids: cur = mids[-1]
                    if s[0] in ("ins", "ev"): S["wrote"] = True
                    if not e[4]: raised = True; break
            x = rec.get(("T", t["id"]))
            if x is None:
                S["ended"] = ("E", t["id"]) in rec
                return None, cur
            fails = raised or t["end"] == "throw"
            if x[2][2]:
                if fails: v.append(("swallowed", "transaction %d returned although its function raised" % t["id"]))
                if not done or (("E", t["id"]) not in rec): v.append(("order", "transaction %d returned before its function had finished" % t["id"]))
                if t["end"] == "veto" and depth == 1 and cur != F["b"] and not S["amb"]: v.append(("veto", "transaction %d committed although onCommit refused" % t["id"]))
                return 1, cur
            if not fails and not flt and not locked and not everflt and not p["two"] and not S["amb"] and t["end"] != "veto": v.append(("spurious", "transaction %d failed with no fault: %s" % (t["id"], x[2][3])))
            S["cur"] = cur
            return 0, F["b"]
        b0 = base[0]
        o, cur = run(t, b0, 1)
        if not known or "none" in S: return None
        caught = any(self.catches(t))
        if o == 1: return None if S["amb"] else [cur]
        if o == 0 and flt and p["journal"] != "delete" and ("E", t["id"]) in rec and t["end"] != "throw": return [S["cur"], base[0]] if not S["amb"] else None
        if o == 0: return None if S["amb"] and caught else [base[0]]
        # unfinished: only possible when the process died
        if "other" in S: return [base[0], S["other"]]
        if S["amb"]: return [base[0], cur] if not caught else None
        return [base[0], cur] if S.get("ended") else [base[0]]
    def catches(self, t):
        for e in t["in"]:
            if e[1] == "st": yield bool(e[4])
            else: yield bool(e[3]); yield from self.catches(e[2])
    def val(self, s, n):
        o = "v%d:" % s
        while len(o) < n: o += "abcdefghij%d" % s
        return o
    def ser(self, st): return "".join("%d=%s;" % (k, st[k]) for k in sorted(st))
    def tags(self, p, r):
        for e, a in r.js():
            if a[0] in ("T", "I"): yield a[0] + ("ok" if a[2] else "fail")
            if a[0] in ("BC", "CM"): yield a[0]
        if any(e.kind == "CRASH" for e in r.events): yield "crash"
        if any(e.kind == "POWERLOSS" for e in r.events): yield "powerloss"
def diff(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]: i += 1
    return "...%s (%d bytes) where ...%s (%d bytes) was expected, from offset %d" % (a[max(0,i-10):i+60], len(a), b[max(0,i-10):i+60], len(b), i)
CHECK = C()
