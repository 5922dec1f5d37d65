"""C06 queries: every row, every value, exactly - or an error; whatever the statement cache, the callbacks and the disk have been through."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_FULL, unesc
import json, re, sqlite3, csv, io

JS = r"""
var GF=[function(x) { return 'g'+x; }, function(x) { return 'h'+x; }, function(x) { return 'i'+x; }], CT=null, OB;
var DB=[], FT=-1, FN=0, RS='\u001e', FS='\u001f';
function S(w) { if (w.length==0 || typeof w[0]=='undefined') return 'U'; var v=w[0]; if (v===null) return 'N'; var t=typeof v; if (t=='number') return 'n'+v; if (t=='string') return 's'+v; if (t=='boolean') return v?'b1':'b0'; if (t=='undefined') return 'U'; return 'j'+JSON.stringify(v); };
function ROW(r) { var o=''; for (var k in r) o+=k+'='+S([r[k]])+FS; return o; };
function ARR(r) { var o=''; for (var k=0; k<r.length; k++) o+=S([r[k]])+FS; return o; };
function OPEN(c,opt) { DB[c]=new Sqlite('/w/t.db',opt); var db=DB[c];
  db.func('ff', function(x,y) { if (x===FT) { if (FN==2) db.interrupt(); else throw 'ffthrow'; }; if (FN==1) { db.onecolumn('SELECT count(*) FROM u'); }; return x+y; });
  db.func('gg', GF[0]); db.func('gg', function(x,y) { return 'G'+x+y; });
  db.collate('cc', function(d,x,y) { if (CT!==null && (x===CT || y===CT)) throw 'ccthrow'; return x<y?1:(x>y?-1:0); });
};
function RUN(i,op) {
  var db=DB[op.c], a=op.v[0], b=op.v[1], c=op.v[2], o={x:op.v[0],y:op.v[1]}, r=[op.v[2],op.v[0]], u, ob={z:1}, out='';
  FT=op.ft; FN=op.fn; CT=op.ct;
  var q=op.q;
  if (op.how=='one') { out=S([db.onecolumn(q)]); }
  else if (op.how=='ex') { out=S([db.exists(q)]); }
  else if (op.how=='eval') { out=S([db.eval(q)]); }
  else if (op.how=='cb') {
    var n=0, f=function(row) { n++; simbytes('W'+i,ROW(row));
      if (op.nest==n) { var m=0; var g=function(z) { m++; simbytes('N'+i,ROW(z)); if (m==op.nstop) return true; };
         if (op.nkind==0) db.query(q, {callback:g, values:op.vals}); else if (op.nkind==1) db.query('SELECT j,v FROM u ORDER BY j', g);
         else if (op.nkind==2) { try { db.query('SELECT * FROM nosuch'); simlog('NOERR',i); } catch(e) { }; }
         else if (op.nkind==3) db.interrupt();
         else if (op.nkind==5) { try { db.func('gg',GF[2]); simlog('NOERR',i); } catch(e) { }; }
         else { simquiet(1); try { db.eval('BEGIN;CREATE TABLE zq(a)'); } catch(e) { simlog('TXE',''+e); }; try { db.eval('ROLLBACK'); } catch(e) { simlog('TXE',''+e); }; simquiet(0); }; };
      if (op.stop==n) return true; if (op.thr==n) throw 'cbthrow'; };
    if (op.vals.length) db.query(q,{callback:f,values:op.vals}); else db.query(q,f);
    out='c'+n;
  } else {
    var opt={}; opt.mode=op.mode; if (op.limit) opt.limit=op.limit; if (op.headers) opt.headers=true; if (op.chg) opt.retChanged=true; if (op.nocache) opt.nocache=true; if (op.width) opt.width=op.width; if (op.sep) opt.separator=op.sep;
    if (op.vals.length) opt.values=op.vals;
    if (op.bad=='obj') opt.values=[ob]; if (op.bad=='short') opt.values=[]; if (op.bad=='uel') opt.values=[undefined];
    var x;
    var xx; if (op.plain==1) xx=[db.query(q)]; else if (op.plain==2) xx=[db.query(q,op.vals)]; else xx=[db.query(q,opt)];
    if (op.mode=='none' && !op.chg) return S(xx); x=xx[0];
    if (op.chg) out=S([x]);
    else if (op.mode=='rows') { for (var k=0; k<x.length; k++) out+=ROW(x[k])+RS; }
    else if (op.mode=='arrays') { for (var k=0; k<x.length; k++) out+=ARR(x[k])+RS; }
    else if (op.mode=='array1d') out=ARR(x);
    else out=S([x]);
  };
  return out;
};
function STEP(i,op) {
  try {
    if (op.t=='conf') { DB[op.c].conf(op.o); simlog('R',i); return; };
    if (op.t=='func') { DB[op.c].func('gg',GF[op.n]); simlog('R',i); return; };
    if (op.t=='ob') { OB=op.o; DB[op.c].query(op.q,op.oo?{obj:op.oo}:'OB'); simbytes('V'+i,JSON.stringify(DB[op.c].query('SELECT * FROM '+op.tb+' ORDER BY rowid'))); simlog('R',i); return; };
    if (op.t=='reopen') { DB[op.c]=null; OPEN(op.c,op.o); simlog('R',i); return; };
    var o=RUN(i,op); simbytes('V'+i,o); simlog('R',i);
  } catch(e) { simlog('X',i,''+e); simsnap('/w/t.db'); simsnap('/w/t.db-journal'); };
};
"""
STR = ["", "abc", "it's", 'a"b', "100%", "\u00e9\u20ac", "line\nbreak", "a,b", "tab\tx", "<b>&", "%s%n", "NULL", "0", "12abc", "1e5", "7", "  sp ", "x|y", "a\\b", "long"]
LONG = "0123456789abcdef" * 160
SEL = [("SELECT * FROM t ORDER BY k", 0), ("SELECT k,a,b,s,n FROM t WHERE k>={} ORDER BY k", 1), ("SELECT count(*) AS c, max(k) AS m, min(s) AS q FROM t", 0), ("SELECT {} AS x,{} AS y", 2), ("SELECT {} AS x,{} AS y,{} AS z,typeof({}) AS w", 4),
       ("SELECT s FROM t WHERE s={} OR a={} ORDER BY k", 2), ("SELECT k,ff(k,{}) AS z FROM t ORDER BY k", 1), ("SELECT t.k AS k,u.v AS v FROM t,u WHERE t.k=u.j ORDER BY 1", 0), ("SELECT k,typeof(a) AS ta,typeof(n) AS tn,typeof(b) AS tb,quote(s) AS qs FROM t ORDER BY k", 0),
       ("SELECT k,gg(s) AS z,length(s) AS l FROM t WHERE k<>{} ORDER BY k", 1), ("SELECT j,v FROM u ORDER BY j", 0), ("SELECT s,b FROM t ORDER BY k DESC", 0), ("SELECT k FROM t WHERE a IS {} ORDER BY k", 1), ("SELECT k FROM t WHERE 0", 0),
       ("SELECT k,s FROM t ORDER BY s COLLATE cc,k", 0), ("SELECT s,count(*) AS c FROM t GROUP BY s COLLATE cc ORDER BY s COLLATE cc", 0), ("SELECT gg(k,s) AS z,gg(k) AS y FROM t ORDER BY k", 0),
       ("SELECT k FROM t WHERE s REGEXP '%RE%' ORDER BY k", 0), ("SELECT k,regexp('%RE%',s,'i') AS z,regexp('%RE%',s) AS y FROM t ORDER BY k", 0)]
RES = ["a", "^A", "[0-9]", "B|c", "b+r", "X", "l.n", "NULL", "u", "^"]
MOD = [("INSERT INTO t(k,a,b,s,n) VALUES({},{},{},{},{})", 5), ("REPLACE INTO t(k,a,s) VALUES({},{},{})", 3), ("UPDATE t SET a={} WHERE k={}", 2), ("UPDATE t SET n={},s={}", 2), ("DELETE FROM t WHERE k={}", 1), ("INSERT INTO t(a,s,b) SELECT s,a,1 FROM t WHERE k<{}", 1),
       ("INSERT INTO t(a) VALUES({})", 1), ("UPDATE t SET a=ff(k,{})", 1), ("INSERT INTO u VALUES({},{})", 2), ("INSERT INTO t(s,b) VALUES({},{})", 2)]
DDL = ["ALTER TABLE t ADD COLUMN x%d DEFAULT 5", "CREATE INDEX IF NOT EXISTS ix%d ON t(s)", "DROP INDEX IF EXISTS ix%d", "DROP TABLE t;CREATE TABLE t(k INTEGER PRIMARY KEY,a,b BOOL,s TEXT,n REAL)", "DROP TABLE u;CREATE TABLE u(j INTEGER,v TEXT,e DEFAULT %d)", "CREATE TABLE IF NOT EXISTS w%d(q)"]
COMM = ["", "", "", "", ";", "; ", ";\n", " -- done", "; -- done", " /* c */ "]

class C(Check):
    pid = "C06"
    quick_s = 45
    rule = ("a generated history of queries with every bind style, result mode, callback (stopping, throwing, querying again), failing statement, schema change, cache size and reopening on two connections; run undisturbed and with "
            "read errors, busy results and write errors; each result compared with the same history run by the reference sqlite; distinct by full event trace")
    fault_classes = {"dbread": [(F_ERR, 0)], "dblock": [(F_ERR, [0, 0, 1])], "dbwrite": [(F_ERR, 0), (F_FULL, 0)], "dbopen": [(F_ERR, 0)], "dbsync": [(F_ERR, 0)], "dbsize": [(F_ERR, 0)]}
    max_variants = 4

    def val(self, rng, key=False):
        if key: return rng.randint(1, 9)
        a = rng.random()
        if a < .3: return rng.choice([0, 1, 2, 3, 5, -1, 7, 1000, 2147483647, 2147483648, -2147483648, 4294967296, 9007199254740991, -9007199254740991])
        if a < .42: return rng.randint(-8000, 8000) / 8
        if a < .5: return None
        if a < .58: return rng.random() < .5
        s = rng.choice(STR)
        return LONG[:rng.choice([300, 1000, 2048, 2500])] if s == "long" else s
    def fill(self, rng, tpl, n, op, keyfirst, typed=True, pos=True):
        v = op["v"]; txt = []; par = []      # par: model values in order
        style = rng.random(); seen = {}; vals = []; idx = 0
        for i in range(n):
            c = rng.random()
            if pos and (style < .35 or (style > .8 and c < .5)):
                x = self.val(rng, keyfirst == i)
                while len(vals) < idx: vals.append(0)
                vals.append(x); idx += 1; txt.append("?"); par.append([x, ""]); continue
            w = rng.choice([0, 0, 1, 1, 2])
            nm = rng.choice(["@a", ":a", "$a", "$o(x)", "$r(1)"] if w == 0 else ["@b", ":b", "$b", "$o(y)"] if w == 1 else ["@c", ":c", "$c", "$r(0)"])
            ty = ""
            if typed and nm[0] == "$" and nm[-1] == ")" and rng.random() < .4:
                if type(v[w]) in (int, float): ty = rng.choice(["integer", "double"] if v[w] == int(v[w]) else ["double"])
                elif isinstance(v[w], str): ty = rng.choice(["string", "string", "blob"])
                if ty: nm = nm[:-1] + ":" + ty + ")"
            if nm not in seen: seen[nm] = 1; idx += 1
            txt.append(nm); par.append([v[w], ty])
        op["vals"] = vals
        return tpl.format(*txt), re.sub(r"\{\}", "?", tpl), par
    def gen(self, rng, i):
        two = rng.random() < .3; hist = []; ops = []; nx = [0]; obs = {}
        ini = [[k, self.val(rng), rng.choice([None, 0, 1]), self.val(rng) if rng.random() < .5 else rng.choice(STR[:-1]), rng.choice([None, 1.5, 3, -0.125])] for k in sorted(rng.sample(range(1, 10), rng.randint(0, 7)))]
        for _ in range(rng.randint(3, 12)):
            a = rng.random(); c = int(two and rng.random() < .4)
            op = {"c": c, "v": [self.val(rng, True) if rng.random() < .3 else self.val(rng), self.val(rng), self.val(rng)], "ft": rng.choice([-1] * 5 + [1, 3, 5]), "fn": rng.choice([0] * 8 + [1, 1, 2]), "vals": [], "bad": "", "ct": rng.choice(STR[1:-1]) if rng.random() < .1 else None}
            if a < .07: ops.append({"t": "conf", "c": c, "o": rng.choice([{"stmtCacheMax": rng.choice([0, 1, 2, 5, 50])}, {"stmtCacheMax": rng.choice([0, 1, 2, 5, 50])}, {"maxRegexCache": rng.choice([-1, 0, 1, 2])}])}); continue
            if rng.random() < .04: ops.append({"t": "func", "c": c, "n": rng.randrange(3)}); continue
            if rng.random() < .1: ops.append(self.ob(rng, c, obs)); continue
            if a < .13: ops.append({"t": "reopen", "c": c, "o": rng.choice([{}, {"forceInt": True}, {"stmtCacheMax": 0}, {"stmtCacheMax": 1}, {"stmtCacheMax": 2}])}); continue
            if hist and rng.random() < .35:      # the same text again, with other values
                o2 = json.loads(json.dumps(rng.choice(hist)))
                if not o2["par_pos"] and not any(s.get("ty") for s in [o2]) :
                    o2["c"] = c; o2["bad"] = ""; o2["t"] = "q"
                    self.how(rng, o2); ops.append(o2); continue
            if a < .2:
                d = rng.choice(DDL); d = d % rng.randint(1, 3) if "%d" in d else d
                if d.startswith("ALTER"): nx[0] += 1; d = "ALTER TABLE t ADD COLUMN x%d DEFAULT %d" % (nx[0], nx[0])
                op.update(t="q", q=d, stm=[[s, [], False] for s in d.split(";")], how=rng.choice(["q", "eval"]), par_pos=True, nsel=0); self.base(op); ops.append(op); continue
            if a < .27:
                op["t"] = "bd"; op["bad"] = rng.choice(["undef", "obj", "short", "uel", "nosuchvar", "nosuchtab", "syntax"])
                q, m = {"undef": ("SELECT $u AS x", None), "obj": ("SELECT ? AS x", None), "short": ("SELECT ? AS x", None), "uel": ("SELECT ? AS x", None), "nosuchvar": ("SELECT @nosuchv AS x", None), "nosuchtab": ("SELECT * FROM nosuchtab", None), "syntax": ("SELEC 1", None)}[op["bad"]]
                op.update(q=q, stm=[[None, [], True]], how="q", par_pos=True, nsel=1); self.base(op); ops.append(op); continue
            stm = []; qs = []; nst = 1 if rng.random() < .8 else 2; ev = rng.random() < .06; allv = []; pos0 = nst == 1
            sel = rng.random() < .62; par_pos = False
            for z in range(nst):
                tpl, n = rng.choice(SEL if (sel if z == nst - 1 else rng.random() < .4) else MOD)
                if "%RE%" in tpl: tpl = tpl.replace("%RE%", rng.choice(RES))
                if ev:
                    if n: tpl, n = ("INSERT INTO u VALUES(%d,'e')" % rng.randint(1, 9), 0)
                kf = 0 if tpl.startswith(("INSERT INTO t(k", "REPLACE", "DELETE", "INSERT INTO u")) or "k<" in tpl or "k>" in tpl else 1 if tpl.startswith("UPDATE t SET a={} W") else -1
                q, m, par = self.fill(rng, tpl, n, op, kf, pos=pos0)
                par_pos |= bool(op["vals"]); stm.append([m, par, tpl.startswith("SELECT")]); qs.append(q)
            op.update(t="q", q=rng.choice(["", "", "", " ", "\n "]) + "; ".join(qs) + rng.choice(COMM), stm=stm, par_pos=par_pos)
            self.base(op)
            op["nsel"] = sum(s[2] for s in stm)
            if ev: op["how"] = "eval"
            else: self.how(rng, op)
            ops.append(op)
            if not ev: hist.append(op)
        return {"ops": ops, "two": int(two), "ini": ini, "cache": rng.choice([0, 0, 1, 2]), "pad": rng.choice([0, 0, 8]), "opt": rng.choice([{}, {}, {"forceInt": True}, {"stmtCacheMax": 1}, {"stmtCacheMax": 0}]), "want_faults": True, "seed": rng.randrange(1 << 30)}
    def base(self, op):
        for k, d in (("how", "q"), ("mode", "rows"), ("limit", 0), ("headers", 0), ("chg", 0), ("nocache", 0), ("plain", 0), ("nest", 0), ("nstop", 0), ("nkind", 0), ("stop", 0), ("thr", 0)): op.setdefault(k, d)
    def how(self, rng, op):
        self.base(op); n = len(op["stm"]); nsel = op["nsel"]
        for k in ("limit", "headers", "chg", "nocache", "plain", "nest", "nstop", "stop", "thr"): op[k] = 0
        op["mode"] = "rows"; op["how"] = "q"; op.pop("sep", None); op.pop("width", None)
        a = rng.random()
        if not nsel:
            b = rng.random()
            op["chg"] = int(b < .3); op["mode"] = rng.choice(["rows", "rows", "none", "json"]) if not op["chg"] else "rows"; op["nocache"] = int(rng.random() < .1)
            if b > .8 and not op["chg"] and op["mode"] == "rows": op["plain"] = 2 if op["vals"] else 1
            return
        if a < .12 and not op["vals"]: op["how"] = "one"; return
        if a < .2 and not op["vals"]: op["how"] = "ex"; return
        if a < .45:
            op["how"] = "cb"; op["nest"] = rng.choice([0, 0, 1, 2]); op["nkind"] = rng.choice([0, 0, 1, 2, 3, 4, 4, 5]); op["nstop"] = rng.choice([0, 1, 2]); b = rng.random()
            if b < .25: op["stop"] = rng.randint(1, 4)
            elif b < .45: op["thr"] = rng.randint(1, 4)
            if op["nkind"] == 0 and (n > 1 or not op["stm"][0][2]): op["nkind"] = 1
            return
        modes = ["rows", "rows", "rows", "arrays", "array1d", "json", "json2", "list", "csv", "tabs", "insert", "line", "none", "column", "html"]
        op["mode"] = rng.choice(modes if n == 1 else ["rows", "rows", "json", "insert"]); op["headers"] = int(rng.random() < .25 and op["mode"] in ("json", "list", "csv", "tabs", "arrays") or rng.random() < .5 and op["mode"] in ("column", "html"))
        if op["mode"] == "column": op["width"] = rng.choice([None, None, [3], [4, 12], [1, 2, 30, 5]])
        if op["mode"] in ("column", "list"): op["sep"] = rng.choice([None, None, " | ", "::"])
        if n > 1: op["headers"] = 0
        op["limit"] = rng.choice([0, 0, 0, 1, 2, 5]) if n == 1 else 0; op["nocache"] = int(rng.random() < .1)
        if op["mode"] == "rows" and not op["limit"] and not op["nocache"] and rng.random() < .4: op["plain"] = 2 if op["vals"] else 1

    def build(self, p):
        sc = Scenario(p["seed"]); sc.dir("/w")
        js = [JS, "simquiet(1); var s0=new Sqlite('/w/t.db'); s0.eval('CREATE TABLE t(k INTEGER PRIMARY KEY,a,b BOOL,s TEXT,n REAL);CREATE TABLE u(j INTEGER,v TEXT);INSERT INTO u VALUES(1,\"one\"),(3,\"three\"),(5,\"five\")');"]
        js[1] = js[1].replace('"', "\\'")
        for r in p["ini"]: js.append("s0.query('INSERT INTO t VALUES(?,?,?,?,?)',{values:%s});" % json.dumps(r))
        if p["pad"]: js.append("s0.eval(\"CREATE TABLE pad(z);INSERT INTO pad VALUES(zeroblob(%d))\");" % (p["pad"] * 4096))
        js.append("s0=null; simquiet(0); try { %s } catch(e) { simlog('OPENFAIL',''+e); exit(0); }; simlog('GO'); simsnap('/w/t.db');" % " ".join("OPEN(%d,%s);%s" % (c, json.dumps(p["opt"]), "DB[%d].eval('PRAGMA cache_size=%d');" % (c, p["cache"]) if p["cache"] else "") for c in range(1 + p["two"])))
        for i, o in enumerate(p["ops"]):
            js.append("STEP(%d,%s);" % (i, json.dumps({k: v for k, v in o.items() if k not in ("stm", "par_pos", "nsel")})))
        js.append("simlog('END'); DB=[]; simquiet(1); var z=new Sqlite('/w/t.db'); z.eval('CREATE TABLE zz(a);DROP TABLE zz'); z=null; simlog('FREE');")
        sc.phase("\n".join(js)); sc.set(tick_ns=5000, p_edge=0)
        return sc
    def shrink(self, p):
        if p["ini"]:
            for n in range(len(p["ini"])):
                q = json.loads(json.dumps(p)); del q["ini"][n]; yield q
        if p["cache"] or p["pad"]: q = json.loads(json.dumps(p)); q["cache"] = q["pad"] = 0; yield q
        if p["opt"]: q = json.loads(json.dumps(p)); q["opt"] = {}; yield q

    # ---- reference ----
    def bindval(self, x, ty, force):
        if x is True or x is False: return int(x)
        if isinstance(x, (int, float)): return int(x) if ty == "integer" or (force and x == int(x)) else float(x)
        if isinstance(x, str) and ty == "blob": return x.encode()
        return x
    def oracle(self, p, r):
        v = []
        raws = {}; res = {}; win = []; wins = {}; snaps = {}; go = None; over = False; done = set(); cur = []; end = free = False; last = None; noerr = set()
        for e in r.events:
            if e.kind == "J":
                a = e.js()
                if a[0] in ("R", "X"): res[a[1]] = (a[0], a[2] if len(a) > 2 else None); wins[a[1]] = cur; cur = []; last = a[1] if a[0] == "X" else None; continue
                if a[0] == "GO": go = True; last = "GO"; cur = []
                if a[0] == "OPENFAIL": over = True
                if a[0] == "END": end = True
                if a[0] == "FREE": free = True
                if a[0] == "NOERR": noerr.add(a[1])
            elif e.kind == "B":
                h, _, rest = e.rest.partition(" "); d = unesc(rest.partition(" ")[2]); raws.setdefault(h, []).append(d)
            elif e.kind == "SNAP":
                pr = e.rest.split(" ", 2); snaps.setdefault(last, {})[pr[0]] = None if pr[1] == "-1" else unesc(pr[2]) if len(pr) > 2 else b""
            cur.append(e)
        if over: return [] if r.fired else [("open", "opening failed with no fault")]
        if not go: return [("setup", "setup did not complete")]
        if not end: return [("script-died", "the program stopped early: " + repr(r.events[-6:])[:300])]
        def fresh(data):
            m = sqlite3.connect(":memory:", isolation_level=None); m.deserialize(data); return m
        m = fresh(snaps["GO"]["/w/t.db"]); force = [bool(p["opt"].get("forceInt"))] * 2; chg = {0: 0, 1: 0}
        if not free: v.append(("not-released", "after the connections were dropped the database is still locked: " + repr(r.events[-6:])[:300])) if not any(x["t"] == "q" and res.get(i, ("", ""))[0] == "X" and any(e.kind == "FAULT" for e in wins.get(i, [])) for i, x in enumerate(p["ops"])) else None
        for i, o in enumerate(p["ops"]):
            if i not in res: v.append(("missing", "operation %d did not finish" % i)); return v
            kind, msg = res[i]; flt = any(e.kind == "FAULT" for e in wins[i])
            if o["t"] in ("conf", "reopen", "func"):
                if o["t"] == "reopen" and kind == "R": force[o["c"]] = bool(o["o"].get("forceInt")); chg[o["c"]] = 0; chg["g", o["c"]] = "g"
                if o["t"] == "func" and kind == "R": chg["g", o["c"]] = "ghi"[o["n"]]
                if kind == "X":
                    if not flt: v.append(("spurious", "op %d %s raised %s" % (i, o["t"], msg))); return v
                    return v
                continue
            if o["t"] == "ob":
                want = self.run_ob(m, o, force[o["c"]])
                if kind == "R":
                    if want is None: v.append(("lost-error", "op %d %s of %s reported success but must fail" % (i, o["q"], json.dumps(o["o"])))); return v
                    try: g = json.loads(raws["V%d" % i][0])
                    except ValueError: g = raws["V%d" % i][0]
                    J = lambda x: json.loads(x) if isinstance(x, str) and x[:1] in "[{" and x[-1:] in "]}" else x
                    if g != want and [{k: J(x) for k, x in q.items()} for q in g] != [{k: J(x) for k, x in q.items()} for q in want]: v.append(("object", "op %d %s of %s: the table reads %s, expected %s" % (i, o["q"], json.dumps(o["o"]), json.dumps(g)[:300], json.dumps(want)[:300]))); return v
                else:
                    if want is not None and not flt: v.append(("spurious", "op %d %s of %s raised %s" % (i, o["q"], json.dumps(o["o"]), msg))); return v
                    if flt:
                        s = snaps.get(i, {})
                        if s.get("/w/t.db-journal") or not s.get("/w/t.db"): return v
                        m = fresh(s["/w/t.db"])
                continue
            if i in noerr: v.append(("lost-error", "op %d: a nested query of a missing table raised nothing" % i)); return v
            exp, rows = self.run_model(m, o, force[o["c"]], chg)
            got = raws.get("V%d" % i, [None])[0]
            act = o["fn"] == 2 or o["how"] == "cb" and o["nest"] and o["nkind"] in (3, 4) and len(raws.get("W%d" % i, [])) >= o["nest"]    # it was interrupted or rolled back midway: complete, or an error
            if kind == "X":
                if exp is not None and not flt and not act:
                    v.append(("spurious", "op %d %s raised '%s' but should succeed" % (i, o["q"][:120], msg))); return v
                if exp is not None or flt or act:       # failed because of a fault: take the state from the disk
                    s = snaps.get(i, {})
                    if s.get("/w/t.db-journal") or not s.get("/w/t.db"): return v
                    m = fresh(s["/w/t.db"])
                if exp is None and not flt and not msg: v.append(("empty-error", "op %d %s failed without a message" % (i, o["q"][:120]))); return v
            else:
                if exp is None:
                    v.append(("lost-error", "op %d %s reported success but must fail" % (i, o["q"][:120]))); return v
            if o["how"] == "cb":
                W = [self.urow(x) for x in raws.get("W%d" % i, [])]; N = [self.urow(x) for x in raws.get("N%d" % i, [])]
                er, en = rows
                if (flt or act) and kind == "X": ok = W == er[:len(W)] and N == en[:len(N)]
                else: ok = W == er and N == en
                if not ok: v.append(("rows", "op %d %s: callback saw %s nested %s, expected %s nested %s" % (i, o["q"][:120], str(W)[:200], str(N)[:200], str(er)[:200], str(en)[:200]))); return v
            if kind == "R":
                e = self.cmp(o, exp, got)
                if e: v.append(("result", "op %d %s [%s]: %s" % (i, o["q"][:120], o["how"] + " " + o["mode"], e))); return v
        return v
    # objects bound by %v
    def ob(self, rng, c, obs):
        def val(kind):
            if kind == "num": return rng.choice([0, 1, -7, 2.5, 123456789])
            if kind == "bool": return rng.random() < .5
            if kind == "str": return rng.choice(STR[:-1])
            if kind == "json": return rng.choice([{"a": 1}, {"q": ["x", 2, None]}, [1, 2, 3], ["it's"], {"a b": {"c": "d\"e"}}, [], {}])
            return None
        tb = rng.choice(["o1", "o2"]); b = rng.random()
        if tb not in obs or b < .1:
            sch = {k: rng.choice(["num", "bool", "str", "json", "null"]) for k in rng.sample(["x", "y", "zz", "order", "select", "Case"], rng.randint(1, 5))}
            oo = {"name": "OB"}
            for k in ("noTypes", "defaultNull", "noChecks"):
                if rng.random() < .12: oo[k] = True
            o = {"t": "ob", "c": c, "k": "create", "tb": tb, "o": {k: val(sch[k]) for k in sch}, "oo": oo if len(oo) > 1 or rng.random() < .3 else None}
            if tb not in obs: obs[tb] = sch; o["q"] = "CREATE TABLE " + tb + " %v"
            else: o["q"] = "CREATE TABLE IF NOT EXISTS " + tb + " %v"
            return o
        sch = obs[tb]; o = {k: val(sch[k]) for k in sch}
        if rng.random() < .15: o[rng.choice(sorted(o))] = rng.choice(["word", None, 5])
        k = rng.choice(["insert", "insert", "update", "default"]); oo = None
        if rng.random() < .15 and len(o) > 1: oo = {"name": "OB", "skip": [rng.choice(sorted(o))]}
        if rng.random() < .05: o["nosuchcol"] = 1
        q = "INSERT INTO %s %%v" % tb if k != "update" else "UPDATE %s %%v WHERE rowid=%d" % (tb, rng.randint(1, 3))
        if k == "default": o = {n: o[n] for n in list(o)[:1]}; oo = None
        return {"t": "ob", "c": c, "k": "update" if k == "update" else "insert", "tb": tb, "o": o, "oo": oo, "q": q}
    def run_ob(self, m, o, force):
        """the rows of the table afterwards, or None when the operation must fail"""
        oo = o["oo"] or {}; ob = {k: x for k, x in o["o"].items() if k not in oo.get("skip", [])}
        def lit(x):
            if isinstance(x, bool): return "%d" % x
            if x is None: return "NULL"
            if isinstance(x, (int, float)): return repr(x)
            return "'" + (x if isinstance(x, str) else json.dumps(x)).replace("'", "''") + "'"
        try:
            if o["k"] == "create":
                L = []
                for k, x in ob.items():
                    t = chk = None
                    if not oo.get("noTypes"):
                        if isinstance(x, bool): t = "BOOLEAN"; chk = "typeof([%s])=='integer' AND [%s] IN (0,1)" % (k, k)
                        elif isinstance(x, (int, float)): t = "NUMERIC"; chk = "typeof([%s]) IN ('real','integer')" % k
                        elif isinstance(x, (dict, list)): t = "CHARJSON"
                        elif isinstance(x, str): t = "TEXT"; chk = "typeof([%s])=='text'" % k
                        elif not oo.get("defaultNull") and not oo.get("noChecks"): t = None
                        else: t = "TEXT"; chk = "typeof([%s])=='text'" % k if not oo.get("noChecks") and not oo.get("defaultNull") else None
                        if t == "TEXT" and oo.get("defaultNull") and not oo.get("noChecks"): t = chk = None       # null is its default, so it takes anything
                    L.append("[%s]%s%s%s" % (k, " " + t if t else "", " DEFAULT NULL" if oo.get("defaultNull") else " DEFAULT " + lit(x) if not oo.get("noTypes") else "", " CHECK(%s)" % chk if chk and not oo.get("noChecks") else ""))
                m.execute(o["q"].replace("%v", "(" + ",".join(L) + ")"))
            else:
                ks = list(ob); vs = [json.dumps(x) if isinstance(x, (dict, list)) else self.bindval(x, "", force) for x in ob.values()]
                if o["k"] == "insert": m.execute("INSERT INTO %s(%s) VALUES(%s)" % (o["tb"], ",".join("[%s]" % k for k in ks), ",".join("?" * len(ks))), vs)
                else: m.execute(o["q"].replace("%v", "SET " + ",".join("[%s]=?" % k for k in ks)), vs)
            cols = [(r[1], r[2]) for r in m.execute("PRAGMA table_info(%s)" % o["tb"])]; out = []
            for row in m.execute("SELECT * FROM %s ORDER BY rowid" % o["tb"]):
                d = {}
                for (k, t), x in zip(cols, row):
                    if t == "BOOLEAN" and isinstance(x, int) and x in (0, 1): x = bool(x)
                    if t == "CHARJSON" and isinstance(x, str) and x[:1] in ("{", "["):
                        try: x = json.loads(x)
                        except ValueError: pass
                    d[k] = x
                out.append(d)
            return out
        except sqlite3.Error: return None
    def run_model(self, m, o, force, chg):
        """(expected result or None when it must fail, callback rows); applies the operation to m"""
        st = {"ft": o["ft"]}
        def jsnum(x):
            return float(x)
        def js2s(x):
            if x is None: return "null"
            if isinstance(x, bytes): return x.decode("utf-8", "replace")
            if isinstance(x, str): return x
            return ("%d" % x) if x == int(x) else repr(x)
        nou = o["fn"] == 1 and not m.execute("SELECT count(*) FROM sqlite_master WHERE name='u'").fetchone()[0]     # the function itself queries u
        def ff(x, y):
            if nou or o["fn"] != 2 and isinstance(x, (int, float)) and x == o["ft"]:
                if st["sel"]: return "\x01FFTHROW"        # python's cursor steps one row ahead: mark the row instead
                raise ValueError("ffthrow")
            if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)): return js2s(x) + js2s(y)
            if x is None and y is None: return 0.0
            return float((x or 0) + (y or 0))
        m.create_function("ff", 2, ff); gp = chg.get(("g", o["c"]), "g"); m.create_function("gg", 1, lambda x: gp + js2s(x)); m.create_function("gg", 2, lambda x, y: "G" + js2s(x) + js2s(y))
        def cc(x, y):
            if o.get("ct") in (x, y): st["cthrow"] = True
            x = x.encode(); y = y.encode()
            return 1 if x < y else -1 if x > y else 0
        m.create_collation("cc", cc)
        def rx(pat, t, mod=None):
            if t is None: return None
            if isinstance(t, bytes): t = t.decode("utf-8", "replace")
            elif not isinstance(t, str): t = js2s(t)
            return int(bool(re.search(pat, t, re.S | (re.I if mod else 0))))
        m.create_function("regexp", 2, rx); m.create_function("regexp", 3, rx)
        allrows = []; W = []; N = []; n = 0; err = False; stopped = False; changes = None
        lim = o["limit"]
        if o["how"] in ("one", "ex"): lim = 1
        for sql, par, issel in o["stm"]:
            if sql is None: err = True; break
            args = [self.bindval(x, ty, force) for x, ty in par]
            st["sel"] = issel
            try:
                if not sql.lstrip().startswith("SELECT"): m.execute("SAVEPOINT sp")
                cur = m.execute(sql, args)
                cols = [d[0] for d in cur.description] if cur.description else []
                boolcol = set()
                if issel:
                    dec = self.decl(sql, m)
                    while True:
                        row = cur.fetchone()
                        if row is None: break
                        if "\x01FFTHROW" in row or st.get("cthrow"): err = True; break
                        rr = [(c, bool(x) if c in dec and isinstance(x, int) and x in (0, 1) else x) for c, x in zip(cols, row)]
                        allrows.append(rr); n += 1
                        if o["how"] == "cb":
                            W.append(dict((c, self.norm(x)) for c, x in rr))
                            if o["nest"] == n:
                                if o["nkind"] < 2:
                                    s2 = (sql, args) if o["nkind"] == 0 else ("SELECT j,v FROM u ORDER BY j", [])
                                    c2 = m.cursor(); c2.execute(*s2); d2 = [d[0] for d in c2.description]; k2 = 0; dec2 = self.decl(s2[0], m)
                                    for r2 in c2:
                                        if "\x01FFTHROW" in r2 or st.get("cthrow"): err = True; break
                                        N.append({c: self.norm(bool(x) if c in dec2 and isinstance(x, int) and x in (0, 1) else x) for c, x in zip(d2, r2)}); k2 += 1
                                        if k2 == o["nstop"]: break
                            if err: break
                            if o["stop"] == n: stopped = True; break
                            if o["thr"] == n: err = True; break
                        elif lim and n >= lim: stopped = True; break
                cur.close()
                if not sql.lstrip().startswith("SELECT"): m.execute("RELEASE sp")
                if not issel and sql.lstrip().split()[0] in ("INSERT", "REPLACE", "UPDATE", "DELETE"): chg[o["c"]] = m.execute("SELECT changes()").fetchone()[0]
            except sqlite3.Error as e:
                if not sql.lstrip().startswith("SELECT"):
                    try: m.execute("ROLLBACK TO sp"); m.execute("RELEASE sp")
                    except sqlite3.Error: pass
                err = True
            if err or stopped: break
            if o["how"] in ("one", "ex") and allrows: break
        if err: return None, (W, N)
        return {"rows": allrows, "n": n, "chg": chg[o["c"]]}, (W, N)
    def decl(self, sql, m):
        return {"b"} if re.search(r"(^SELECT \*|[ ,]b[ ,]).*FROM t\b", sql) else set()
    def norm(self, x):
        if isinstance(x, bool): return ("b", int(x))
        if x is None: return ("N",)
        if isinstance(x, (int, float)): return ("n", float(x))
        if isinstance(x, bytes): return ("s", x.decode("utf-8", "replace"))
        return ("s", x)
    def uval(self, s):
        c, s = s[:1], s[1:]
        if c == "n": return ("n", float(s))
        if c == "b": return ("b", int(s))
        if c == "s": return ("s", s)
        return (c,) if not s else (c, s)
    def urow(self, d):
        if isinstance(d, bytes): d = d.decode("utf-8", "replace")
        return {k: self.uval(x) for k, x in (f.split("=", 1) for f in d.split("\x1f") if f)}
    def text(self, x, w=None):
        if x is None: return ""
        if isinstance(x, bool): return "true" if x else "false"
        if isinstance(x, int): return str(x)
        if isinstance(x, float): return str(int(x)) if x == int(x) and abs(x) < 1e18 else repr(x)
        return x.decode("utf-8", "replace") if isinstance(x, bytes) else x
    def cmp(self, o, exp, got):
        got = got.decode("utf-8", "replace") if got is not None else ""
        rows = exp["rows"]
        if o["how"] == "cb": return None if got == "c%d" % exp["n"] else "callback count %s, expected %d" % (got, exp["n"])
        if o["how"] == "one":
            want = self.norm(rows[0][0][1]) if rows else ("U",)
            return None if self.uval(got) == want else "got %s expected %s" % (got[:200], want)
        if o["how"] == "ex": return None if got == ("b1" if rows else "b0") else "got %s with %d rows" % (got, len(rows))
        if o["how"] == "eval" or o["chg"]:
            if o["stm"][-1][2] or not re.match(r"\s*(INSERT|REPLACE|UPDATE|DELETE)", o["stm"][-1][0]): return None     # only a data change defines the count
            return None if got == "n%d" % exp["chg"] else "reported %s changes, expected %d" % (got, exp["chg"])
        md = o["mode"]; f = lambda g, w: None if g == w else "got %s expected %s" % (str(g)[:300], str(w)[:300])
        if md == "rows": return f([self.urow(x) for x in got.split("\x1e")[:-1]], [{c: self.norm(x) for c, x in r} for r in rows])
        ua = lambda s: [self.uval(x) for x in s.split("\x1f")[:-1]]
        if md == "arrays": return f([ua(x) for x in got.split("\x1e")[:-1]], ([[("s", c) for c, _ in rows[0]]] if o["headers"] and rows else []) + [[self.norm(x) for _, x in r] for r in rows])
        if md == "array1d": return f(ua(got), [self.norm(x) for r in rows for _, x in r])
        if md == "none": return f(got, "U")
        if got[:1] != "s": return "result is not a string: " + got[:100]
        t = got[1:]
        if md in ("json", "json2"):
            try: d = json.loads(t) if t.strip() else None
            except ValueError as e: return "output is not JSON: %s: %s" % (e, t[:200])
            N = self.norm
            if md == "json":
                if o["headers"]: return f([[N(x) for x in r] for r in d], ([[("s", c) for c, _ in rows[0]]] if rows else []) + [[N(x) for _, x in r] for r in rows])
                return f([{k: N(x) for k, x in r.items()} for r in d], [{c: N(x) for c, x in r} for r in rows])
            if not rows: return f(d, None)
            return f([d["names"], [[N(x) for x in r] for r in d["values"]]], [[c for c, _ in rows[0]], [[N(x) for _, x in r] for r in rows]])
        hd = [[c for c, _ in rows[0]]] if o["headers"] and rows else []
        tx = hd + [[self.text(x) for _, x in r] for r in rows]
        if md in ("list", "tabs"): return f(t, "\n".join(((o.get("sep") or "|") if md == "list" else "\t").join(x) for x in tx))
        if md == "csv":
            if any("\n" in x or "\r" in x for r in tx for x in r): g = list(csv.reader(io.StringIO(t, newline="")))
            else: g = [next(csv.reader([l]), [""]) for l in t.split("\n")] if t or tx else []
            return f([x or [""] for x in g], tx)
        if md == "html":
            h = lambda x: x.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;").replace("'", "&#39;")
            return f(t, "\n".join("<TR>%s</TR>" % "".join("<%s>%s</%s>" % (g, h(x), g) for x in r) for g, r in [("TH", x) for x in hd] + [("TD", x) for x in tx[len(hd):]]))
        if md == "column":
            # the line of names is laid out loosely (the test suite pins it): the rows below it are exact, the names must come first and in order
            if not rows: return f(t, "")
            bd = tx[len(hd):]; nm = [c for c, _ in rows[0]]; sep = o.get("sep") or " "; wd = o.get("width") or []
            if not all(x.isascii() for r in bd + [nm] for x in r): return None
            w = [wd[k] if k < len(wd) else max(10, len(c)) for k, c in enumerate(nm)]
            want = "\n".join(sep.join(x[:w[k]].ljust(w[k]) for k, x in enumerate(r)) for r in bd)
            if o["headers"]: want = "\n" + sep.join("-" * x for x in w) + "\n" + want
            if not t.endswith(want): return f(t, want)
            g = t[:len(t) - len(want)]; at = 0
            for k, c in enumerate(nm):
                at = g.find(c[:w[k]], at)
                if at < 0: return "the names %s are not in the first line: %r" % (nm, g[:200])
                at += len(c[:w[k]])
            return None
        if md == "line":
            w = max([5] + [len(c.encode()) for c, _ in rows[0]]) if rows else 5
            return f(t, "".join(("\n" if rn else "") + "%*s = %s" % (w, c, self.text(x)) for rn, r in enumerate(rows) for c, x in r))
        if md == "insert":
            if not rows: return f(t, "")
            d = sqlite3.connect(":memory:"); widths = sorted(set(len(r) for r in rows)); g = []
            w = max(widths); d.execute('CREATE TABLE "table"(%s)' % ",".join("c%d" % k for k in range(w)))
            if len(widths) > 1: return None if t.count("INSERT INTO") >= len(rows) else "missing rows: " + t[:200]
            try: d.executescript(t)
            except sqlite3.Error as e: return "output is not SQL: %s: %s" % (e, t[:300])
            u = lambda x: ("n", float(x)) if isinstance(x, (bool, int, float)) else self.norm(x)
            return f([[u(x) for x in r] for r in d.execute('SELECT * FROM "table" ORDER BY rowid')], [[u(x) for _, x in r] for r in rows])
        return None
    def tags(self, p, r):
        for e, a in r.js():
            if a[0] in ("R", "X"): yield a[0] + p["ops"][a[1]]["t"] + ":" + p["ops"][a[1]].get("how", "")
CHECK = C()
