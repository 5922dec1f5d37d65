"""C08 import, export, backup and restore of databases: whole or not at all, and exactly what was there."""
import json
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_SHORT, F_FULL, F_CRASH, unesc
from vlib import fgen

FILES = ["/w/t.db", "/w/b1.db", "/w/b2.db"]
WORDS = ["a", "xy", "", "0", "-1.5", "two words", "it's", 'q"q', '"', "c,d", ",", "l1\nl2", "tab\there", "a::b", "::", "NUL", "\u00e9t\u00e9", "x" * 150, "y" * 700, "'", " lead", "trail ", "0x10", "\"q\"", "e\n", "\\N"]
JS = """
var d=new Sqlite('/w/t.db'%s);
function D(f) { simquiet(1); var o; try { var m=new Sqlite(f,{noCreate:true,timeout:600000}), q=m.query("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name"); o={};
  for (var i=0; i<q.length; i++) { var n=q[i].name; o[n]=m.query("SELECT rowid AS rid,* FROM '"+n+"' ORDER BY rowid",{mode:'arrays'}); } o=JSON.stringify(o); } catch(e) { o='!'+e; }; m=null; simquiet(0); return o; };
function M(i) { if (File.exists('/w/t.db')) simbytes('M0_'+i,D('/w/t.db')); if (File.exists('/w/b1.db')) simbytes('M1_'+i,D('/w/b1.db')); if (File.exists('/w/b2.db')) simbytes('M2_'+i,D('/w/b2.db')); };
"""
def csvq(s, sep, force=False): return '"' + s.replace('"', '""') + '"' if force or s == "" and force or any(c in s for c in '"\n') or sep in s else s

class C(Check):
    pid = "C08"
    max_variants = 5
    rule = ("a generated program of imports of generated files, exports with query, backups, restores, and changes in between, alone and inside transactions, with other processes' locks; run once undisturbed, then with I/O errors, "
            "short reads, full disk, busy results, and crashes or power loss inside the calls it made; all database files are read by fresh connections after each step and after a restart; distinct by full event trace")
    fault_classes = {"dbwrite": [(F_ERR, 0), (F_FULL, 0), (F_SHORT, [1, 100, 511]), (F_CRASH, 0), (F_CRASH, 0)], "dbsync": [(F_ERR, 0), (F_CRASH, 0)], "dbdel": [(F_ERR, 0), (F_CRASH, 0)], "dbread": [(F_ERR, 0)], "dblock": [(F_ERR, [0, 0, 1])],
                     "dbtrunc": [(F_ERR, 0), (F_CRASH, 0)], "dbopen": [(F_ERR, 0)], "dbsize": [(F_ERR, 0)], "read": [(F_ERR, [5, 5]), (F_SHORT, [1, 7, 100])], "open": [(F_ERR, [13, 24])], "close": [(F_ERR, [5])], "seek": [(F_ERR, [5])]}

    # a file to import: {"csv","sep","nul","hdr","rows":[[str|None]],"end":last newline,"bad":None|kind}
    def imp(self, rng, ncol, keys):
        csv = rng.random() < .6; sep = rng.choice([None, None, None, "::", ";", "|"]); nul = rng.choice([None, None, "NUL", "\\N"]); hdr = rng.random() < .3
        rs = sep or ("," if csv else "\t"); rows = []
        for k in range(rng.choice([0, 1, 2, 3, 8, 30, 200] if rng.random() < .4 else [1, 2, 3, 4])):
            w = [rng.choice(WORDS) if rng.random() < .9 else None for _ in range(ncol)]
            if keys: w[0] = str(rng.choice([rng.randint(1, 9), k + 10]))
            if not csv: w = [None if x is None else x.replace("\n", " ").replace(rs, "_") for x in w]
            rows.append(w)
        return {"csv": csv, "sep": sep, "nul": nul, "hdr": hdr, "rows": rows, "q": rng.choice([0, 0, 1, 2]), "end": rng.random() < .8, "bad": rng.choice(["short", "long", "verylong", "open", "nohdr"]) if rng.random() < .18 else None, "lim": rng.choice([1, 2, 5]) if rng.random() < .1 else 0,
                "conf": rng.choice([None, None, "ignore", "replace", "abort", "fail", "rollback"])}
    def file(self, f, ncol, names):
        """the bytes of the file"""
        sep = f["sep"] or ("," if f["csv"] else "\t"); L = []
        def cell(x, k):
            if x is None: return f["nul"] or ""
            if not f["csv"]: return x
            return csvq(x, sep, f["q"] == 1 or f["q"] == 2 and (k + len(x)) % 2 == 0 or x.startswith('"'))
        if f["hdr"]: L.append(sep.join(csvq(n, sep) if f["csv"] else n for n in names))
        for r in f["rows"]: L.append(sep.join(cell(x, k) for k, x in enumerate(r)))
        b = f["bad"]; at = len(L) // 2
        if b == "short": L.insert(max(at, int(f["hdr"])), sep.join(["1"] * (ncol - 1)))
        if b == "long": L.append(sep.join(["1"] * (ncol + 1)))
        if b == "verylong": L.insert(max(at, int(f["hdr"])), sep.join(["\"5\"" if f["csv"] else "5"] * (ncol + 300)))
        if b == "open" and f["csv"]: L.append("1" + sep + "\"unfinished" + (sep + "1") * (ncol - 2))
        if b == "nohdr" and f["hdr"]: L[0] = ""
        s = "\n".join(L)
        if L and f["end"]: s += "\n"
        return s.encode()
    def rows(self, f, ncol):
        """(rows, lines) or None when the file is malformed within what is read"""
        out = []; ln = int(f["hdr"]); sep = f["sep"] or ("," if f["csv"] else "\t")
        if f["bad"] == "nohdr" and f["hdr"] or not f["rows"] and f["hdr"] and not f["hdr"]: return None
        b = f["bad"] if not (f["bad"] == "open" and not f["csv"]) and f["bad"] != "nohdr" else None
        at = max((len(f["rows"]) + int(f["hdr"])) // 2, int(f["hdr"])) - int(f["hdr"])
        def nul(x): return None if x is None or x == "" or f["nul"] and x == f["nul"] else x
        for k, r in enumerate(f["rows"]):
            if f["lim"] and ln >= f["lim"]: return out, ln
            if b in ("short", "verylong") and k == at: return None
            ln += 1 + sum((x or "").count("\n") for x in r) * f["csv"]; out.append([nul(x) for x in r])
        if f["lim"] and ln >= f["lim"]: return out, ln
        if b: return None
        return out, ln

    def gen(self, rng, i):
        ops = []
        for k in range(rng.randint(1, 8)):
            a = rng.random(); t = rng.choice(["t", "t", "u", "u", "n%d" % rng.randint(1, 3)]); ncol = {"t": 3, "u": 2}.get(t, 2 + len(ops) % 2)
            if a < .38:
                f = self.imp(rng, ncol, t == "u")
                if t[0] == "n" and rng.random() < .9: f["hdr"] = True
                o = ["imp", t, f, ncol]
                if rng.random() < .25: o = ["tx", o, rng.choice(["ok", "ok", "catch", "throw"]), rng.randrange(100)]
                ops.append(o)
            elif a < .56: ops.append(["bak", rng.choice(FILES[1:])])
            elif a < .72:
                bk = [o[1] for o in ops if o[0] == "bak"] if rng.random() < .8 else []
                ops.append(["rst", rng.choice(bk or (FILES[1:] + ["/w/none.db", "/w/junk"] if rng.random() < .4 else FILES[1:]))])
            elif a < .88: ops.append(["ch", rng.choice(["t", "t", "u"]), rng.choice(["add", "add", "del", "upd"]), rng.randrange(100), rng.choice([1, 3, 40])])
            elif a < .94: ops.append(["exp", rng.choice(["t", "u"]), rng.choice([",", ",", "::", ";"]), rng.choice(["", "NUL"])])
            else: ops.append(["lock", rng.choice(FILES), rng.choice([2, 4, 4]), rng.choice([200, 5000, 200000, 2000000])])
        return {"ops": ops, "ini": [[rng.choice(WORDS) or "w" for _ in range(3)] for _ in range(rng.choice([0, 1, 3, 60]))], "timeout": rng.choice([0, 0, 400]), "mode": rng.randrange(4), "want_faults": True, "seed": rng.randrange(1 << 30)}
    def names(self, n): return ["ca", "col b", "c'c"][:n]

    def build(self, p):
        sc = Scenario(p["seed"]); sc.dir("/w"); sc.file("/w/junk", b"this is no database" * 60)
        js = ["simquiet(1); " + JS % (",{timeout:%d}" % p["timeout"] if p["timeout"] else ""), "d.eval('CREATE TABLE t(a,b,c); CREATE TABLE u(k INTEGER PRIMARY KEY,v)');"]
        for r in p["ini"]: js.append("d.query('INSERT INTO t VALUES(?,?,?)',{values:%s});" % json.dumps(r))
        js.append("simquiet(0); M(-1); simlog('GO');")
        def imp(o, i):
            f = o[2]; sc.file("/w/i%d" % i, self.file(f, o[3], self.names(o[3])))
            op = {}
            if f["csv"]: op["csv"] = True
            if f["sep"]: op["separator"] = f["sep"]
            if f["nul"]: op["nullvalue"] = f["nul"]
            if f["hdr"]: op["headers"] = True
            if f["lim"]: op["limit"] = f["lim"]
            if f["conf"]: op["conflict"] = f["conf"].upper()
            return "d.import(%s,'/w/i%d',%s)" % (json.dumps(o[1]), i, json.dumps(op))
        for i, o in enumerate(p["ops"]):
            k = o[0]
            if k == "imp": b = "var n=%s; simlog('R',%d,n);" % (imp(o, i), i)
            elif k == "tx":
                x = "simlog('I',%d,%s);" % (i, imp(o[1], i))
                if o[2] == "catch": x = "try { %s } catch(e) { simlog('IX',%d,''+e); };" % (x, i)
                b = "d.transaction(function() { d.query('INSERT INTO t VALUES(?,1,2)',{values:['tx%d']}); %s %s }); simlog('R',%d,-1);" % (o[3], x, "throw 'thrown';" if o[2] == "throw" else "", i)
            elif k == "bak": b = "d.backup('%s'); simlog('R',%d,0);" % (o[1], i)
            elif k == "rst": b = "d.restore('%s'); simlog('R',%d,0);" % (o[1], i)
            elif k == "ch":
                if o[2] == "add": b = "d.eval(%s);" % json.dumps("WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM c WHERE x<%d) " % o[4] + ("INSERT INTO t SELECT 'n'||x,'p'||%d,null FROM c" % o[3] if o[1] == "t" else "INSERT OR IGNORE INTO u SELECT %d*100+x,'v'||x FROM c" % o[3]))
                elif o[2] == "del": b = "d.eval('DELETE FROM %s WHERE rowid%%3=%d');" % (o[1], o[3] % 3)
                else: b = "d.eval(\"UPDATE %s SET %s='z%d' WHERE rowid%%2=0\");" % (o[1], "b" if o[1] == "t" else "v", o[3])
                b += "simlog('R',%d,0);" % i
            elif k == "exp": b = "File.write('/w/e',d.query('SELECT * FROM %s ORDER BY rowid',{mode:'csv',separator:'%s'%s})); d.eval('DROP TABLE IF EXISTS x; CREATE TABLE x(%s)'); simlog('R',%d,d.import('x','/w/e',{csv:true,separator:'%s'%s}));" % (
                o[1], o[2], ",nullvalue:'%s'" % o[3] if o[3] else "", "a,b,c" if o[1] == "t" else "k INTEGER,v", i, o[2], ",nullvalue:'%s'" % o[3] if o[3] else "")
            else: b = "simdblock('%s',%d,%d); simlog('R',%d,0);" % (o[1], o[2], o[3], i)
            js.append("simlog('S',%d); try { %s } catch(e) { simlog('X',%d,''+e); }; M(%d);" % (i, b, i, i))
        js.append("simlog('END');")
        sc.phase("\n".join(js), opt=1 if p["seed"] % 3 == 0 else 0)
        sc.phase("simcalm();" + JS.replace("var d=new Sqlite('/w/t.db'%s);", "") + "M('F'); var q; for (q of ['/w/t.db','/w/b1.db','/w/b2.db']) { if (File.exists(q) && File.size(q)>0) simlog('IC',q,new Sqlite(q,{timeout:600000}).onecolumn('PRAGMA integrity_check')); };", opt=0x100 | (p["mode"] << 9) if self.powerloss(p) else 0)
        sc.set(tick_ns=5000, p_edge=0)
        return sc
    def powerloss(self, p): return p["seed"] % 4 == 0 or any(f[2] == F_CRASH for f in p.get("faults", []))

    # model: per file None (missing) or {table: [[rowid, cells...]]}; u's rowid is its key
    def do_imp(self, o, st):
        """-> ("ok", lines, state) or ("fail", state)"""
        t, f, ncol = o[1], o[2], o[3]
        if t not in st:
            if not f["hdr"]: return ("fail", st)
            if f["bad"] == "nohdr": return ("fail", st)
            st = dict(st); st[t] = []; ncol2 = ncol; self.nc[t] = ncol
        elif t[0] == "n" and self.ncols(st, t) is not None and self.ncols(st, t) != ncol:
            # other number of columns than the table has
            if f["hdr"] and f["bad"] == "nohdr": return ("fail", st)
            rl = self.rows(dict(f, bad=None), ncol)
            if rl[0] or f["bad"] and f["bad"] != "nohdr": return ("?", st)
            return ("ok", rl[1], st)
        rl = self.rows(f, ncol)
        if rl is None: return ("fail", st)
        rows, ln = rl; tab = [list(r) for r in st[t]]
        conf = f["conf"] or "rollback"
        for r in rows:
            if t == "u":
                try: k = int(r[0]) if r[0] is not None else None
                except ValueError: return ("fail", st)
                if k is None: k = max([x[0] for x in tab] + [0]) + 1
                same = [x for x in tab if x[0] == k]
                if same:
                    if conf == "ignore": continue
                    if conf == "replace": tab = [x for x in tab if x[0] != k]
                    else: return ("fail", st)
                tab.append([k, k, r[1]]); tab.sort()
            else: tab.append([tab[-1][0] + 1 if tab else 1] + r)
        st = dict(st); st[t] = tab
        return ("ok", ln, st)
    def ncols(self, st, t): return len(st[t][0]) - 1 if st[t] else self.nc.get(t)
    def ch(self, o, st):
        st = dict(st); t = o[1]; tab = [list(r) for r in st[t]]
        if o[2] == "add":
            for x in range(1, o[4] + 1):
                if t == "t": tab.append([tab[-1][0] + 1 if tab else 1, "n%d" % x, "p%d" % o[3], None])
                elif not any(r[0] == o[3]*100 + x for r in tab): tab.append([o[3]*100 + x, o[3]*100 + x, "v%d" % x])
        elif o[2] == "del": tab = [r for r in tab if r[0] % 3 != o[3] % 3]
        else:
            for r in tab:
                if r[0] % 2 == 0: r[2] = "z%d" % o[3]
        tab.sort(key=lambda r: r[0]); st[t] = tab
        return st
    @staticmethod
    def ser(st): return None if st is None else {t: st[t] for t in st}

    def oracle(self, p, r):
        v = []; self.nc = {}; evs = r.events
        ph = [n for n, e in enumerate(evs) if e.kind == "PHASE"]
        p0 = evs[:ph[1]] if len(ph) > 1 else evs; p1 = evs[ph[1]:] if len(ph) > 1 else []
        crashed = any(e.kind == "CRASH" for e in p0)
        def dump(e): x = unesc(e.rest.split(" ", 2)[2]).decode("utf-8", "surrogatepass"); return x if x[0] == "!" else json.loads(x)
        mons = {}; pos = {}
        for n, e in enumerate(p0):
            if e.kind == "B" and e.rest[0] == "M": h = e.rest.split(" ", 1)[0]; mons[h] = dump(e); pos[h] = n
        fin = {}
        for e in p1:
            if e.kind == "B" and e.rest[0] == "M": fin[int(e.rest[1])] = dump(e)
            if e.kind == "J" and e.js()[0] == "IC" and e.js()[2] != "ok": v.append(("integrity", "%s after the restart: %s" % (e.js()[1], str(e.js()[2])[:200])))
        if not any(e.kind == "J" and e.js()[0] == "GO" for e in p0):
            if not crashed and not r.fired: v.append(("setup", "setup failed " + repr(p0[-3:])[:200]))
            return v
        if not crashed and not any(e.kind == "J" and e.js()[0] == "END" for e in p0): v.append(("script-died", "the program stopped early: " + repr(p0[-4:])[:300]))
        st = [{"t": [[k + 1] + x for k, x in enumerate(p["ini"])], "u": []}, None, None]
        alts = [[s] for s in st]; loose = [False]*3
        res = {}; sub = {}
        S = {}
        for n, e in enumerate(p0):
            if e.kind == "J":
                a = e.js()
                if a[0] == "S": S[a[1]] = n
                elif a[0] in ("R", "X"): res[a[1]] = (a[0], a[2])
                elif a[0] in ("I", "IX"): sub[a[1]] = (a[0], a[2])
        locks = {}; everflt = False; odd = False        # odd: the tables the program started with are gone
        for i, o in enumerate(p["ops"]):
            if i not in S: break
            nxt = S.get(i + 1, len(p0)); win = p0[S[i]:nxt]; flt = any(e.kind == "FAULT" for e in win); everflt |= flt
            t0 = p0[S[i]].t; lk = lambda f: locks.get(f, -1) >= t0
            done = res.get(i); k = o[0]; cur = alts[0][0]; sure = len(alts[0]) == 1 and not loose[0] and not odd and "t" in cur and "u" in cur
            def spur(x, *fs):
                if not everflt and not any(lk(f) for f in fs): v.append(("spurious", "op %d %s failed without any fault or lock: %s" % (i, json.dumps(o)[:200], x)))
            if k == "lock":
                x = [e for e in win if e.kind == "DBEXTLOCK"]
                if x: locks[o[1]] = x[0].t + o[3]
            elif not sure:
                loose[0] = True
                if k == "bak": loose[FILES.index(o[1])] = True
            elif k in ("imp", "ch", "exp", "tx"):
                F = FILES[0]
                if k == "imp":
                    x = self.do_imp(o, cur)
                    new = x[-1] if x[0] == "ok" else None
                    if done and done[0] == "R":
                        if x[0] == "fail": v.append(("accepted", "op %d import of a file that can not be imported returned %s: %s" % (i, done[1], json.dumps(o)[:200])))
                        elif x[0] == "ok" and done[1] != x[1]: v.append(("lines", "op %d import returned %s, the file has %s lines" % (i, done[1], x[1])))
                    elif done and x[0] == "ok": spur(done[1], F)
                elif k == "ch": new = self.ch(o, cur); done and done[0] == "X" and spur(done[1], F)
                elif k == "exp":
                    new = dict(cur); mid = dict(cur); mid.pop("x", None)
                    tx = lambda x: None if x in (None, "", o[3] if o[3] else None) else x
                    new["x"] = [[q + 1] + [tx(c) if isinstance(c, str) or c is None else str(c) if not (o[1] == "u" and n == 0) else c for n, c in enumerate(row[1:])] for q, row in enumerate(cur[o[1]])]
                    if done and done[0] == "X": spur(done[1], F)
                else:
                    base = dict(cur); tt = [list(q) for q in base["t"]]; tt.append([tt[-1][0] + 1 if tt else 1, "tx%d" % o[3], 1, 2]); base["t"] = tt
                    x = self.do_imp(o[1], base); s = sub.get(i)
                    rb = (o[1][2]["conf"] or "rollback") == "rollback"       # a conflict ends the whole transaction
                    if s and s[0] == "I" and x[0] == "fail": v.append(("accepted", "op %d import of a file that can not be imported succeeded: %s" % (i, json.dumps(o)[:200])))
                    if o[2] == "throw": new = None
                    elif o[2] == "catch" and s and s[0] == "IX":
                        new = base
                        if x[0] == "ok": spur(s[1], F)
                        if rb or flt or x[0] == "?": new = "?"
                    else: new = x[-1] if x[0] == "ok" else None
                    if done and done[0] == "R" and new is None: v.append(("accepted", "op %d transaction returned though it could not: %s" % (i, json.dumps(o)[:200])))
                    if done and done[0] == "X" and new not in (None, "?"): spur(done[1], F)
                if new == "?": alts[0] = [cur, base] + ([x[-1]] if x[0] == "ok" else [])
                elif done is None: alts[0] = [cur] + ([new] if new is not None else [])
                elif done[0] == "R": alts[0] = [new] if new is not None else alts[0]
                else: alts[0] = [cur]
                if k == "imp" and x[0] == "?" or k == "tx" and x[0] == "?": loose[0] = True
                if k == "exp" and (done is None or done[0] == "X"):
                    e = dict(mid); e["x"] = []; alts[0] = [cur, mid, e] + ([new] if done is None else [])
            elif k == "bak":
                j = FILES.index(o[1])
                if done and done[0] == "R": alts[j] = [cur]; loose[j] = False
                elif done is None: alts[j] = alts[j] + [cur, {}]
                else:
                    spur(done[1], FILES[0], o[1])
                    if flt: alts[j] = alts[j] + [cur, {}]       # the fault may have come while the finished copy was being put down
                    elif alts[j] == [None]: alts[j] = [None, {}]
                    elif None in alts[j]: alts[j] = alts[j] + [{}]
            else:
                j = FILES.index(o[1]) if o[1] in FILES else -1
                if done and done[0] == "R":
                    if j < 0: v.append(("accepted", "op %d restored %s" % (i, o[1])))
                    elif loose[j]: loose[0] = True
                    elif alts[j] == [None] : v.append(("accepted", "op %d restored the missing %s" % (i, o[1])))
                    else: alts[0] = [a for a in alts[j] if a is not None]
                elif done is None:
                    if j >= 0: alts[0] = alts[0] + [a for a in alts[j] if a is not None]; loose[0] |= loose[j]
                elif flt and j >= 0: alts[0] = alts[0] + [a for a in alts[j] if a is not None]; loose[0] |= loose[j]
                elif j >= 0 and alts[j] != [None] and not loose[j] and {} not in alts[j]: spur(done[1], FILES[0], o[1])
            # what is there now
            if done is None: break
            for f in range(3):
                m = mons.get("M%d_%d" % (f, i))
                if f == 0 and isinstance(m, dict) and not ("t" in m and "u" in m): odd = True
                if "M%d_%d" % (f, i) not in mons:
                    if alts[f] != [None] and None not in alts[f] and not loose[f] and any(e.kind == "B" for e in win[-1:]): v.append(("lost", "after op %d %s %s is missing" % (i, json.dumps(o)[:160], FILES[f])))
                    continue
                if isinstance(m, str):
                    if not everflt and alts[f] != [None] and {} not in alts[f]: v.append(("unreadable", "after op %d %s %s can not be read: %s" % (i, json.dumps(o)[:160], FILES[f], m)))
                    loose[f] |= len(alts[f]) > 1
                    continue
                if loose[f]: alts[f] = [self.unser(m)]; loose[f] = False; continue
                alts[f] = [{} if a is None else a for a in alts[f]]      # an empty file holds no tables
                ok = [a for a in alts[f] if self.eq(a, m)]
                if not ok: v.append(("state", "after op %d %s %s holds %s" % (i, json.dumps(o)[:200], FILES[f], diff(m, self.ser(alts[f][-1]))))); return v
                if not flt: alts[f] = ok[:1]
                else: alts[f] = ok[:1] + [a for a in alts[f] if a is not ok[0]] if len(alts[f]) > 1 else ok[:1]; loose[f] |= len(alts[f]) > 1
        for f in range(3):
            if loose[f]: continue
            m = fin.get(f)
            if isinstance(m, str): v.append(("unreadable", "after the restart %s can not be read: %s" % (FILES[f], m))); continue
            if not any(self.eq(a, m) for a in alts[f]): v.append(("final", "after the restart %s holds %s" % (FILES[f], diff(m, self.ser(alts[f][-1])))))
        return v
    def eq(self, a, m):
        if a is None or m is None: return (a is None or a == {}) and (m is None or m == {})
        return self.ser(a) == m
    def unser(self, m): return m
    def shrink(self, p):
        out = []
        for n in (0, 1):
            if len(p["ini"]) > n: q = json.loads(json.dumps(p)); q["ini"] = q["ini"][:n]; out.append(q)
        for j, o in enumerate(p["ops"]):
            x = o[1] if o[0] == "tx" else o
            if x[0] == "imp":
                for k in range(len(x[2]["rows"])):
                    q = json.loads(json.dumps(p)); y = q["ops"][j]; y = y[1] if y[0] == "tx" else y; del y[2]["rows"][k]; out.append(q)
        return out
    def tags(self, p, r):
        out = []
        for e in r.events:
            if e.kind == "J" and e.js()[0] in ("R", "X") and e.js()[1] < len(p["ops"]):
                o = p["ops"][e.js()[1]]; out.append(o[0] + (":ok" if e.js()[0] == "R" else ":raised"))
        if any(e.kind == "CRASH" for e in r.events): out.append("crash")
        return out
def diff(m, w):
    if m is None or w is None: return "%s, expected %s" % ("nothing" if m is None else "tables " + str(sorted(m)), "nothing" if w is None else "tables " + str(sorted(w)))
    if sorted(m) != sorted(w): return "the tables %s, expected %s" % (sorted(m), sorted(w))
    for t in m:
        if m[t] != w[t]:
            for k in range(max(len(m[t]), len(w[t]))):
                a = m[t][k] if k < len(m[t]) else None; b = w[t][k] if k < len(w[t]) else None
                if a != b: return "in table %s (%d rows, expected %d) at row %d %s, expected %s" % (t, len(m[t]), len(w[t]), k + 1, str(a)[:120], str(b)[:120])
    return "?"
CHECK = C()
