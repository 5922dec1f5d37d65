"""C17 loading code: a file that is sourced, imported, required or autoloaded runs whole, once, in its own place, or the load raises; a failed load leaves nothing behind that stops a later one."""
import json, errno, posixpath
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_EINTR, F_SHORT, F_DELAY
from vlib.fgen import jstr
ST = "simlog('s',Info.isMain(),Info.script(),Info.interp().includeDepth,Info.interp().pkgReqDepth);\n"
PRE = """
var CT={};
var RV=0;
function ERR(k,e) { simlog('r',k,'err',''+e); };
"""
DIRS = ["/w", "/w/a", "/w/a/c", "/w/b", "/p", "/q", "/q/Pb"]
def ver3(v): return [v // 10000, v // 100 % 100, v % 100]
def vnum(v): return v / 10000.0
def vlit(rng, v):
    a = ver3(v)
    if rng.random() < .5: return jstr("%d.%d.%d" % tuple(a))
    return repr(round(v / 10000.0, 4))
class C(Check):
    pid = "C17"
    quick_s = 40
    max_variants = 4
    rule = ("a generated tree of script, package and autoload files that load each other by source, import, require and first call, with returns, throws, syntax errors, missing files, long and padded text, once, exists, noError, noEval and isMain, "
            "depth limits, files mended or added between loads, under failing, short, interrupted and slow opens, reads, stats, access checks, realpaths and closes at any one of them; distinct by full event trace")
    E = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOMEM]
    fault_classes = {"open": [(F_ERR, E), (F_DELAY, [3000])], "read": [(F_ERR, [errno.EIO]), (F_SHORT, [1, 7, 100]), (F_DELAY, [3000])], "stat": [(F_ERR, E)],
                     "access": [(F_ERR, [errno.EIO, errno.EACCES, errno.ENOMEM])], "realpath": [(F_ERR, [errno.EIO, errno.EACCES, errno.ENOMEM])], "close": [(F_ERR, [errno.EIO])]}
    # ---- generation: a file is {path, vers:[{syn, body:[stmt]}]}, a statement is a list
    def gen(self, rng, i):
        p = {"seed": rng.randrange(1 << 30), "idx": i, "cfg": {"stdio_buf": rng.choice([0, 512, 4096])}, "faults": [], "events": [], "files": [], "main": [], "maxd": rng.choice([0, 0, 2, 3]), "n": 0}
        nf = rng.choice([2, 3, 4, 6, 8]); fs = []
        names = []
        for k in range(nf):
            r = rng.random()
            if r < .3:
                nm = rng.choice(["Pa", "Pb", "Pc", "Pd"]); path = rng.choice(["/p/%s.jsi", "/q/%s.jsi", "/w/%s.jsi", "/w/a/%s.jsi"]) % nm
                if nm == "Pb" and rng.random() < .3: path = "/q/Pb/Pb.jsi"
                kind = "p"
            else: path = rng.choice(DIRS[:4]) + "/f%d.js" % k; kind = "f"; nm = ""
            if path in names: continue
            names.append(path); fs.append({"path": path, "kind": kind, "nm": nm, "vers": [], "there": rng.random() < .9})
        if rng.random() < .4: fs.append({"path": "/w/autoload.jsi", "kind": "a", "nm": "", "vers": [], "there": True})
        p["files"] = fs
        for fi, f in enumerate(fs):
            for v in range(rng.choice([1, 1, 2])): f["vers"].append(self.fver(rng, p, fi))
        for _ in range(rng.choice([3, 6, 10, 14])): p["main"].append(self.stmt(rng, p, -1))
        p["main"].append(["auto", p["n"], 0]) if rng.random() < .2 else None
        p["tail"] = rng.random() < .8
        p["want_faults"] = rng.choice([0, 1, 1, 2, 3])
        return p
    def nid(self, p): p["n"] += 1; return p["n"]
    def fver(self, rng, p, fi):
        f = p["files"][fi]; b = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < .35: b.append(["pad", rng.choice([10, 100, 1000, 4000, 8190, 8191, 8192, 8193, 9000, 17000]), rng.choice("clns")])
            elif f["kind"] != "a": b.append(self.stmt(rng, p, fi, r))
        if f["kind"] == "p" and rng.random() < .9: b.insert(rng.randrange(len(b) + 1), ["prov", f["nm"] if rng.random() < .95 else "Pz", rng.choice([10000, 10203, 10500, 20000, 150099, 999999, 1])])
        if f["kind"] == "a": b.append(["map", [[k, rng.randrange(len(p["files"]) - 1)] for k in range(3)]])
        if rng.random() < .12: b.insert(0 if f["kind"] == "a" else rng.randrange(len(b) + 1), ["throw", self.nid(p)])
        return {"syn": rng.random() < .1, "body": b, "ret": rng.choice([None, None, 1, "s", 0]), "bang": rng.random() < .2, "nl": rng.random() < .6, "com": rng.random() < .4, "lead": rng.choice([0, 0, 1, 3])}
    def stmt(self, rng, p, fi, r=None):
        r = rng.random(); k = self.nid(p); n = sum(f["kind"] != "a" for f in p["files"]); caught = fi < 0 or rng.random() < .6
        t = rng.choice([x for x in range(n)]) if n else 0
        if fi >= 0 and t <= fi and (not p["maxd"] or rng.random() < .8): t = min(n - 1, fi + 1) if fi + 1 < n else -1
        if fi < 0 and r < .1: return ["put", k, t, rng.randrange(2)]
        if fi < 0 and r < .14: return ["dirs", k, rng.choice([["/p"], ["/p", "/q"], ["/q", "/p"], ["/w/a"], []])]
        if r < .55 and t >= 0:
            o = {}
            if rng.random() < .35: o["once"] = True
            if rng.random() < .2: o["exists"] = True
            if rng.random() < .15: o["noError"] = True
            if rng.random() < .08: o["noEval"] = True
            if rng.random() < .1: o["isMain"] = True
            if rng.random() < .1: o["trace"] = False
            if rng.random() < .1: o["global"] = True
            ts = [t]
            if rng.random() < .12: ts = [rng.randrange(n) for _ in range(rng.choice([1, 2, 3]))] if fi < 0 else [t, t]
            return ["src", k, ts, o, rng.choice(["", "", "", "abs"]), caught, len(ts) > 1]
        if r < .65 and t >= 0: return ["imp", k, [t], {"once": True} if rng.random() < .2 else {}, rng.choice(["", "abs"]), caught, False]
        if r < .9:
            if fi >= 0 and not p["maxd"]: return ["cnt", k]
            v = rng.choice([None, None, 10000, 10203, 10204, 20000, 150098, 1, 0])
            return ["req", k, rng.choice(["Pa", "Pb", "Pc", "Pd", "Pz"]), v, v is not None and rng.random() < .3, caught]
        if r < .95 and fi < 0: return ["auto", k, rng.randrange(4)]
        return ["cnt", k]
    # ---- text
    def opt(self, o): return ("," + json.dumps(o)) if o else ""
    def name(self, p, t, cur, how):
        path = p["files"][t]["path"]
        return path if how == "abs" else posixpath.relpath(path, posixpath.dirname(cur))
    def stext(self, p, s, cur, rng):
        k = s[1]; op = s[0]
        if op == "pad":
            n = s[1]
            if s[2] == "c": return "// " + "x" * n + "\n"
            if s[2] == "l": return "simlog('k',%d,'%s'.length);\n" % (n, "y" * n)
            if s[2] == "n": return "\n" * min(n, 300) + "simlog('k',0,0);\n"
            return " " * n + "simlog('k',1,1);\n"
        if op == "prov": return "provide('%s',%s);\n" % (s[1], vlit(rng, s[2]))
        if op == "throw": return "throw('T%d');\n" % k
        if op == "map": return "".join("Jsi_Auto.af%d=%s;\n" % (a, jstr("source('%s'); function af%d(x) { return x+%d; };" % (p["files"][t]["path"], a, a))) for a, t in s[1])
        if op == "cnt": return "simlog('c',%d);\n" % k
        if op == "put": return "simextput('%s',FV['%d/%d']); simlog('put',%d);\n" % (p["files"][s[2]]["path"], s[2], s[3] % len(p["files"][s[2]]["vers"]), k)
        if op == "dirs": return "Interp.conf({pkgDirs:%s}); simlog('put',%d);\n" % (json.dumps(s[2]), k)
        if op in ("src", "imp"):
            fn = "source" if op == "src" else "import"
            nm = [self.name(p, t, cur, s[4]) for t in s[2]]
            ex = "%s(%s%s)" % (fn, json.dumps(nm) if s[6] else jstr(nm[0]), self.opt(s[3]))
        elif op == "req":
            ex = "require('%s'%s%s)" % (s[2], "," + vlit(rng, s[3]) if s[3] is not None else "", ",{}" if s[4] else "")
            if s[3] is not None and not s[4]: ex = "RQ(%s)" % ex
        elif op == "auto": return "try { RV=af%d(1); simlog('r',%d,'ok',JSON.stringify(RV)); } catch(e) { ERR(%d,e); };\n" % (s[2], k, k) + ST
        if cur == "/w/main.js": return "try { RV=%s; simlog('r',%d,'ok',RV===undefined?'null':JSON.stringify(RV)); } catch(e) { ERR(%d,e); };\n" % (ex, k, k) + ST
        return "try { RV=%s; simlog('r',%d,'ok',RV===undefined?'null':JSON.stringify(RV)); } catch(e) { ERR(%d,e);%s };\n" % (ex, k, k, "" if s[5] else " throw(e);") + ST
    def ftext(self, p, fi, vi):
        import random
        f = p["files"][fi]; v = f["vers"][vi]; rng = random.Random(p["seed"] * 31 + fi * 7 + vi)
        s = "#!/usr/bin/env jsish -x\n" if v["bang"] else ""
        s += "".join(rng.choice(["\n", "// c\n", "  \n"]) for _ in range(v["lead"]))
        s += "simlog('b',%d,%d,Info.isMain(),Info.script(),Info.scriptDir());\n" % (fi, vi)
        for x in v["body"]: s += self.stext(p, x, f["path"], rng)
        if v["syn"]: s += rng.choice(["var x = (;\n", "if (1) {\n", "foo bar;\n", "'abc\n"])
        s += "simlog('x',%d,Info.isMain(),Info.script());" % fi
        if v["ret"] is not None: s += "\nreturn %s;" % json.dumps(v["ret"])
        if v["com"]: s += " // done"
        if v["nl"]: s += "\n"
        return s
    def build(self, p):
        import random
        sc = Scenario(p["seed"]).set(**p["cfg"])
        for d in DIRS: sc.dir(d)
        sc.cwd = "/w"
        fv = {}
        for fi, f in enumerate(p["files"]):
            for vi in range(len(f["vers"])): fv["%d/%d" % (fi, vi)] = self.ftext(p, fi, vi)
            if f["there"]: sc.file(f["path"], fv["%d/0" % fi].encode())
        rng = random.Random(p["seed"])
        need = {"%d/%d" % (s[2], s[3] % len(p["files"][s[2]]["vers"])) for s in p["main"] if s[0] == "put"}
        js = PRE + "function RQ(o) { return [o.name,o.version,o.verStr,o.loadFile]; };\nvar FV={};\n" + "".join("FV['%s']=%s;\n" % (k, jstr(fv[k])) for k in sorted(need))
        if p["maxd"]: js += "Interp.conf({maxIncDepth:%d});\n" % p["maxd"]
        js += "simlog('go',Info.isMain(),Info.script());\n" + "".join(self.stext(p, s, "/w/main.js", rng) for s in p["main"]) + "simlog('end');\n"
        sc.file("/w/main.js", js.encode())
        sc.phase("", args=["/w/main.js"], kind=3)
        return sc
    # ---- reference walk over the observed log
    def oracle(self, p, r):
        try: return self.walk(p, r)
        except Bad as b: return [(b.cls, b.msg)]
        except Unspecified: return []
    def walk(self, p, r):
        ev = []; flt = []
        for e in r.events:
            if e.kind == "J": ev.append((e.seq, e.js()))
            elif e.kind == "FAULT": flt.append((e.seq, e.rest.split()[0], e.rest))
        W = Walker(self, p, ev, flt)
        if r.status != "ok": return [("status", "the run ended with %s" % r.status)]
        if not ev:
            if flt:
                if any(e.rest.split()[0] == "0" for e in r.of("EXIT")): return [("exit", "the main program could not be read, and the exit status is 0")]
                return []
            return [("whole", "the main program did not run")]
        W.main()
        if [e.rest.split()[0] for e in r.of("EXIT")] != ["0"]: return [("exit", "the main program ended well with exit %s" % [e.rest for e in r.of("EXIT")])]
        return []
    def tags(self, p, r):
        t = []
        for _, a in [(e, e.js()) for e in r.of("J")]:
            if a[0] == "r": t.append("r:" + a[2])
            if a[0] in ("b", "k"): t.append(a[0])
        return t
    def shrink(self, p):
        for i in range(len(p["main"])): yield dict(p, main=p["main"][:i] + p["main"][i + 1:])
        for i, f in enumerate(p["files"]):
            for j, v in enumerate(f["vers"]):
                for k in range(len(v["body"])):
                    q = json.loads(json.dumps(p)); q["files"][i]["vers"][j]["body"].pop(k); yield q
                for key, z in (("bang", False), ("com", False), ("lead", 0), ("syn", False), ("ret", None)):
                    if v[key] != z: q = json.loads(json.dumps(p)); q["files"][i]["vers"][j][key] = z; yield q
        if p["cfg"].get("stdio_buf"): yield dict(p, cfg=dict(p["cfg"], stdio_buf=0))
        if p["maxd"]: yield dict(p, maxd=0)
class Unspecified(Exception): pass
class Bad(Exception):
    def __init__(self, cls, msg): self.cls = cls; self.msg = msg
class Walker:
    def __init__(self, ck, p, ev, flt):
        self.ck = ck; self.p = p; self.ev = ev; self.flt = flt; self.i = 0
        self.cur = {fi: (0 if f["there"] else None) for fi, f in enumerate(p["files"])}   # version on disk
        self.byp = {f["path"]: fi for fi, f in enumerate(p["files"])}
        self.loaded = set(); self.prov = {}; self.maybe = set(); self.amb = set(); self.dirs = []; self.funcs = set(); self.auto = 0; self.maps = None
        self.inc = 0; self.req = 0; self.maxd = p["maxd"] or 50; self.lost = bool(ev) and any(q < ev[0][0] and c == 'stat' for q, c, _ in flt)
    def peek(self, *pat):
        return self.i < len(self.ev) and self.ev[self.i][1][:len(pat)] == list(pat)
    def last(self): return self.ev[self.i - 1][0] if self.i else 0
    def nxt(self): return self.ev[self.i][0] if self.i < len(self.ev) else 1 << 60
    def faulted(self):
        """a failure was injected between the previous logged event and the next one"""
        a, b = self.last(), self.nxt()
        return any(a < s < b and not c.startswith("close") for s, c, _ in self.flt)
    def take(self, what):
        if self.i >= len(self.ev): raise Bad("whole", "the program stopped where %s was due" % what)
        e = self.ev[self.i][1]; self.i += 1; return e
    def expect(self, pat, what):
        e = self.take(what)
        if e[:len(pat)] != list(pat): raise Bad("whole", "%s: expected %s, the log has %s" % (what, json.dumps(pat), json.dumps(e)[:200]))
        return e
    def state(self, cur, ismain, inc, req):
        e = self.take("the state after an operation")
        if e != ["s", ismain, cur, inc, req]: raise Bad("state", "after an operation in %s: isMain, script, includeDepth, pkgReqDepth are %s, should be %s" % (cur, json.dumps(e[1:]), json.dumps([ismain, cur, inc, req])))
    # outcome: ("ok", value) or ("err", text or None)
    def main(self):
        self.expect(["go", True, "/w/main.js"], "the start of the main program")
        for s in self.p["main"]: self.stmt(s, "/w/main.js", True)
        self.expect(["end"], "the end of the main program")
        if self.i != len(self.ev): raise Bad("whole", "events after the end: %s" % json.dumps(self.ev[self.i][1])[:200])
    def stmt(self, s, cur, ismain):
        """returns None or the error that leaves the file"""
        op = s[0]; k = s[1]
        if op == "pad":
            if s[2] != "c": self.expect(["k"] + {"l": [s[1], s[1]], "n": [0, 0], "s": [1, 1]}[s[2]], "padded text in %s" % cur)
            return
        if op == "cnt": self.expect(["c", k], "a statement of %s" % cur); return
        if op == "throw": return "T%d" % k
        if op == "map": self.maps = {a: t for a, t in s[1]}; return
        if op == "put": self.expect(["put", k], "a put"); self.cur[s[2]] = s[3] % len(self.p["files"][s[2]]["vers"]); return
        if op == "dirs": self.expect(["put", k], "pkgDirs"); self.dirs = s[2]; return
        if op == "prov":
            if s[1] in self.prov and s[1] not in self.maybe and s[1] not in self.amb:
                if self.prov[s[1]][1] != cur: return "already provided"
                return
            if s[1] in self.amb or s[1] in self.maybe and self.prov[s[1]] != (s[2], cur):
                # whether the package of a failed require is still known, and which file it belongs to when a file that
                # require loaded left the provide to another one, is not specified: what follows is not judged
                raise Unspecified()
            self.prov[s[1]] = (s[2], cur); self.maybe.discard(s[1]); return
        inc, req = self.inc, self.req
        if op in ("src", "imp"): res = self.source(s, cur, ismain)
        elif op == "req": res = self.require(s[2], s[3], s[4], cur)
        elif op == "auto": res = self.autocall(s[2], cur)
        self.inc, self.req = inc, req
        e = self.expect(["r", k], "the result of operation %d in %s" % (k, cur))
        what = "%s in %s" % (json.dumps(s[:5]), cur)
        if res[0] == "any": res = ("ok", e[3]) if e[2] == "ok" else ("err", None)
        if res[0] != e[2]: raise Bad("outcome", "%s: %s was due, got %s %s" % (what, json.dumps(res), e[2], e[3][:150]))
        if res[0] == "ok" and res[1] != "?":
            got = json.loads(e[3]) if res[1] != e[3] else e[3]
            if got != res[1]:
                if not (isinstance(got, (int, float)) and isinstance(res[1], (int, float)) and abs(got - res[1]) < 1e-7): raise Bad("value", "%s gave %s, should be %s" % (what, e[3][:200], json.dumps(res[1])))
        if res[0] == "err":
            if res[1] and res[1] not in e[3]: raise Bad("text", "%s raised %s, should be about %s" % (what, e[3][:200], res[1]))
            if cur != "/w/main.js" and not s[5]: return res[1] or ""
        self.state(cur, ismain, inc, req)
    def exists(self, path): return path in self.byp and self.cur[self.byp[path]] is not None
    def body(self, fi, ismain, imp=False):
        """the begin marker of file fi is next: run it; returns outcome"""
        f = self.p["files"][fi]; vi = self.cur[fi]; v = f["vers"][vi]; path = f["path"]
        self.expect(["b", fi, vi, ismain, path, posixpath.dirname(path)], "the start of %s" % path)
        if v["syn"]: raise Bad("syntax", "%s has a syntax error and ran" % path)
        self.loaded.add(path)
        for x in v["body"]:
            er = self.stmt(x, path, ismain)
            if er is not None: return ("err", er)
        self.expect(["x", fi, ismain, path], "the end of %s" % path)
        return ("ok", v["ret"])
    def load(self, fi, o, ismain, once=False):
        """one file; outcome"""
        f = self.p["files"][fi]; path = f["path"]; vi = self.cur[fi]
        if self.peek("b", fi):
            if vi is None: raise Bad("whole", "%s ran without being there" % path)
            if o.get("once") and path in self.loaded: raise Bad("once", "%s ran again with once" % path)
            if o.get("noEval"): raise Bad("noeval", "%s ran with noEval" % path)
            res = self.body(fi, ismain)
            if res[0] == "err" and o.get("noError"): return ("ok", None)
            return res
        bad = self.faulted()
        if vi is None:
            if o.get("exists"): return ("any", None) if bad else ("ok", None)
            return ("err", None)
        if o.get("once") and path in self.loaded: return ("any", None) if bad else ("ok", None)
        if f["vers"][vi]["syn"]:
            return ("any", None) if o.get("noError") else ("err", None)
        if o.get("noEval"): return ("any", None) if bad else ("ok", None)
        if bad: return ("err", None)
        raise Bad("whole", "%s did not run: the log has %s" % (path, json.dumps(self.ev[self.i][1])[:200] if self.i < len(self.ev) else "ended"))
    def source(self, s, cur, ismain):
        o = s[3]
        if self.inc + 1 > self.maxd: return ("err", "max source depth")
        self.inc += 1; res = ("ok", None)
        for t in s[2]:
            res = self.load(t, o, bool(o.get("isMain", False)))
            if res[0] == "any":
                # decided by what the log says next
                if self.i < len(self.ev) and self.ev[self.i][1][:1] == ["r"] and self.ev[self.i][1][2] == "err": return ("err", None)
                res = ("ok", "?" if len(s[2]) > 1 else None)
                if o.get("noError"): res = ("ok", "?")
            if res[0] == "err": return res
        if len(s[2]) > 1: return ("ok", "?")
        return res
    def require(self, nm, v, opts, cur):
        if nm in self.prov and nm not in self.maybe: pass
        elif nm in self.maybe and not self.peek("b"): pass
        else:
            res = self.reqload(nm, cur)
            if res[0] == "err": return res
        if nm not in self.prov: return ("err", None)
        ver, path = self.prov[nm]
        if v is not None and v > ver: return ("err", "downlevel")
        if v is not None and not opts: return ("ok", [nm, vnum(ver), "%d.%d.%d" % tuple(ver3(ver)), path] if nm not in self.amb else "?")
        return ("ok", vnum(ver))
    def reqload(self, nm, cur):
        if self.req > self.maxd: return ("err", "recursive require")
        self.req += 1
        cand = []
        for d in self.dirs + ["/w", posixpath.dirname(cur)]:
            for c in ("%s/%s.jsi" % (d, nm), "%s/%s/%s.jsi" % (d, nm, nm)):
                if self.exists(c) and c not in cand: cand.append(c)
        bad = self.faulted()
        for c in cand:
            fi = self.byp[c]
            if self.peek("b", fi):
                res = self.body(fi, False)
                if res[0] == "err":
                    if nm in self.prov: self.maybe.add(nm)
                    return res
                if nm not in self.prov: return ("err", "missing provide")
                if self.prov[nm][1] != c: self.amb.add(nm)
                return res
            if bad: continue
            if self.p["files"][fi]["vers"][self.cur[fi]]["syn"]: return ("err", None)
            raise Bad("whole", "require('%s') in %s did not run %s: the log has %s" % (nm, cur, c, json.dumps(self.ev[self.i][1])[:200] if self.i < len(self.ev) else "ended"))
        return ("err", None)
    def autocall(self, a, cur):
        fn = "af%d" % a
        if fn in self.funcs: return ("ok", 1 + a)
        if not self.auto:
            fi = self.byp.get("/w/autoload.jsi")
            if fi is None: return ("err", None)
            if self.peek("b", fi):
                res = self.body(fi, False if self.inc else True)
                if res[0] == "err": return ("err", None)
                self.auto = 1
            elif self.lost or self.faulted(): return ("err", None)
            elif self.p["files"][fi]["vers"][self.cur[fi]]["syn"]: return ("err", None)
            else: raise Bad("whole", "autoload.jsi was not loaded for a call of %s" % fn)
        if self.maps is None or a not in self.maps: return ("err", None)
        t = self.maps[a]; self.inc += 1
        if self.inc > self.maxd: return ("err", None)
        res = self.load(t, {}, False)
        if res[0] == "err": return ("err", None)
        self.funcs.add(fn)
        return ("ok", 1 + a)
CHECK = C()
