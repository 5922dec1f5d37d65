"""C18 a failure reaches its handler: whatever fails, and wherever, the innermost handler gets that failure, every finally left on the way runs once, returns and breaks arrive, and what nobody handles ends the program."""
import json, errno, copy
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_EINTR, F_SHORT, F_DELAY, F_FULL
from vlib.fgen import jstr
PRE = """
var RV=0;
var GX={};
function V(e) { if (typeof e==='object' || typeof e==='array') return JSON.stringify(e); return typeof e+':'+e; };
"""
LIT = [["s", "T%d"], ["s", "T%d"], ["n", None], ["o", None], ["a", None], ["b", True], ["z", 0]]
ROUTES = ["dir", "dir", "dir", "call", "apply", "bind", "new", "forEach", "map", "filter", "reduce", "sort", "repl", "eval", "inline", "arg", "src", "imp", "sub", "alias", "sqlf", "sqlq", "glob", "timer", "some", "every", "find", "tostr", "json"]
ROUTES = [r for r in ROUTES if r not in ("tostr", "json")]
CB = {"sqlf", "sqlq", "sub", "alias"}           # an object thrown through these arrives as text
class C(Check):
    pid = "C18"
    quick_s = 40
    max_variants = 6
    rule = ("generated programs of nested functions, loops, switches, with blocks and try, catch and finally with throws, returns, breaks, continues and rethrows among them, called directly, through call, apply, bind, new, eval, source, import, array and "
            "string callbacks, SQL functions and query callbacks, glob filters, timers, another interpreter and its aliases, whose reads, writes and stats fail only where a failure of open, read, write, close, stat, access or mutex is injected; distinct by full event trace")
    E = [errno.EIO, errno.EACCES, errno.EMFILE]
    fault_classes = {"open": [(F_ERR, E)], "read": [(F_ERR, [errno.EIO]), (F_SHORT, [1]), (F_EINTR, [0])], "write": [(F_ERR, [errno.EIO, errno.ENOSPC]), (F_SHORT, [1])], "stat": [(F_ERR, E)], "lstat": [(F_ERR, E)], "opendir": [(F_ERR, E)], "readdir": [(F_ERR, [errno.EIO])],
                     "realpath": [(F_ERR, [errno.EACCES])], "time": [(F_DELAY, [3000])]}
    def gen(self, rng, i):
        for _ in range(50):
            p = {"seed": rng.randrange(1 << 30), "idx": i, "cfg": {"stdio_buf": rng.choice([0, 4096])}, "faults": [], "events": [], "n": 0, "fns": [], "main": []}
            nf = rng.choice([1, 2, 3, 4, 5])
            routes = rng.sample(sorted(set(ROUTES)), rng.choice([2, 4, 8])) if rng.random() < .6 else ROUTES
            self.g = {"nf": nf, "routes": routes, "w": {o: x * rng.choice([.3, 1, 1, 3]) for o, x in (("nest", 9), ("try", 27), ("loop", 10), ("sw", 4), ("with", 5), ("if", 5), ("call", 13), ("throw", 6), ("bad", 6), ("ret", 5), ("jump", 6), ("cat", 3), ("io", 4), ("log", 8))}}
            p["fns"] = [None] * nf
            for f in range(nf - 1, -1, -1): p["fns"][f] = self.block(rng, p, f, 0, {"fn": True, "loop": [], "cat": 0}, rng.choice([2, 3, 4]))
            for _ in range(rng.choice([1, 2, 4, 6])):
                s = self.stmt(rng, p, -1, 0, {"fn": False, "loop": [], "cat": 0})
                if rng.random() < .93: s = ["try", self.nid(p), [s], [], None if rng.random() < .7 else []]
                p["main"].append(s)
            self.memo = {}
            if 3 < self.cost(p, p["main"]) < 500: break
        p["want_faults"] = rng.choice([0, 1, 1, 2, 3])
        return p
    def nid(self, p): p["n"] += 1; return p["n"]
    def block(self, rng, p, f, d, cx, n=None):
        return [self.stmt(rng, p, f, d, cx) for _ in range(n if n is not None else rng.choice([0, 1, 1, 2, 2, 3]))]
    def stmt(self, rng, p, f, d, cx):
        k = self.nid(p); deep = d < 4; w = dict(self.g["w"])
        if not deep: w.update(dict.fromkeys(("nest", "try", "loop", "sw", "with", "if"), 0))
        if f + 1 >= self.g["nf"]: w["call"] = 0
        if not cx["fn"]: w["ret"] = 0
        if not cx["loop"]: w["jump"] = 0
        if not cx["cat"]: w["cat"] = 0
        o = rng.choices(list(w), list(w.values()))[0]
        if o == "nest": return self.nest(rng, p, f, d, cx, rng.choice([2, 3, 3, 4, 5]))
        if o == "try":
            cat = self.block(rng, p, f, d + 1, dict(cx, cat=cx["cat"] + 1)) if rng.random() < .8 else None
            fin = self.block(rng, p, f, d + 1, cx) if cat is None or rng.random() < .45 else None
            return ["try", k, self.block(rng, p, f, d + 1, cx, rng.choice([1, 2, 2, 3])), cat, fin]
        if o == "loop":
            return ["loop", k, rng.choice(["for", "while", "do", "in", "of"]), rng.choice([1, 2, 3]), self.block(rng, p, f, d + 1, dict(cx, loop=cx["loop"] + [k]), rng.choice([1, 2, 3]))]
        if o == "sw":
            nc = rng.choice([2, 3]); c2 = dict(cx, loop=cx["loop"] + [-k])
            return ["sw", k, rng.randrange(nc + 1), [[self.block(rng, p, f, d + 1, c2), rng.random() < .6] for _ in range(nc)], rng.random() < .6]
        if o == "with": return ["with", k, self.block(rng, p, f, d + 1, cx)]
        if o == "if": return ["if", k, rng.random() < .6, self.block(rng, p, f, d + 1, cx), self.block(rng, p, f, d + 1, cx) if rng.random() < .4 else None]
        if o == "call": return ["call", k, rng.choice(self.g["routes"]), rng.randrange(f + 1, self.g["nf"])]
        if o == "throw": return ["throw", k, rng.choice(LIT)[0]]
        if o == "bad": return ["bad", k, rng.choice(["read", "fn", "stat", "null", "args", "type", "syn", "sql", "req"])]
        if o == "ret": return ["ret", k, rng.choice(["n", "s", "u", "io", "b"])]
        if o == "jump":
            lp = cx["loop"][-1]; kind = rng.choice(["brk", "cont"])
            if kind == "cont" and lp < 0: kind = "brk"
            return [kind, k, None if lp < 0 and rng.random() < .5 else rng.choice([0, 1, None]), lp if lp > 0 else 0]
        if o == "cat": return rng.choice([["loge", k], ["reth", k]])
        if o == "io": return ["io", k, rng.choice(["read", "write", "stat", "chan", "list"])]
        if not cx["cat"] and rng.random() < .4: return ["logt", k]
        return ["log", k]
    def nest(self, rng, p, f, d, cx, n):
        """a chain of blocks around something that leaves them, with a count after it at each level"""
        k = self.nid(p); log = lambda: ["log", self.nid(p)]
        if not n:
            r = rng.random()
            if r < .55 and cx["loop"]:
                lp = rng.choice(cx["loop"][-1:]); kind = rng.choice(["brk", "cont"]) if lp > 0 else "brk"
                return [kind, k, rng.choice([0, 1, None]), lp if lp > 0 else 0]
            if r < .65 and cx["fn"]: return ["ret", k, "n"]
            if r < .9: return ["throw", k, rng.choice(LIT)[0]]
            return ["bad", k, "read"]
        w = rng.choice(["try", "try", "cat", "fin", "fin", "loop", "with", "with", "sw"])
        pre = [log()] if rng.random() < .3 else []; post = [log()] if rng.random() < .6 else []
        if w == "loop": return ["loop", k, rng.choice(["for", "while", "do", "in", "of"]), rng.choice([1, 2]), pre + [self.nest(rng, p, f, d + 1, dict(cx, loop=cx["loop"] + [k]), n - 1)] + post]
        if w == "with": return ["with", k, pre + [self.nest(rng, p, f, d + 1, cx, n - 1)] + post]
        if w == "sw": return ["sw", k, 0, [[pre + [self.nest(rng, p, f, d + 1, dict(cx, loop=cx["loop"] + [-k]), n - 1)] + post, True], [[log()], False]], True]
        fin = [log()] if rng.random() < .6 else None
        if w == "try": return ["try", k, pre + [self.nest(rng, p, f, d + 1, cx, n - 1)] + post, [log()] if fin is None or rng.random() < .5 else None, fin]
        if w == "cat": return ["try", k, pre + [["throw", self.nid(p), "s"]], [self.nest(rng, p, f, d + 1, dict(cx, cat=cx["cat"] + 1), n - 1)] + post, fin]
        return ["try", k, [["throw", self.nid(p), "s"]] if rng.random() < .5 else [log()], None if rng.random() < .5 else [log()], pre + [self.nest(rng, p, f, d + 1, cx, n - 1)] + post]
    def cost(self, p, b):
        t = 0
        for s in b:
            o = s[0]
            if o == "try": t += 1 + self.cost(p, s[2]) + self.cost(p, s[3] or []) + self.cost(p, s[4] or [])
            elif o == "loop": t += s[3] * self.cost(p, s[4])
            elif o == "sw": t += sum(self.cost(p, c[0]) for c in s[3])
            elif o == "with": t += self.cost(p, s[2])
            elif o == "if": t += self.cost(p, s[3]) + self.cost(p, s[4] or [])
            elif o == "call":
                if s[3] not in self.memo: self.memo[s[3]] = self.cost(p, p["fns"][s[3]])
                t += 1 + self.memo[s[3]] * {"forEach": 2, "map": 2, "filter": 2, "reduce": 2, "sqlq": 2, "sort": 3, "some": 2, "every": 2, "find": 2}.get(s[2], 1)
            else: t += 1
        return t
    # ---- text
    def lit(self, t, k): return {"s": "'T%d'" % k, "n": "%d" % k, "o": "{k:%d}" % k, "a": "[%d]" % k, "b": "true", "z": "0"}[t]
    def btext(self, p, b, ev): return "".join(self.text(p, s, ev) for s in b)
    def text(self, p, s, ev="e"):
        o, k = s[0], s[1]
        if o == "log": return "v++; simlog('l',%d,v);\n" % k
        if o == "loge": return "simlog('e',%d,V(e));\n" % k
        if o == "logt": return "simlog('y',%d,typeof e);\n" % k
        if o == "reth": return "throw e;\n"
        if o == "io":
            x = {"read": "RV=File.read('/w/d%d').length" % k, "write": "RV=File.write('/w/o%d','abc')" % k, "stat": "RV=File.stat('/w/d%d').size" % k, "list": "RV=File.glob('/w/g/*').length" % (), "chan": "RV=new Channel('/w/d%d'); RV='data%d'" % (k, k)}[s[2]]
            return "%s; simlog('io',%d,RV);\n" % (x, k)
        if o == "bad":
            return {"read": "File.read('/w/no%d');\n", "fn": "nosuch%d(1);\n", "stat": "File.stat('/w/no%d');\n", "null": "GX.u%d.foo();\n", "args": "ID%d();\n".replace("ID%d", "File.read") + "//%d\n", "type": "var q%d=5; q%d();\n" % (k, k) + "//%d\n", "syn": "eval('foo bar%d;');\n",
                    "sql": "(new Sqlite(':memory:')).eval('select nosuch%d');\n", "req": "source('/w/no%d.js');\n"}[s[2]] % k
        if o == "throw": return "throw %s;\n" % self.lit(s[2], k)
        if o == "ret":
            if s[2] == "io": return "RV=File.read('/w/d%d').length; simlog('io',%d,RV); return RV;\n" % (k, k)
            return "return %s;\n" % {"n": k, "s": "'R%d'" % k, "u": "", "b": "true"}[s[2]]
        if o in ("brk", "cont"):
            st = "break" if o == "brk" else "continue"
            return "%s;\n" % st if s[2] is None or not s[3] else "if (i%d==%d) %s;\n" % (s[3], s[2], st)
        if o == "try":
            t = "try {\n" + self.btext(p, s[2], ev) + "}"
            if s[3] is not None: t += " catch(e) { simlog('c',%d,V(e));\n" % k + self.btext(p, s[3], "e") + "}"
            if s[4] is not None: t += " finally { simlog('f',%d);\n" % k + self.btext(p, s[4], ev) + "}"
            return t + ";\n"
        if o == "loop":
            n = s[3]; b = self.btext(p, s[4], ev); w = s[2]; a = "[%s]" % ",".join(str(x) for x in range(n))
            if w == "for": return "for (var i%d=0;i%d<%d;i%d++) {\n%s};\n" % (k, k, n, k, b)
            if w == "while": return "var i%d=-1; while (++i%d<%d) {\n%s};\n" % (k, k, n, b)
            if w == "do": return "var i%d=-1; do { i%d++;\n%s} while (i%d<%d);\n" % (k, k, b, k, n - 1)
            if w == "of": return "for (var i%d of %s) {\n%s};\n" % (k, a, b)
            return "for (var i%d in {%s}) {\n%s};\n" % (k, ",".join("'%d':1" % x for x in range(n)), b)
        if o == "sw":
            t = "switch (%d) {\n" % s[2]
            for j, (b, br) in enumerate(s[3]): t += "case %d: simlog('sw',%d,%d);\n" % (j, k, j) + self.btext(p, b, ev) + ("break;\n" if br else "")
            if s[4]: t += "default: simlog('sw',%d,-1);\n" % k
            return t + "};\n"
        if o == "with": return "with ({w:%d%s}) { simlog('w',%d,w);\n" % (k, ",v:1000" if k % 2 else "", k) + self.btext(p, s[2], ev) + "};\n"
        if o == "if": return "if (%s) {\n" % ("v>=0" if s[2] else "v<0") + self.btext(p, s[3], ev) + "}" + (" else {\n" + self.btext(p, s[4], ev) + "}" if s[4] is not None else "") + ";\n"
        if o == "call":
            f = "f%d" % s[3]; r = s[2]; g = "function(a) { return %s(1); }" % f
            x = {"dir": "RV=%s(1)", "call": "RV=%s.call(null,1)", "apply": "RV=%s.apply(null,[1])", "bind": "RV=%s.bind(null,1)()", "new": "RV=new %s(1)", "forEach": "RV=0;[1,2].forEach(%s)", "map": "RV=[1,2].map(%s)", "filter": "RV=[1,2].filter(%s)", "some": "RV=[1,2].some(%s)", "every": "RV=[1,2].every(%s)", "find": "RV=[1,2].find(%s)",
                 "eval": "RV=eval('return %s(1);')", "inline": "RV=(function(a) { return %s(a); })(1)", "arg": "RV=[%s(1)][0]",
                 "reduce": "RV=[1,2,3].reduce(" + "function(a,b) { var q=%s(1); return q===undefined?0:q; })", "sort": "RV=0;[2,1,3].sort(" + g.replace("(a)", "(a,b)", 1) + ")//%s\n", "repl": "RV='axb'.replace(/x/,function(a) { return %s(1); })",
                 "src": "source('/w/s" + str(k) + ".js')//%s\n", "imp": "RV=import('/w/s" + str(k) + ".js')//%s\n",
                 "sub": "GX.i%d=new Interp(); GX.i%d.alias('g',%%s,null); RV=GX.i%d.eval('g(1);')" % (k, k, k), "alias": "GX.i%d=new Interp(); GX.i%d.alias('g',%%s,null); RV=GX.i%d.call('g',[1],true)" % (k, k, k),
                 "sqlf": "GX.d=new Sqlite(':memory:'); GX.d.func('g',%s); RV=GX.d.onecolumn('select g(1)')", "sqlq": "GX.d=new Sqlite(':memory:'); RV=0; GX.d.query('select 1 as a union all select 2',{callback:%s})",
                 "glob": "RV=0; File.glob('/w/g/*',{filter:%s})", "timer": "RV=0; setTimeout(function() { simlog('t'," + str(k) + "); %s(1); },2); update(6)"}[r] % f
            return "%s; simlog('v',%d,%s);\n" % (x, k, "0" if r in ("new", "forEach", "sort", "sqlq", "timer", "src", "sub", "alias", "glob", "filter") else "(RV===undefined?'undefined:undefined':V(RV))")
        raise KeyError(o)
    def build(self, p):
        sc = Scenario(p["seed"]).set(**p["cfg"])
        sc.dir("/w"); sc.dir("/w/g"); sc.cwd = "/w"; sc.file("/w/g/a", b"1")
        for s in self.alls(p):
            if s[0] == "io" or (s[0] == "ret" and s[2] == "io"): sc.file("/w/d%d" % s[1], b"data%d" % s[1])
            if s[0] == "call" and s[2] == "src": sc.file("/w/s%d.js" % s[1], b"RV=f%d(1);\n" % s[3])
            if s[0] == "call" and s[2] == "imp": sc.file("/w/s%d.js" % s[1], b"return f%d(1);\n" % s[3])
        js = PRE
        for f, b in enumerate(p["fns"]): js += "function f%d(x) { var v=0;\nsimlog('b',%d);\n%s};\n" % (f, f, self.btext(p, b, "e"))
        js += "simlog('go');\nvar v=0;\n" + self.btext(p, p["main"], "e") + "simlog('end');\n"
        sc.file("/w/main.js", js.encode())
        sc.phase("", args=["/w/main.js"], kind=3)
        return sc
    def alls(self, p):
        st = [p["main"]] + p["fns"]
        while st:
            for s in st.pop():
                yield s
                for x in s[2:]:
                    if isinstance(x, list): st.append(x if s[0] != "sw" else [y for c in x for y in c[0]])
    def oracle(self, p, r):
        ev = []; flt = []
        for e in r.events:
            if e.kind == "J":
                try: ev.append((e.seq, e.js()))
                except ValueError: return [("value", "an undefined value: %s" % e.rest[:100])]
            elif e.kind == "FAULT": flt.append((e.seq, e.rest.split()[0]))
        if r.status != "ok": return [("status", "the run ended with %s" % r.status)]
        W = Walker(p, ev, flt, "".join(e.rest for e in r.of("STDERR")), [(e.seq, e.rest) for e in r.of("STDERR")])
        ex = [e.rest.split()[0] for e in r.of("EXIT")]
        if not ev or ev[0][1] != ["go"]:
            if flt and ex and ex[0] != "0": return []
            return [("start", "the program did not start; exit %s" % ex)]
        W.i = 1; W.vars.append(0)
        try:
            try:
                W.block(p["main"], None)
                W.expect(["end"], "the end of the program")
                out = None
            except Thr as t: out = t
            if W.i != len(ev): return [("after", "after the end of the program: %s" % json.dumps(ev[W.i][1])[:200])]
            if out is None:
                if ex != ["0"]: return [("exit", "the program ended well with exit %s" % ex)]
            else:
                if not ex or ex[0] == "0": return [("exit", "an error that nothing caught (%s) left exit %s" % (out.text(), ex))]
                if out.sub() and out.sub() not in W.err: return [("message", "an error that nothing caught (%s) is not in the messages: %s" % (out.text(), W.err[-300:]))]
        except Bad as b: return [(b.cls, b.msg)]
        return []
    def tags(self, p, r):
        return ["j:" + e.rest[:4] for e in r.of("J")] + ["s:%s:%s" % (s[0], s[2] if s[0] in ("call", "bad", "throw", "loop") else "") for s in self.alls(p)]
    def ok(self, b, fn, loop, cat):
        for s in b:
            o = s[0]
            if o == "ret" and not fn: return False
            if o in ("brk", "cont"):
                if not loop or (o == "cont" and loop[-1] < 0) or (s[3] and s[3] not in loop): return False
            if o in ("loge", "reth") and not cat: return False
            if o == "logt" and cat: return False
            if o == "try" and not (self.ok(s[2], fn, loop, cat) and self.ok(s[3] or [], fn, loop, True) and self.ok(s[4] or [], fn, loop, cat)): return False
            if o == "loop" and not self.ok(s[4], fn, loop + [s[1]], cat): return False
            if o == "sw" and not all(self.ok(c[0], fn, loop + [-s[1]], cat) for c in s[3]): return False
            if o == "with" and not self.ok(s[2], fn, loop, cat): return False
            if o == "if" and not (self.ok(s[3], fn, loop, cat) and self.ok(s[4] or [], fn, loop, cat)): return False
        return True
    def shrink(self, p):
        for q in self.shrink0(p):
            if self.ok(q["main"], False, [], False) and all(self.ok(b, True, [], False) for b in q["fns"]): yield q
    def shrink0(self, p):
        def subs(b):
            for i, s in enumerate(b):
                yield b[:i] + b[i + 1:]
                for j, x in enumerate(s):
                    if j < 2 or not isinstance(x, list): continue
                    if s[0] == "sw": continue
                    if s[0] in ("try", "with", "if", "loop"): yield b[:i] + x + b[i + 1:]
                    for y in subs(x): yield b[:i] + [s[:j] + [y] + s[j + 1:]] + b[i + 1:]
                if s[0] == "call" and s[2] != "dir": yield b[:i] + [[s[0], s[1], "dir", s[3]]] + b[i + 1:]
        for m in subs(p["main"]): yield dict(p, main=m)
        for f in range(len(p["fns"])):
            for b in subs(p["fns"][f]): yield dict(p, fns=p["fns"][:f] + [b] + p["fns"][f + 1:])
class Bad(Exception):
    def __init__(self, cls, msg): self.cls = cls; self.msg = msg
class Thr(Exception):
    """a failure on its way: kind v = the value vs (as V() shows it), t = a text that has vs in it"""
    def __init__(self, kind, vs): self.kind = kind; self.vs = vs
    def text(self): return "%s %s" % ("value" if self.kind == "v" else "text with", self.vs)
    def sub(self):
        if self.kind == "t": return self.vs
        return self.vs.split(":", 1)[1] if self.vs.startswith(("string:", "number:", "boolean:")) else ""
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
def vrep(v):
    if v is None: return "undefined:undefined"
    if v is True: return "boolean:true"
    if v is False: return "boolean:false"
    if isinstance(v, (int, float)): return "number:%d" % v
    if isinstance(v, str): return "string:" + v
    return v
def truthy(v): return bool(v)
class Walker:
    def __init__(self, p, ev, flt, err, errs):
        self.p = p; self.ev = ev; self.flt = flt; self.i = 0; self.err = err; self.errs = errs; self.vars = []; self.iters = {}; self.cat = []
    def last(self): return self.ev[self.i - 1][0] if self.i else 0
    def nxt(self): return self.ev[self.i][0] if self.i < len(self.ev) else 1 << 60
    def peek(self, *pat): return self.i < len(self.ev) and self.ev[self.i][1][:len(pat)] == list(pat)
    def faulted(self, *cl):
        a, b = self.last(), self.nxt()
        return any(a < s < b for s, c in self.flt)
    def expect(self, pat, what):
        if self.i >= len(self.ev): raise Bad("order", "the program stopped where %s was due" % what)
        e = self.ev[self.i][1]; self.i += 1
        if e[:len(pat)] != list(pat): raise Bad("order", "%s: expected %s, the log has %s" % (what, json.dumps(pat), json.dumps(e)[:200]))
        return e
    def block(self, b, e):
        for s in b: self.stmt(s, e)
    def caught(self, t, k, got):
        if t.kind == "m":          # a value that came through another interpreter or the database: itself, or a text with it
            try: return self.caught(Thr("v", t.vs), k, got)
            except Bad: return self.caught(Thr("t", t.sub()), k, got)
        if t.kind == "v":
            g = got
            if g != t.vs:
                try:
                    if json.loads(g) == json.loads(t.vs): return
                except Exception: pass
                raise Bad("value", "handler %d got %s for the thrown %s" % (k, got[:200], t.vs))
        else:
            if not got.startswith("string:") or t.vs not in got: raise Bad("value", "handler %d got %s for a failure whose text has '%s'" % (k, got[:200], t.vs))
    def stmt(self, s, e):
        o, k = s[0], s[1]
        if o == "log":
            self.vars[-1] += 1; self.expect(["l", k, self.vars[-1]], "statement %d" % k)
        elif o == "loge":
            g = self.expect(["e", k], "the log of the caught error in %d" % k)[2]; self.caught(e, k, g)
        elif o == "logt": self.expect(["y", k, "undefined"], "the type of a variable outside its catch in %d" % k)
        elif o == "reth": raise e
        elif o == "io":
            want = {"read": len("data%d" % k), "write": 3, "stat": len("data%d" % k), "list": 1, "chan": "data%d" % k}[s[2]]
            if self.peek("io", k):
                g = self.expect(["io", k], "io")[2]
                if g != want: raise Bad("io", "%s %d gave %s, not %s" % (s[2], k, g, want))
                return
            if self.faulted(): raise Thr("t", "" if s[2] == "list" else "/w/%s%d" % ("o" if s[2] == "write" else "d", k))
            self.expect(["io", k], "the result of %s %d" % (s[2], k))
        elif o == "bad":
            raise Thr("t", {"read": "/w/no%d" % k, "fn": "nosuch%d" % k, "stat": "/w/no%d" % k, "null": "", "args": "", "type": "", "syn": "", "sql": "nosuch%d" % k, "req": "/w/no%d.js" % k}[s[2]])
        elif o == "throw":
            raise Thr("v", {"s": "string:T%d" % k, "n": "number:%d" % k, "o": '{"k":%d}' % k, "a": "[%d]" % k, "b": "boolean:true", "z": "number:0"}[s[2]])
        elif o == "ret":
            if s[2] == "io":
                self.stmt(["io", k, "read"], e); raise Ret(len("data%d" % k))
            raise Ret({"n": k, "s": "R%d" % k, "u": None, "b": True}[s[2]])
        elif o in ("brk", "cont"):
            if s[2] is None or not s[3] or self.iters[s[3]] == s[2]: raise (Brk if o == "brk" else Cont)()
        elif o == "try":
            try:
                try: self.block(s[2], e)
                except Thr as t:
                    if s[3] is None: raise
                    g = self.expect(["c", k], "handler %d of %s" % (k, t.text()))[2]
                    self.caught(t, k, g)
                    if t.kind != "v": t = Thr("v", g)
                    self.block(s[3], t)
            finally:                # a return leaves a try without its finally (tests/tryreturn.jsi)
                import sys
                if s[4] is not None and not isinstance(sys.exc_info()[1], (Bad, Ret)):
                    self.expect(["f", k], "finally %d" % k)
                    self.block(s[4], e)
        elif o == "loop":
            for i in range(s[3]):
                self.iters[k] = i
                try: self.block(s[4], e)
                except Brk: break
                except Cont: continue
        elif o == "sw":
            on = False
            try:
                for j, (b, br) in enumerate(s[3]):
                    if j == s[2]: on = True
                    if on:
                        self.expect(["sw", k, j], "case %d of switch %d" % (j, k)); self.block(b, e)
                        if br: raise Brk()
                if on and s[4] or (not on and s[4]): self.expect(["sw", k, -1], "the default of switch %d" % k)
            except Brk: pass
        elif o == "with":
            self.expect(["w", k, k], "with %d" % k); v = self.vars[-1]
            if not k % 2: self.block(s[2], e)
            else:
                self.vars[-1] = 1000
                try: self.block(s[2], e)
                finally: self.vars[-1] = v
        elif o == "if":
            if s[2]: self.block(s[3], e)
            elif s[4] is not None: self.block(s[4], e)
        elif o == "call": self.call(s, e)
    def fn(self, f):
        self.expect(["b", f], "the start of function %d" % f)
        self.vars.append(0); it = dict(self.iters)
        try: self.block(self.p["fns"][f], None); v = None
        except Ret as r: v = r.v
        finally: self.vars.pop(); self.iters = it
        return v
    def call(self, s, e):
        k, r, f = s[1], s[2], s[3]; v = None
        if r in ("src", "imp", "glob", "sub", "alias", "sqlf", "sqlq") and not self.peek("b", f) and self.faulted(): raise Thr("t", "")
        try:
            if r in ("forEach",): self.fn(f); self.fn(f)
            elif r == "map": v = [self.fn(f), self.fn(f)]
            elif r == "filter": self.fn(f); self.fn(f)
            elif r == "some": v = truthy(self.fn(f)) or truthy(self.fn(f))
            elif r == "every": v = truthy(self.fn(f)) and truthy(self.fn(f))
            elif r == "find":
                v = None
                for x in (1, 2):
                    if truthy(self.fn(f)): v = x; break
            elif r == "reduce": self.fn(f); v = self.fn(f) or 0
            elif r == "sort":
                self.fn(f)
                while self.peek("b", f): self.fn(f)
            elif r == "sqlq":
                if not truthy(self.fn(f)): self.fn(f)
            elif r == "timer":
                self.expect(["t", k], "timer %d" % k)
                a = self.last()
                try: self.fn(f)
                except Thr as t:
                    g = "".join(x for q, x in self.errs if a < q < self.nxt())
                    if t.sub() and t.sub() not in g: raise Bad("message", "the failure of timer %d (%s) is not in the messages: %s" % (k, t.text(), g[:200]))
            else: v = self.fn(f)
        except Thr as t:
            if r in CB and t.kind == "v": raise Thr("m", t.vs)
            raise
        g = self.expect(["v", k], "the end of call %d (%s of function %d)" % (k, r, f))[2]
        if r in ("new", "forEach", "sort", "sqlq", "timer", "src", "sub", "alias", "glob", "filter"): return
        g = g.replace("[ undefined", "[ null").replace(", undefined", ", null") if r == "map" else g
        if r == "map": w = json.dumps(v)
        elif r == "repl": w = "string:a%sb" % ("undefined" if v is None else "true" if v is True else v)
        elif r == "sqlf": return
        else: w = vrep(v)
        if g != w:
            try:
                if json.loads(g) == json.loads(w): return
            except Exception: pass
            raise Bad("value", "call %d (%s of function %d) gave %s, not %s" % (k, r, f, g[:200], w))
CHECK = C()
