"""C04 directories, links and metadata: each File operation changes exactly what it names, and says so."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_ZERO, unesc
from vlib.fgen import jstr, faulted
from vlib.fsmodel import FS, Err, same, diff
import json, errno, re, collections, fnmatch
E = errno
JS = """function Q(i,f) { try { var r=f(); simlog('R',i,r===undefined?'undef':r.perms?JSON.stringify(r):r); } catch(e) { simlog('X',i,''+e); }; simtree('/'); };
function F1(n) { return n=='a' || n=='b' || n=='d'; };
"""
NAMES = ["a", "b", "c", "d", "e"] * 4 + [".h", "..b", "a,b"]
def fsort(l): return sorted(l)
class C(Check):
    pid = "C04"
    quick_s = 40
    rule = ("a generated history of create, remove, rename, link, mode, size, query and listing operations on a tree with files, directories, hard links, links to files, to directories, to nothing and to each other; "
            "run undisturbed and with failing calls inside the operations; distinct by full event trace")
    fault_classes = {c: [(F_ERR, [E.EIO, E.EACCES, E.EPERM])] for c in ("stat", "lstat", "access", "mkdir", "unlink", "rmdir", "rename", "link", "symlink", "chmod", "opendir", "readlink", "trunc", "mknod", "mkstemp", "open", "close", "chdir", "getcwd")}
    fault_classes["readdir"] = [(F_ERR, [E.EIO]), (F_ZERO, 0)]
    max_variants = 6
    def path(self, rng, deep=3):
        n = rng.choice([1, 1, 1, 2, 2, 3])
        p = "/".join(rng.choice(NAMES) for _ in range(n))
        a = rng.random()
        if a < .55: p = "/w/t/" + p
        elif a < .58: p = "./" + p
        elif a < .61 and n > 1: p = p.replace("/", "/./", 1)
        elif a < .63: p += "/"
        elif a < .645: p = "/w/t/../t/" + p
        elif a < .65: p = p.replace("/", "//", 1)
        return p
    def gen(self, rng, i):
        pre = []
        for d in ("", "/a", "/d", "/a/b", "/d/e", "/d/e/a"):
            if d in ("", "/d") or (rng.random() < .7 and any(x[1] == d.rsplit("/", 1)[0] for x in pre)): pre.append(["d", d, 0])
        dirs = [x[1] for x in pre]
        used = set(dirs)
        for _ in range(rng.randint(2, 9)):
            q = rng.choice(dirs) + "/" + rng.choice(NAMES)
            if q in used: continue
            used.add(q)
            if rng.random() < .12: pre.append([rng.choice("pcb"), q, rng.choice([0, 259])])
            elif rng.random() < .65: pre.append(["f", q, rng.choice([0, 5, 700])])
            else: pre.append(["l", q, rng.choice(["a", "d", "/w/t/d", "/w/t/a/b", "b", "nowhere", "../t/d/e", "/w/t/c", "e", "/w/o", "/w/o/x", ".."])])
        ops = []
        for _ in range(rng.randint(3, 14)):
            a = rng.random(); P = self.path(rng)
            if a < .16: ops.append({"t": "remove", "p": P, "f": int(rng.random() < .6)})
            elif a < .28: ops.append({"t": "rename", "p": P, "q": self.path(rng), "f": int(rng.random() < .4)})
            elif a < .38: ops.append({"t": "mkdir", "p": P, "f": int(rng.random() < .5)})
            elif a < .47: ops.append({"t": "link", "p": P, "q": self.path(rng), "h": int(rng.random() < .5)})
            elif a < .52: ops.append({"t": "chmod", "p": P, "m": rng.choice([0o644, 0o600, 0o755, 0o700, 0, 0o4755, 0o1777])})
            elif a < .57: ops.append({"t": "truncate", "p": P, "n": rng.choice([0, 1, 5, 700, 9000, -1, 4294967296])})
            elif a < .61: ops.append({"t": "mknod", "p": P, "m": rng.choice([0o100644, 0o010600, 0o020600, 0o060600]), "d": rng.choice([0, 259, 1281])})
            elif a < .65: ops.append({"t": "chdir", "p": rng.choice(["/w/t", "/w/t/d", "d", "a", "..", P])})
            elif a < .67: ops.append({"t": "pwd"})
            elif a < .70: ops.append({"t": "tempfile", "p": rng.choice(["/w/t/TXXXXXX", "/w/t/d/yXXXXXX", "zXXXXXX", "/w/t/none/qXXXXXX", "/w/t/bad"])})
            elif a < .74: ops.append({"t": "write", "p": P, "n": rng.choice([0, 4, 900])})
            elif a < .90:
                ops.append({"t": rng.choice(["exists", "isdir", "isfile", "size", "perms", "lstat", "stat", "readlink", "readable", "executable", "owned", "mtime", "realpath"]), "p": P})
            else:
                o = {"t": "glob", "k": rng.choice(["dir", "dir", "types", "types", "rtyp", "not", "dep", "pre", "rec", "rec", "cnt", "lim", "fil", "thr", "reg", "sub", "two", "dthr", "info"]), "p": rng.choice(["/w/t", "/w/t/d", "/w/t/a", "/w/t/d/e", "d", "a", "d/e", "none", "/w/t/c"]), "pat": rng.choice(["*", "*", "a*", "[ab]", "?"]), "n": rng.randint(1, 4), "ty": "".join(rng.sample("fdlpcb", rng.choice([1, 1, 2, 3])))}
                ops.append(o)
        return {"ops": ops, "pre": pre, "want_faults": True, "skip": {"chdir": 1, "mknod": sum(x[0] in "pcb" for x in pre)}, "seed": rng.randrange(1 << 30)}
    def js(self, o):
        t = o["t"]; p = jstr(o.get("p", "")); q = jstr(o.get("q", ""))
        if t in ("remove", "mkdir"): return "File.%s(%s%s)" % (t, p, ",true" if o["f"] else "")
        if t == "rename": return "File.rename(%s,%s%s)" % (p, q, ",true" if o["f"] else "")
        if t == "link": return "File.link(%s,%s%s)" % (p, q, ",true" if o["h"] else "")
        if t == "chmod": return "File.chmod(%s,%d)" % (p, o["m"])
        if t == "truncate": return "File.truncate(%s,%d)" % (p, o["n"])
        if t == "mknod": return "File.mknod(%s,%d,%d)" % (p, o["m"], o["d"])
        if t == "write": return "File.write(%s,%s)" % (p, jstr("w" * o["n"]))
        if t == "pwd": return "File.pwd()"
        if t == "glob":
            k = o["k"]; pt = jstr(o["pat"])
            if k == "dir": return "File.glob(%s,{dir:%s,tails:true})" % (pt, p)
            if k == "types": return "File.glob(%s,{dir:%s,tails:true,types:'%s'})" % (pt, p, o["ty"])
            if k == "rtyp": return "File.glob(%s,{dir:%s,recurse:true,types:'%s'})" % (pt, p, o["ty"])
            if k == "not": return "File.glob(%s,{dir:%s,tails:true,noTypes:'%s'})" % (pt, p, o["ty"])
            if k == "dep": return "File.glob(%s,{dir:%s,recurse:true,maxDepth:%d})" % (pt, p, o["n"] % 3 + 1)
            if k == "pre": return "File.glob(%s,{dir:%s,tails:true,prefix:'q/'})" % (pt, p)
            if k == "rec": return "File.glob(%s,{dir:%s,recurse:true})" % (pt, p)
            if k == "cnt": return "File.glob(%s,{dir:%s,recurse:true,retCount:true})" % (pt, p)
            if k == "lim": return "File.glob(%s,{dir:%s,recurse:true,limit:%d})" % (pt, p, o["n"])
            if k == "fil": return "File.glob(%s,{dir:%s,tails:true,filter:F1})" % (pt, p)
            if k == "thr": return "(function() { var n=0; return File.glob(%s,{dir:%s,tails:true,filter:function(f) { if (++n==%d) throw 'planned'; return true; }}); }())" % (pt, p, o["n"])
            if k == "dthr": return "(function() { var n=0; return File.glob(%s,{dir:%s,recurse:true,dirFilter:function(f) { if (++n==%d) throw 'planned'; return true; }}); }())" % (pt, p, o["n"])
            if k == "reg": return "File.glob(/^[ab]/,{dir:%s,tails:true})" % p
            if k == "sub": return "File.glob(%s)" % jstr(o["p"] + "/" + o["pat"])
            if k == "two": return "File.glob(%s)" % jstr("*/" + o["pat"])
            if k == "info": return "File.glob(%s,{dir:%s,retInfo:true}).map(function(x) { return [x.name,x.size,x.perms]; })" % (pt, p)
        return "File.%s(%s)" % (t, p)
    def build(self, p):
        sc = Scenario(p["seed"])
        sc.dir("/w/t"); sc.file("/w/o/x", b"outside"); sc.file("/w/o/y", b"outside too")
        js0 = []
        for t, q, x in p["pre"]:
            if t == "d": sc.dir("/w/t" + q)
            elif t in "pcb": js0.append("File.mknod(%s,%d,%d);" % (jstr("/w/t" + q), {"p": 0o10644, "c": 0o20600, "b": 0o60600}[t], x))
            elif t == "f": sc.file("/w/t" + q, b"x" * x)
            else: sc.symlink(x, "/w/t" + q)
        js = [JS, *js0, "File.chdir('/w/t'); simtree('/');"]
        for i, o in enumerate(p["ops"]): js.append("Q(%d,function() { return %s; });" % (i, self.js(o)))
        js.append("simlog('END');")
        sc.phase("\n".join(js)); sc.set(tick_ns=2000, p_edge=0, uid_root=1)
        return sc
    # ---- the model ----
    def apply(self, fs, o, out):
        """change fs as the operation should; raises Err when it must fail; returns the expected value"""
        t = o["t"]; P = o.get("p"); base = None
        if t == "remove":
            try: p, n, nm, tr = fs.need(P, None)
            except Err as x:
                try: there = fs.walk(P, False)[1] is not None
                except Err as y: there = str(y) == "ELOOP"
                if o["f"] and not there: return "any"
                raise
            if nm in (".", ".."): raise Err("EINVAL")
            if n.t == "d":
                if n.ents and not o["f"]: raise Err("ENOTEMPTY")
                if n is fs.root: raise Err("EBUSY")
            elif tr: raise Err("ENOTDIR")
            del p.ents[nm]; return "any"
        if t == "rename":
            if not o["f"] and self.lex(fs, o["q"]): raise Err("EEXIST")
            p, n, nm, tr = fs.need(P, None); p2, n2, nm2, tr2 = fs.walk(o["q"], None)
            if n is n2: return "any"
            if nm in (".", "..") or nm2 in (".", ".."): raise Err("EBUSY")
            if n.t == "d":
                d = p2
                while True:
                    if d is n: raise Err("EINVAL")
                    if d is fs.root: break
                    d = d.parent
            elif tr2: raise Err("ENOTDIR")
            if n2 is not None:
                if n2.t == "d":
                    if n.t != "d": raise Err("EISDIR")
                    if n2.ents: raise Err("ENOTEMPTY")
                elif n.t == "d": raise Err("ENOTDIR")
            del p.ents[nm]; p2.ents[nm2] = n
            if n.t == "d": n.parent = p2
            return "any"
        if t == "mkdir":
            if not o["f"]: fs.create(P.rstrip("/") or "/", "d", 0o755); return "any"
            return self.mkall(fs, P)
        if t == "link":
            if o["h"]:
                p, n, nm, tr = fs.need(P, False)
                if n.t == "d": raise Err("EPERM")
                p2, n2, nm2, tr2 = fs.walk(o["q"], None)
                if n2 is not None or tr2: raise Err("EEXIST")
                p2.ents[nm2] = n; return "any"
            if o["q"].endswith("/"): raise Err("ENOENT")
            fs.create(o["q"], "l", 0o777, P.encode()); return "any"
        if t == "chmod": fs.need(P, True)[1].mode = o["m"]; return "any"
        if t == "truncate":
            n = fs.need(P, True)[1]
            if n.t == "d": raise Err("EISDIR")
            if n.t != "f": raise Err("EINVAL")
            if not 0 <= o["n"] < 1 << 32: raise Err("EINVAL")
            n.data = n.data[:o["n"]].ljust(o["n"], b"\0"); return "any"
        if t == "mknod":
            if P.endswith("/"): raise Err("ENOENT")
            kind = {0o10: "f", 0o01: "p", 0o02: "c", 0o06: "b"}[o["m"] >> 12]
            fs.create(P, kind, o["m"] & 0o777 & ~0o022, b"", o["d"] if kind in "cb" else 0); return "any"
        if t == "write":
            p, n, nm, tr = fs.walk(P, True)
            if n is None:
                if tr: raise Err("EISDIR")
                fs.new -= 1
                from vlib.fsmodel import Node
                p.ents[nm] = Node("f", 0o644, fs.new, b"w" * o["n"]); return "any"
            if n.t == "d": raise Err("EISDIR")
            if n.t != "f": raise Err("skip")
            n.data = b"w" * o["n"]; return "any"
        if t == "chdir":
            p, n, nm, tr = fs.need(P, True)
            if n.t != "d": raise Err("ENOTDIR")
            fs.cwd = fs.canon(n); return "any"
        if t == "pwd": return fs.cwd
        if t in ("exists", "isdir", "isfile", "readable", "executable", "owned", "mtime"):
            n = fs.get(P, True)
            if t == "exists": return n is not None
            if t == "isdir": return n is not None and n.t == "d"
            if t == "isfile": return n is not None and n.t == "f"
            if t == "readable": return n is not None
            if t == "executable": return n is not None and (n.t == "d" or bool(n.mode & 0o111))
            if t == "owned": return n is not None
            return "any"
        if t == "size":
            n = fs.need(P, True)[1]; return 4096 if n.t == "d" else len(n.data)
        if t == "perms":
            n = fs.get(P, True); return self.perms(n) if n is not None else "any"
        if t in ("stat", "lstat"):
            n = fs.need(P, t == "stat")[1]
            return {"size": 4096 if n.t == "d" else len(n.data), "perms": self.perms(n), "ino": n.ino, "rdev": n.rdev}
        if t == "readlink":
            n = fs.need(P, False)[1]
            if n.t != "l": raise Err("EINVAL")
            return n.data.decode()
        if t == "realpath":
            n = fs.get(P, True)
            if n is None: return "any"
            p, n, nm, tr = fs.need(P, True); return fs.canon(n, p, nm)
        raise Exception(t)
    def lex(self, fs, q):
        return fs.get(q, False) is not None
    def perms(self, n):
        s = {"f": "-"}.get(n.t, n.t); m = n.mode
        s += "r" if m & 0o400 else "-"; s += "w" if m & 0o200 else "-"; s += ("s" if m & 0o100 else "S") if m & 0o4000 else "x" if m & 0o100 else "-"
        s += "r" if m & 0o40 else "-"; s += "w" if m & 0o20 else "-"; s += ("s" if m & 0o10 else "S") if m & 0o2000 else "x" if m & 0o10 else "-"
        s += "r" if m & 4 else "-"; s += "w" if m & 2 else "-"; s += ("t" if m & 1 else "T") if m & 0o1000 else "x" if m & 1 else "-"
        return s
    def mkall(self, fs, P):
        comps = [c for c in P.split("/") if c]; cur = "/" if P.startswith("/") else ""
        for c in comps:
            cur = cur + c
            n = fs.get(cur, True)
            if n is None: fs.create(cur, "d", 0o755)
            elif n.t != "d": raise Err("ENOTDIR")
            cur += "/"
        return "any"
    def glob(self, fs, o):
        """-> expected list/count, or raises Err; None: not predicted"""
        k = o["k"]; pat = o["pat"]
        m = lambda n: fnmatch.fnmatchcase(n, pat) and not n.startswith(".")
        if k == "two":
            d = fs.get(fs.cwd, True)
            if any(v.t == "l" for v in d.ents.values()): return None
            return sorted("%s/%s" % (x, n) for x, v in d.ents.items() if v.t == "d" and x[0] != "." for n in self.ls(fs, v) if m(n) and (pat == "*" or True))
        n = fs.get(o["p"], True)
        if n is None or n.t != "d": raise Err("ENOENT")
        names = self.ls(fs, n)
        if k in ("dir", "fil", "thr"):
            r = [x for x in names if m(x)]
            if k == "fil": r = [x for x in r if x in ("a", "b", "d")]
            if k == "thr" and len(r) >= o["n"]: raise Err("planned")
            return sorted(r)
        if k == "reg": return sorted(x for x in names if x[0] in "ab")
        if k == "sub": return sorted(self.subname(fs, o["p"], x) for x in names if m(x))
        ty = lambda d, x: "d" if self.isdir(fs, d, x) else d.ents[x].t
        if k == "types": return sorted(x for x in names if m(x) and ty(n, x) in o["ty"])
        if k == "not": return sorted(x for x in names if m(x) and ty(n, x) not in o["ty"])
        if k == "pre": return sorted("q/" + x for x in names if m(x))
        if k == "info":
            return None if any(n.ents[x].t == "l" for x in names) else sorted([x, 4096 if n.ents[x].t == "d" else len(n.ents[x].data), self.perms(n.ents[x])] for x in names if m(x))
        # recursive forms
        out = []; dirs = []
        def rec(d, pre, up):
            if any(u is d for u in up) or len(up) > (o["n"] % 3 + 1 if k == "dep" else 40): return
            for x in self.ls(fs, d):
                if x[0] == ".": continue
                w = v = d.ents[x]
                if v.t == "l": v = self.target(fs, d, x)
                if v.t == "d": dirs.append(pre + x); rec(v, pre + x + "/", up + [d])
                if m(x) and (k != "rtyp" or ("d" if v.t == "d" else w.t) in o["ty"]): out.append(pre + x)
                if len(out) > 400: raise KeyError
        try: rec(n, "", [])
        except KeyError: return None
        if k == "cnt": return len(out)
        if k == "lim": return min(o["n"], len(out))
        if k == "dthr":
            if len(dirs) >= o["n"]: raise Err("planned")
        return sorted(out)
    def subname(self, fs, p, x):
        full = p + "/" + x; c = fs.cwd
        return full[len(c):].lstrip("/") if full.startswith(c + "/") and p.startswith("/") else full
    def target(self, fs, d, x):
        v = d.ents[x]
        if v.t == "l":
            try: v = fs._walk(d, v.data.decode(), True, 1)[1]
            except Err: return None
        return v
    def isdir(self, fs, d, x):
        v = self.target(fs, d, x)
        return v is not None and v.t == "d"
    def ls(self, fs, d):
        """listed names: links to nothing are left out"""
        r = []
        for x, v in d.ents.items():
            if v.t == "l":
                try: w = fs._walk(d, v.data.decode(), True, 1)[1]
                except Err: w = None
                if w is None: continue
            r.append(x)
        return sorted(r)
    def oracle(self, p, r):
        trees = []; cur = []; res = []; evs = []; cwd = "/w/t"; end = False
        fs = None; n = 0; v = []
        for e in r.events:
            if e.kind == "TREE": cur.append(e.rest)
            elif e.kind == "TREEEND":
                try: t = FS.parse(cur, unesc)
                except Exception as x: return [("simulator", "bad tree %r" % x)]
                cur = []; t.cwd = cwd
                if fs is None: fs = t; fs.cwd = cwd; evs = []; continue
                if not res: return [("simulator", "tree without a result")]
                k, i, val = res.pop(); o = p["ops"][i]
                m = self.step(p, o, fs, t, k, val, evs)
                if m: return [m]
                if o["t"] == "chdir" and k == "R":
                    f2 = fs.copy()
                    try: self.apply(f2, o, None)
                    except Err: pass
                    cwd = f2.cwd
                fs = t; fs.cwd = cwd; evs = []; n += 1
                if fs.get(cwd, True) is None: return []   # the working directory itself was removed
            elif e.kind == "J":
                a = e.js()
                if a[0] in ("R", "X"): res.append((a[0], a[1], None if len(a) < 3 else json.loads(a[2]) if isinstance(a[2], str) and a[2].startswith("{ ") else a[2]))
                elif a[0] == "END": end = True
            else: evs.append(e)
        if not end or n != len(p["ops"]): return [("died", "the program stopped after %d of %d operations: %s" % (n, len(p["ops"]), repr(r.events[-4:])[:300]))]
        fd = r.of("FDS")
        if fd and not fd[0].rest.startswith("open=0 "): return [("fd-leak", "descriptors left open: " + fd[0].rest)]
        return []
    def step(self, p, o, pre, post, k, val, evs):
        t = o["t"]; flt = faulted(evs); what = "%s" % self.js(o)[:120]
        a = pre.flat(); b = post.flat()
        if t == "glob":
            if not same(b, a): return ("query-changed", "%s changed the tree: %s" % (what, diff(b, a)))
            try: want = self.glob(pre, o)
            except Err as x:
                if k == "R" and not flt: return ("glob-error", "%s returned %s, it must fail (%s)" % (what, str(val)[:100], x))
                return None
            if want is None or o["k"] in ("rec", "cnt", "lim", "dthr", "rtyp", "dep") and any(e.kind == "FAULT" and e.rest.startswith(("stat", "lstat")) for e in evs): return None
            typ = any(e.kind == "FAULT" and e.rest.startswith("readdir") and "kind=3" in e.rest for e in evs)
            if typ and any(e.kind == "FAULT" and e.rest.startswith("lstat") for e in evs): return None
            if o["k"] == "sub" and any(e.kind == "FAULT" and e.rest.startswith("getcwd") for e in evs): return None
            if k == "X": return None if flt else ("glob", "%s raised %s" % (what, val))
            err = any(e.kind == "FAULT" and not (e.rest.startswith("readdir") and "kind=3" in e.rest) for e in evs)
            got = sorted(val) if isinstance(val, list) else val
            if o["k"] == "lim":
                if not isinstance(val, list) or len(val) > want or len(val) < want and not err or len(set(val)) != len(val): return ("glob", "%s returned %s, %s entries exist" % (what, str(val)[:100], want))
                return None
            if got != want:
                if err and (o["k"] == "cnt" and got <= want or isinstance(got, list) and all(x in want for x in got)): return None
                return ("glob", "%s returned %s, expected %s" % (what, str(got)[:120], str(want)[:120]))
            return None
        if t == "tempfile":
            if k == "X":
                new = set(b) - set(a)
                d = pre.get(o["p"].rsplit("/", 1)[0] if "/" in o["p"] else pre.cwd)
                if not flt and o["p"].endswith("XXXXXX") and d is not None and d.t == "d": return ("spurious", "%s raised %s" % (what, val))
                if not same(b, a): return ("partial", "%s raised but left %s" % (what, diff(b, a)))
                return None
            new = set(b) - set(a); c = {q: x for q, x in b.items() if q not in new}
            full = val if val.startswith("/") else pre.cwd + "/" + val
            if len(new) != 1 or not same(c, a): return ("tempfile", "%s made %s" % (what, sorted(new)))
            q = new.pop()
            if pre.walk(val, False)[1] is not None or post.get(val, False) is None or b[q][:3] != ("f", 0o600, b"") or not val.startswith(o["p"][:-6]): return ("tempfile", "%s returned %s and made %s" % (what, val, q))
            return None
        f2 = pre.copy()
        try: want = self.apply(f2, o, None); ok = True; why = ""
        except Err as x: ok = False; why = str(x)
        if why == "skip": return None
        eff = f2.flat() if ok else None
        if k == "R":
            if not ok:
                if t in ("mtime",): return None
                return ("false-success", "%s reported success although it cannot have been done (%s)" % (what, why))
            if not same(b, eff): return ("not-done" if same(b, a) else "wrong-effect", "%s reported success but %s" % (what, diff(b, eff)))
            if want != "any":
                if isinstance(want, dict):
                    if any(val.get(x) != y for x, y in want.items() if not (x == "ino" and y <= 0)): return ("value", "%s returned %s, expected %s" % (what, str(val)[:200], want))
                elif val != want:
                    if flt and (want is True and val is False or t in ("perms", "realpath")): return None
                    return ("value", "%s returned %r, expected %r" % (what, val, want))
            return None
        # the operation raised
        if ok and not flt and not self.maybe(o, pre): return ("spurious", "%s raised %r although nothing failed" % (what, val))
        if val in (None, "", "undefined"): return ("no-reason", "%s raised an error without saying why" % what)
        if same(b, a): return None
        if ok and same(b, eff): return None
        if t == "remove" and o["f"] and ok:
            gone = set(a) - set(eff)
            if set(b) <= set(a) and set(a) - set(b) <= gone and all(b[q][:5] == a[q][:5] for q in b): return None
        if t == "mkdir" and o["f"]:
            new = set(b) - set(a)
            c = {q: x for q, x in b.items() if q not in new}
            f3 = pre.copy()
            try: self.mkall(f3, o["p"])
            except Err: pass
            e3 = f3.flat()
            if same(c, a) and all(b[q][0] == "d" and q in e3 for q in new): return None
        if t == "write" and ok:
            d = {q for q in set(a) | set(b) if a.get(q) != b.get(q)}; f4 = {q for q in set(a) | set(eff) if a.get(q) != eff.get(q)}
            if d <= f4: return None
        return ("partial", "%s raised %r but left the tree changed: %s" % (what, val, diff(b, a)))
    def maybe(self, o, fs):
        """failures a caller has to expect"""
        t = o["t"]
        if t == "remove" and o["f"]:   # the way to it leads through it
            n = fs.get(o["p"], False); c = fs.get(fs.cwd, True); ways = [c]
            comps = o["p"].split("/")
            for i in range(1, len(comps)):
                q = "/".join(comps[:i]); ways.append(fs.get(q, True) if q else fs.root)
            for w in ways:
                while w is not None and w.t == "d":
                    if w is n: return True
                    if w is fs.root: break
                    w = w.parent
        if t in ("write", "truncate", "mkdir") and ("//" in o["p"] or o["p"].endswith("/")): return True
        return False
    def tags(self, p, r):
        for e, a in r.js():
            if a[0] in ("R", "X") and a[1] < len(p["ops"]): yield p["ops"][a[1]]["t"] + "-" + a[0]
CHECK = C()
