"""C20 the test runner (jsish -u): a test passes exactly when it ran and printed what its EXPECT block says; the status is the number of failed tests; update writes the output and nothing else."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_SHORT, F_EINTR, unesc
from vlib.fgen import gdata
import json, errno, re, os
E = errno
LIB = os.path.join(os.environ.get("SIM_REPO", "/repo"), "lib")
EXPR = [("1+2", "3"), ("'a'+1", "a1"), ("\"q'r\"", "q'r"), ("[1,2].length", "2"), ("/b/.test('abc')", "true"), ("/^b/.test('abc')", "false"), ("{a:1}", "{ a:1 }"), ("null", "null"), ("undefined", "undefined"),
        ("'%d%s'+5", "%d%s5"), ("typeof GG", "undefined"), ("(function(x) { return x*2; })(4)", "8"), ("true && 0", "0"), ("\"é\".length", "1"), ("'x y' ", "x y"), ("Math.max(3,9)", "9"), ("'abc'.indexOf('c')", "2")]
THR = [("throw 'x'", "x"), ("throw \"a b\"", "a b"), ("throw 'é%d'", "é%d"), ("throw 1+1", "2"), (" throw 'sp' ", "sp")]
def txt(rng):
    n = rng.choice([0, 1, 2, 5, 12, 30, 80, 200]) if rng.random() < .9 else rng.choice([1023, 4096, 9000])
    return "".join(rng.choice("abcdef XYZ019.,:!-+=%$#@(){}[]<>/?|é€") for _ in range(n)).replace("*/", "").replace("=!", "")
class C(Check):
    pid = "C20"
    quick_s = 30
    rule = ("generated directories and lists of test files (printing, test lines, expected throws, input, arguments, assertions, timers, sourced files, globals, uncaught errors, exit) whose EXPECT block is exact, absent or altered, run by the real "
            "test runner through main() with its options, checked, updated and checked again; undisturbed and with failing and short reads, writes, directory reads and output; distinct by full event trace")
    fault_classes = {"open": [(F_ERR, [E.EACCES, E.EMFILE, E.EIO])], "read": [(F_ERR, [E.EIO]), (F_SHORT, [1, 7, 100]), (F_EINTR, [0])], "write": [(F_ERR, [E.ENOSPC, E.EIO]), (F_SHORT, [1, 7]), (F_EINTR, [0])], "stat": [(F_ERR, [E.EIO])],
                     "lstat": [(F_ERR, [E.EIO])], "close": [(F_ERR, [E.EIO])], "opendir": [(F_ERR, [E.EACCES, E.EMFILE])], "readdir": [(F_ERR, [E.EIO])], "stdout": [(F_ERR, [E.ENOSPC, E.EIO])], "stdin": [(F_ERR, [E.EIO])]}
    max_variants = 4
    def gen(self, rng, i):
        nf = rng.choice([1, 1, 2, 3, 4, 6]); isdir = rng.random() < .5
        files = []
        for k in range(nf):
            body = []; opened = 0
            for _ in range(rng.randint(0, 8)):
                c = rng.choice(["puts"] * 5 + ["two", "printf", "expr", "expr", "expr", "thr", "thr", "nothr", "com", "in", "in", "args", "args", "assert", "asok", "timer", "src", "glob", "glob", "fn", "try", "long", "pad", "env"])
                body.append([c, txt(rng), rng.randrange(1000)])
            if rng.random() < .06: body.append(["big", txt(rng)[:12], rng.randrange(1000)])
            end = rng.choice(["fall"] * 8 + ["throw", "err", "syntax", "exit", "nosrc"])
            ex = rng.choice(["exact"] * 6 + ["none", "chr", "chr", "last", "line", "dup", "extra", "empty", "swap", "space", "case"])
            files.append({"name": "t%02d%s" % (k, rng.choice(["", "x", "_é"][:2])), "ext": rng.choice([".jsi", ".jsi", ".js"]), "body": body, "end": end, "ex": ex, "exk": rng.randrange(10000), "code": rng.choice([0, 1, 3]),
                          "inp": [txt(rng)[:300] for _ in range(rng.randint(0, 4))] if rng.random() < .45 else None, "inl": rng.random() < .8, "args": rng.choice([None, None, None, "a", "-x 1", "b c d"]), "pos": rng.choice(["end", "end", "start"])})
        mode = rng.choice(["check", "check", "check", "update", "update", "show"]) if nf > 1 or isdir else rng.choice(["check", "check", "update", "show"])
        return {"seed": rng.randrange(1 << 30), "cfg": {}, "files": files, "isdir": isdir, "mode": mode, "want_faults": 4, "order": rng.sample(range(nf), nf),
                "silent": rng.random() < .2, "context": rng.choice([None, 0, 1, 3]), "failmax": rng.choice([0, 0, 0, 1, 2]), "oargs": rng.choice([None] * 5 + ["o p"]), "infile": rng.choice([None] * 6 + ["in1\nin2\n"]), "force": rng.random() < .4,
                "evalf": rng.random() < .12, "expf": rng.random() < .1, "verbose": rng.random() < .1, "other": rng.random() < .4, "stdin": rng.choice(["", "real1\nreal2\n"]), "rel": rng.random() < .5, "bad": rng.choice([None] * 10 + ["missing", "ext"])}
    # --- what one test file is, and prints ---
    def plan(self, p, f):
        """(body text, output or None when it ends with an error)"""
        js = []; out = []; inp = None
        src = f["inp"]
        if p["infile"]: inp = p["infile"].split("\n")[:-1]
        elif src: inp = ("\n".join(src) + ("\n" if f["inl"] else "")).split("\n"); inp = inp[:-1] if inp[-1] == "" else inp
        inp = list(inp) if inp is not None else None; defd = False; gl = 0
        args = p["oargs"] or f["args"] or ""
        if p["evalf"]: out.append("EV\n")
        for n, (c, t, k) in enumerate(f["body"]):
            q = json.dumps(t, ensure_ascii=False)
            if c == "puts": js.append("puts(%s);" % q); out.append(t + "\n")
            elif c == "two": js.append("puts(%s,%d);" % (q, k)); out.append("%s %d\n" % (t, k))
            elif c == "printf": js.append("printf('%%s',%s);" % q); out.append(t)
            elif c == "expr": x, y = EXPR[k % len(EXPR)]; js.append(";%s%s;" % (" " if k & 64 else "", x)); out.append("%s ==> %s\n" % (x, y))
            elif c == "thr": x, y = THR[k % len(THR)]; js.append(";//%s;" % x); out.append("%s ==>\n[PASS]!: err = %s\n" % (x.lstrip(), y))
            elif c == "nothr": js.append(";//%d+1;" % k); out.append("%d+1 ==>\n[FAIL]!: expected a throw\n\n" % k)
            elif c == "com": js.append(";'note %d';" % k); out.append("'note %d'\n" % k)
            elif c == "in" and inp is not None:
                js.append("var s%d=console.input(); puts(s%d===undefined?'EOF':'['+s%d+']');" % (n, n, n))
                out.append("[%s]\n" % inp.pop(0) if inp else "EOF\n")
            elif c == "args": js.append("puts(console.args.join('|'));"); out.append("|".join(args.split(" ")) + "\n")
            elif c == "assert": js.append("assert(1==2,'as%d');" % k); out.append("as%d\n" % k)
            elif c == "asok": js.append("assert(1==1,'as%d');" % k)
            elif c == "timer": js.append("setTimeout(function() { puts('tm%d'); },%d); update(60);" % (k, k % 50)); out.append("tm%d\n" % k)
            elif c == "src": js.append("source('/w/s/x.js');"); out.append("sub\n")
            elif c == "glob": js.append("puts(typeof GL); %sGL=%d;" % ("" if gl else "var ", k)); out.append("number\n" if gl else "undefined\n"); gl = 1
            elif c == "fn": js.append("(function(a) { puts('fn',a); })(%d);" % k); out.append("fn %d\n" % k)
            elif c == "try": js.append("try { nosuchfn(); } catch(e) { puts('caught'); };"); out.append("caught\n")
            elif c == "long": js.append("for (var i%d=0;i%d<%d;i%d++) puts('l',i%d,%s);" % (n, n, k % 120, n, n, json.dumps(t[:60], ensure_ascii=False))); out += ["l %d %s\n" % (z, t[:60]) for z in range(k % 120)]
            elif c == "big":
                m = 200 + k * 2; js.append("for (var i%d=0;i%d<%d;i%d++) puts('line',i%d,%s);" % (n, n, m, n, n, json.dumps(t, ensure_ascii=False))); out += ["line %d %s\n" % (z, t) for z in range(m)]
            elif c == "pad": js.append("// %s" % t)
            elif c == "env": js.append("puts(Info.isMain()===true||Info.isMain()===false);"); out.append("true\n")
        e = f["end"]; err = False
        if e == "throw": js.append("throw 'boo';"); err = True
        elif e == "err": js.append("nosuchfn(1);"); err = True
        elif e == "syntax": js.append("var x = (;"); err = True
        elif e == "nosrc": js.append("source('/w/s/none.js');"); err = True
        elif e == "exit": js.append("exit(%d);\nputs('NOT REACHED');" % f["code"])
        return "\n".join(js) + "\n", None if err else "".join(out), e
    def expect(self, f, out):
        """the text of the EXPECT block (None: no block)"""
        k = f["exk"]; x = f["ex"]; o = out if out is not None else "never\n"
        ls = o.splitlines(True)
        if x == "none": return None
        if x == "chr" and o: n = k % len(o); return o[:n] + ("Q" if o[n] != "Q" else "R") + o[n+1:]
        if x == "last" and o: return o[:-1]
        if x == "line" and ls: n = k % len(ls); return "".join(ls[:n] + ls[n+1:])
        if x == "dup" and ls: n = k % len(ls); return "".join(ls[:n+1] + ls[n:])
        if x == "extra": return o + "more\n"
        if x == "empty": return ""
        if x == "swap" and len(ls) > 1: n = k % (len(ls) - 1); ls[n], ls[n+1] = ls[n+1], ls[n]; return "".join(ls)
        if x == "space" and ls: n = k % len(ls); ls[n] = ls[n].rstrip("\n") + " \n"; return "".join(ls)
        if x == "case" and o: return o.swapcase()
        return o
    def text(self, p, f):
        """(file text, prefix, expect, postfix, output, end)"""
        b, out, e = self.plan(p, f); ex = self.expect(f, out)
        blocks = ""
        if f["inp"] is not None: blocks += "/*\n=!INPUTSTART!=\n%s%s=!INPUTEND!=\n*/\n" % ("\n".join(f["inp"]), "\n" if f["inl"] and f["inp"] else "")
        if f["args"]: blocks += "/*\n=!ARGSTART!=\n%s\n=!ARGEND!=\n*/\n" % f["args"]
        if ex is None: return b + blocks, None, out, e
        blk = ["/*\n=!EXPECTSTART!=\n", ex, "=!EXPECTEND!=\n*/\n"]
        if f["pos"] == "start": pre, post = blk[0], blk[2] + b + blocks
        else: pre, post = b + blocks + "\n" + blk[0], blk[2]
        return pre + ex + post, (pre, ex, post), out, e
    def names(self, p):
        d = "/w/d/"; r = sorted(range(len(p["files"])), key=lambda i: p["files"][i]["name"] + p["files"][i]["ext"]) if p["isdir"] else [i for i in p["order"] if i < len(p["files"])]
        return [(i, d + p["files"][i]["name"] + p["files"][i]["ext"]) for i in r]
    def args(self, p, mode):
        a = ["-u"]
        if mode == "update": a += ["-update", "true"]
        if mode == "update" and p["force"]: a += ["-force", "true"]
        if mode == "show": a += ["-show", "true"]
        if p["silent"]: a += ["-silent", "true"]
        if p["context"] is not None: a += ["-context", str(p["context"])]
        if p["failmax"]: a += ["-failMax", str(p["failmax"])]
        if p["oargs"]: a += ["-args", p["oargs"]]
        if p["infile"]: a += ["-inFile", "/w/in.txt"]
        if p["evalf"]: a += ["-evalFile", "/w/s/ev.js"]
        if p["expf"]: a += ["-expectFile", "/w/exp.txt"]
        if p["verbose"] and mode != "show": a += ["-verbose", "true"]
        n = [x for _, x in self.names(p)]
        if p["isdir"]: n = ["/w/d"]
        elif p["bad"]: n = n + ["/w/d/none.jsi" if p["bad"] == "missing" else "/w/d/other.txt"]
        if p["rel"]: n = [x[3:] for x in n]
        return a + n
    def modes(self, p): return {"check": ["check"], "update": ["update", "check", "update"], "show": ["show"]}[p["mode"]]
    def build(self, p):
        sc = Scenario(p["seed"])
        for n in os.listdir(LIB):
            f = os.path.join(LIB, n)
            if os.path.isfile(f): sc.file("/lib/" + n, open(f, "rb").read())
        sc.dir("/w"); sc.dir("/w/d"); sc.dir("/tmp"); sc.dir("/w/s"); sc.file("/w/jsish", b"x")
        for f in p["files"]: sc.file("/w/d/%s%s" % (f["name"], f["ext"]), self.text(p, f)[0].encode())
        sc.file("/w/s/x.js", b"puts('sub');\n"); sc.file("/w/s/ev.js", b"puts('EV');\n")
        if p["infile"]: sc.file("/w/in.txt", p["infile"].encode())
        if p["expf"]: sc.file("/w/exp.txt", b"EXPF\n")
        if p["other"]: sc.file("/w/d/other.txt", b"puts(1);\n"); sc.dir("/w/d/sub"); sc.file("/w/d/sub/z.jsi", b"throw 1;\n")
        elif p["bad"] == "ext": sc.file("/w/d/other.txt", b"puts(1);\n")
        sc.stdin = p["stdin"].encode(); sc.cwd = "/w"; sc.dump = "/w/d"
        for k, v in p["cfg"].items(): sc.set(**{k: v})
        for m in self.modes(p): sc.phase("", ["--E", "Interp.conf({pkgDirs:['/lib']}); require('Testing');"] + self.args(p, m), kind=3)
        return sc
    # --- judging ---
    def model(self, p, mode, txts):
        """what one run does: list of (index, name, verdict), number of failures, whether it ends by an error; txts is brought up to date"""
        res = []; fails = 0
        for i, name in self.names(p):
            f = p["files"][i]; full, parts, out, end = self.text(p, f)
            if i in txts: parts = txts[i]
            if mode == "show": res.append((i, name, "show")); continue
            exp = parts[1] if parts else None
            b = self.plan(p, f)[0]
            if exp is None and mode == "check" and (b.startswith(";//") or "\n;//" in b): v = "FAIL"
            elif out is None: v = "FAIL"
            elif mode == "update":
                if "\n[FAIL]!:" in out and not p["force"]: v = "REFUSE"
                else:
                    if parts is None: np = (full + "\n/*\n=!EXPECTSTART!=\n", out, "=!EXPECTEND!=\n*/\n"); v = "Created"
                    else: np = (parts[0], out, parts[2]); v = "Updated" if np != parts else "Unchanged"
                    txts[i] = np
            else:
                if exp is None and p["expf"]: exp = "EXPF\n"
                v = "PASS" if exp is None or exp == out else "FAIL"
            res.append((i, name, v))
            if v in ("FAIL", "REFUSE"): fails += 1
            if p["failmax"] and fails >= p["failmax"]: break
        else:
            if p["bad"] and not p["isdir"]: return res, fails, True
        return res, fails, False
    def oracle(self, p, r):
        v = []
        ph = []; cur = None
        for e in r.events:
            if e.kind == "PHASE": cur = {"out": b"", "exit": None, "f": [], "err": b""}; ph.append(cur)
            elif cur is not None:
                if e.kind == "STDOUT": cur["out"] += unesc(e.rest)
                elif e.kind == "STDERR": cur["err"] += unesc(e.rest)
                elif e.kind == "EXIT": cur["exit"] = int(e.rest.split()[0])
                elif e.kind == "FAULT": cur["f"].append((e.rest.split()[0], int(re.search(r"kind=(\d+)", e.rest).group(1))))
        txts = {}; names = {x["name"]: 1 for x in p["files"]}
        disturbed = False
        for m, c in zip(self.modes(p), ph):
            before = dict(txts)
            res, fails, raises = self.model(p, m, txts)
            hard = any(k == F_ERR for _, k in c["f"])
            if c["exit"] is None: return [("no-exit", "the run of %s did not end by exit" % m)]
            if hard or disturbed:
                disturbed = True
                if m == "check" and not any(x != "check" for x in self.modes(p)):
                    got = self.seen(p, c["out"])
                    for i, name, w in res:
                        if got.get(name) == "PASS" and w != "PASS": v.append(("false-pass", "%s passed, with a failing system call, although it should fail" % name))
                    if c["exit"] == 0 and (fails or raises): v.append(("status", "exit status 0 with %d failed tests and failing system calls" % fails))
                    if c["exit"] == 0 and not p["silent"]:
                        for i, name, w in res:
                            if got.get(name) != "PASS": v.append(("lost", "exit status 0, a system call failed, and %s was not reported as passed" % name))
                if m == "update" and m == self.modes(p)[0] and c["exit"] == 0 and fails == 0 and len(self.modes(p)) == 3:
                    # what was said to be updated is: the file contents come from the end, and later runs only repeat it
                    if any(self.seen(p, c["out"]).get(n) not in ("Created", "Updated", "Unchanged") for _, n, _ in res): v.append(("lost", "exit status 0, a system call failed, and a file was not reported as updated"))
                continue
            if m == "show":
                i, name = self.names(p)[0]; out = [self.text(p, p["files"][i])[2] for i, _ in self.names(p)]
                if None not in out and not raises:
                    want = "".join(o + "\n" if len(out) == 1 or p["silent"] else "Test %s %s\n" % (n[3:] if p["rel"] or p["isdir"] else n, o) for o, (_, n) in zip(out, self.names(p))).encode()
                    body = c["out"]
                    if len(out) > 1 and not p["silent"]: body = re.sub(rb"\d+ FAIL, \d+ PASS: runtime \d+ ms\n$", b"", body)
                    if body != want: v.append(("show", "showing the tests printed %d bytes, should be %d" % (len(body), len(want)) + " %r %r" % (body[:80], want[:80])))
                    if c["exit"] != 0 and not p["bad"]: v.append(("status", "showing ended with status %d" % c["exit"]))
                continue
            got = self.seen(p, c["out"])
            for i, name, w in res:
                g = got.get(name)
                if w == "REFUSE":
                    if g in ("Created", "Updated"): v.append(("update", "%s, with a failed expectation in its output, was updated without force" % name))
                    continue
                if p["silent"] and w == "PASS":
                    if g not in (None, "PASS"): v.append(("verdict", "%s: %s, should be %s" % (name, g, w)))
                    continue
                if g != w: v.append(("verdict", "%s: %s, should be %s (output %d bytes, block %s)" % (name, g, w, len(self.text(p, p["files"][i])[2] or ""), p["files"][i]["ex"])))
            ran = {n for _, n, _ in res}
            for n in got:
                if n not in ran: v.append(("extra", "%s was run and should not be" % n))
            if raises:
                if c["exit"] == 0: v.append(("status", "exit status 0 although a file could not be run"))
            elif c["exit"] != fails: v.append(("status", "exit status %d, should be %d" % (c["exit"], fails)))
            elif not p["silent"] and len(res) > 1 and b"%d FAIL, %d PASS" % (fails, len(res) - fails) not in c["out"]: v.append(("summary", "the summary is not %d FAIL, %d PASS" % (fails, len(res) - fails)))
        if v: return v
        if disturbed and p["mode"] == "update":
            # where every update said it was done, the files hold what it said
            for m, c in zip(self.modes(p), ph):
                if m != "update": continue
                got = self.seen(p, c["out"])
                if c["exit"] != 0 or any(got.get(n) not in ("Created", "Updated", "Unchanged") for i, n in self.names(p)): return v
            txts = {}; self.model(p, "update", txts)
        return v + self.files(p, r, txts)
    def seen(self, p, out):
        got = {}
        for a, b in re.findall(rb"\r(\[PASS\]|\[FAIL\]|Created|Updated|Unchanged) (\S+)", out): got["/w/d/" + b.decode().split("/")[-1]] = a.decode().strip("[]")
        for b in re.findall(rb"\[FAIL\]!: (\S+): Exceptions require", out): got["/w/d/" + b.decode().split("/")[-1]] = "FAIL"
        return got
    def files(self, p, r, txts):
        v = []; fs = r.fs()
        for i, name in self.names(p):
            want = ("".join(txts[i]) if i in txts else self.text(p, p["files"][i])[0]).encode()
            got = fs.get(name)
            got = got if isinstance(got, (bytes, type(None))) else got[-1] if isinstance(got, (tuple, list)) else got
            if isinstance(got, str) and len(want) > 65536:      # the trace holds a hash of large files
                f = 1469598103934665603
                for b in want: f = ((f ^ b) * 1099511628211) & 0xffffffffffffffff
                if got == "#%x" % f: continue
            if got != want: v.append(("file", "%s holds %s bytes, should be %d%s" % (name, len(got) if got is not None else None, len(want), "" if got is None else ": %r instead of %r" % self.dif(got, want))))
        return v
    @staticmethod
    def dif(a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
        return a[n:n+40], b[n:n+40]
    def tags(self, p, r): return ["mode:" + p["mode"]] + ["%s" % w for m in self.modes(p)[:1] for _, _, w in self.model(p, m, {})[0]]
    def shrink(self, p):
        for i in range(len(p["files"])):
            if len(p["files"]) > 1: yield dict(p, files=p["files"][:i] + p["files"][i+1:])
            for j in range(len(p["files"][i]["body"])):
                q = json.loads(json.dumps(p)); q["files"][i]["body"].pop(j); yield q
            for j, b in enumerate(p["files"][i]["body"]):
                if len(b[1]) > 2: q = json.loads(json.dumps(p)); q["files"][i]["body"][j][1] = "a"; yield q
            for k, z in (("inp", None), ("args", None), ("ex", "exact"), ("end", "fall")):
                if p["files"][i][k] != z: q = json.loads(json.dumps(p)); q["files"][i][k] = z; yield q
        for k, z in (("failmax", 0), ("oargs", None), ("infile", None), ("evalf", False), ("expf", False), ("verbose", False), ("other", False), ("context", None), ("bad", None), ("silent", False)):
            if p[k] != z: yield dict(p, **{k: z})
CHECK = C()
