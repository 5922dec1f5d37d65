"""C12 whole program runs: everything printed reaches standard output once, in order; the exit status is true; standard input is read line by line, whole."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_SHORT, F_EINTR, unesc
from vlib.fgen import gdata
import json, errno, re, random
E = errno
def jstr(s): return json.dumps(s, ensure_ascii=False)
PRE = """function IN(q) { var s; try { s=(q?console.input('? '):console.input()); } catch(e) { puts('ERR'); return; }; if (s===undefined) puts('EOF'); else puts('['+s+']'); };
var SO=new Channel('stdout','w');
"""
BANNER = b"Jsish interactive: see 'help [cmd]' or 'history'.  \\ cancels > input.  ctrl-c aborts running script.\n"
AR = ("reduce", "reduceRight", "filter", "some", "every", "find", "findIndex")
MORE = AR + ("sorto", "call", "bind", "cond", "arg", "obj")
CTX = MORE + ("top", "top", "cap", "fn", "each", "try", "fin", "interp", "timer", "src", "nest", "map", "sort", "repl", "new", "apply", "eval", "catch", "swit", "rec", "glob", "sub2")
class C(Check):
    pid = "C12"
    quick_s = 35
    rule = ("a generated program that prints from functions, callbacks, timers, sourced files, sub-interpreters and threads, reads lines from its standard input and ends in every way, run as a script file, a directory, "
            "with -e and from standard input through the real main(); undisturbed and with failing standard output, input and script reads; distinct by full event trace")
    fault_classes = {"stdout": [(F_ERR, [E.ENOSPC, E.EIO, E.EPIPE, E.EINTR])], "stdin": [(F_ERR, [E.EIO, E.EINTR]), (F_SHORT, [1, 5, 100])], "open": [(F_ERR, [E.EACCES, E.EMFILE])], "read": [(F_ERR, [E.EIO]), (F_SHORT, [1, 9])]}
    max_variants = 4
    def gen(self, rng, i):
        mode = rng.choice(["file", "file", "file", "e", "dir", "stdin"])
        inp = []
        if mode != "stdin" and rng.random() < .45:
            for _ in range(rng.randint(1, 6)):
                n = rng.choice([0, 1, 5, 40, 300, 1021, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 5000]) if rng.random() < .5 else rng.randint(0, 80)
                inp.append([n, rng.randrange(1000), rng.choice(["\n"] * 4 + ["\r\n"])])
            if rng.random() < .3: inp[-1][2] = ""
        ops = []
        thr = mode != "stdin" and rng.random() < .2
        for k in range(rng.randint(0, 12)):
            c = rng.choice(CTX) if mode != "stdin" else "top"
            kind = rng.choice(["puts"] * 4 + ["printf", "printf", "so", "soputs", "multi"])
            if inp and rng.random() < .5: kind = "in"
            if mode == "stdin" and rng.random() < .35: c = "ml"
            if thr and rng.random() < .5: c = "thr%d" % rng.randrange(2)
            if thr and kind in ("printf", "so"): kind = "puts"
            if c == "cap" and kind not in ("puts", "multi"): kind = "puts"
            if c[:3] in ("int", "thr", "sub") and kind != "printf": kind = "puts"
            if mode != "stdin" and rng.random() < .06: kind = "ins"; c = "top"
            n = rng.choice([0, 1, 3, 10, 50, 200, 1023, 1024, 4095, 4096, 4097, 9000, 20000]) if rng.random() < .3 else rng.randint(0, 60)
            sk = rng.choice(["txt", "txt", "txt", "utf", "nul"])
            if mode == "stdin":
                n = min(n, 1500)
                if kind[:2] == "so": kind = "puts"
            if c[:3] == "thr" or kind in ("printf", "soputs", "multi", "ins") and sk == "nul": sk = "txt"
            if sk == "nul": n = min(n, 200)
            ops.append({"k": kind, "c": c, "s": [sk, n, rng.randrange(10000)]})
        end = rng.choice(["fall", "fall", "exit", "exit", "exit", "throw", "err", "syntax", "missing"]) if mode != "stdin" else rng.choice(["fall", "exit"])
        if mode == "e" and end == "missing": end = "throw"
        ectx = rng.choice(["top", "fn", "each", "try", "fin", "interp", "timer", "src", "nest", "map", "sort", "repl", "new", "apply", "eval", "catch", "swit", "rec", "glob", *MORE]) if end in ("exit", "throw", "err") and mode != "stdin" else "top"
        if end != "exit" and ectx in ("try", "interp", "timer"): ectx = "fn"
        return {"mode": mode, "ops": ops, "inp": inp, "end": end, "ectx": ectx, "code": rng.choice([0, 1, 2, 3, 42, 126, 127, rng.randint(0, 127)]), "want_faults": True, "seed": rng.randrange(1 << 30),
                "args": [rng.choice(["a", "b c", "-x", "--y=1", "é", "'q'", "a=b", "0"]) for _ in range(rng.choice([0, 0, 1, 3]))], "full": rng.choice([0, 1024, 4096, 65536]), "stop": int(rng.random() < .5), "pre": [rng.choice(["ok", "ok", "throw", "err", "exit", "syntax"]), rng.choice([0, 1, 3, 77, 127])] if mode != "stdin" and rng.random() < .15 else None}
    # --- what the program is and what it must print ---
    def text(self, o):
        k, n, s = o["s"]
        return gdata([k, n, s]).replace(b"\xff", b"z").replace(b"\n", b" ").decode()
    def emit(self, o):
        """(js, bytes)"""
        t = self.text(o); k = o["k"]; lit = "".join("\\u0000" if c == "\0" else jstr(c)[1:-1] if c in "\\\"" else c for c in t); lit = '"%s"' % lit
        if k == "ins": # lines given to a sub-interpreter as its standard input
            return "(function(){ var z=new Interp({stdinStr:%s+'\\n\\n'+%s}); for (var i=0; i<4; i++) { var l=z.eval('return console.input();'); puts(l===undefined?'EOF':'['+l+']'); }; })();" % (lit, jstr("k" * (o["s"][2] % 3))), \
                b"[" + t.encode() + b"]\n[]\n" + (b"[" + b"k" * (o["s"][2] % 3) + b"]\n" if o["s"][2] % 3 else b"EOF\n") + b"EOF\n"
        if k == "in": return "IN(%d);" % (o["s"][2] % 4 == 0), None
        shown = t.replace("\0", "\\0").encode()
        if k == "puts": return "puts(%s);" % lit, shown + b"\n"
        if k == "multi": return "puts(7,%s,true);" % lit, b"7 " + shown + b" true\n"
        if k == "printf":
            r = random.Random(o["s"][2]); f = ""; a = ""; b = b""
            for q in r.choices(["lit", "pct", "s", "ws", "d", "wd", "x", "f", "c", "star", "prec"], k=r.randint(1, 5)) + ["s"]:
                if q == "lit": z = gdata(["utf", r.choice([1, 3, 40]), r.randrange(1000)]).decode(); f += z; b += z.encode(); continue
                if q == "pct": f += "%%"; b += b"%"; continue
                n = r.choice([0, 1, 7, 255, 65536, r.randrange(1 << 31)]); w = r.choice([1, 6, 30, 200]); sp = r.choice(["", "-"])
                if q == "s": f += "%s"; a += "," + lit; b += shown
                elif q == "ws": f += "%%%s%ds" % (sp, w); a += "," + lit; b += shown.ljust(w) if sp else shown.rjust(w)
                elif q == "d": f += "%d"; n *= r.choice([1, -1]); a += ",%d" % n; b += b"%d" % n
                elif q == "wd": sp = r.choice(["", "-", "0", "+"]); f += "%%%s%dd" % (sp, w); a += ",%d" % n; b += (("%%%s%dd" % (sp, w)) % n).encode()
                elif q == "x": f += "%x"; a += ",%d" % n; b += b"%x" % n
                elif q == "f": f += "%.2f"; a += ",%d.25" % n; b += b"%.2f" % (n + .25)
                elif q == "c": f += "%c"; a += ",'q'"; b += b"q"
                elif q == "star": f += "%*d"; a += ",%d,%d" % (w, n); b += b"%*d" % (w, n)
                elif q == "prec": z = "%s" % n; m = r.randint(0, 12); f += "%%.%ds" % m; a += ",'%s'" % z; b += z[:m].encode()
            return "printf('%s'%s);" % (f, a), b
        if k == "so": return "SO.write(%s);" % lit, t.encode()
        if k == "soputs": return "SO.puts(%s);" % lit, shown + b"\n"
    @staticmethod
    def wrap(c, js, files, timers):
        if c == "top": return js
        if c == "ml": return "(function()\n{\n  if (true) {\n\n    %s\n  };\n})();" % js
        if c == "fn": return "(function(){ %s })();" % js
        if c == "each": return "[1].forEach(function(x){ %s });" % js
        if c in AR: return "(function(){ var k=0; [3,4].%s(function(a,b){ if (!k++) { %s }; return 0; }%s); })();" % (c, js, ",0" if c[:6] == "reduce" else "")
        if c == "sorto": return "(function(){ var k=0; [3,4].sort({compare:function(a,b){ if (!k++) { %s }; return 0; }}); })();" % js
        if c == "call": return "(function(a){ %s }).call(null,1);" % js
        if c == "bind": return "(function(a){ %s }).bind(null,1)();" % js
        if c == "cond": return "if ((function(){ %s return false; })()) puts('NOT');" % js
        if c == "arg": return "String((function(){ %s return 1; })());" % js
        if c == "obj": return "(function(){ var o={a:1,f:function(){ %s }}; for (var i in o) if (i=='f') o[i](); })();" % js
        if c == "modul": return "(function(){ function Mq() { %s }; moduleRun(Mq,[]); })();" % js
        if c == "map": return "[1].map(function(x){ %s return 1; });" % js
        if c == "sort": return "(function(){ var k=0; [2,1].sort(function(a,b){ if (!k++) { %s }; return a-b; }); })();" % js
        if c == "repl": return "'xay'.replace(/a/, function(m){ %s return 'b'; });" % js
        if c == "new": return "(function(){ function K(){ %s }; var o=new K(); })();" % js
        if c == "apply": return "(function(a){ %s }).apply(null,[1]);" % js
        if c == "eval": return "eval(%s);" % jstr(js)
        if c == "catch": return "try { throw 'Q'; } catch(e) { %s };" % js
        if c == "swit": return "(function(a){ switch(a) { case 1: puts('NOT'); case 2: %s break; default: puts('NOT'); }; })(2);" % js
        if c == "rec": return "function RF(n){ if (n) { RF(n-1); return; }; %s };RF(20);" % js
        if c == "glob": return "(function(){ var k=0; File.glob('*',function(f){ if (!k++) { %s }; return true; }); })();" % js
        if c == "sub2": return "(new Interp()).eval(%s);" % jstr("(new Interp()).eval(%s);" % jstr(js))
        if c == "nest": return "(function(){ [1].forEach(function(x){ (function(y){ if (y) { while(true) { %s break; }; }; })(x); }); })();" % js
        if c == "cap": return "(function(){ var z=new Interp({stdoutStr:''}); z.eval(%s); SO.write(z.conf('stdoutStr')); })();" % jstr(js)
        if c == "try": return "try { %s throw 'X'; } catch(e) { if (e!='X') throw(e); };" % js
        if c == "fin": return "try { } finally { %s };" % js
        if c == "interp": return "(new Interp({nofreeze:0})).eval(%s);" % jstr(js) if False else "(new Interp()).eval(%s);" % jstr(js)
        if c == "src":
            f = "/w/s%d.js" % len(files); files.append((f, js.encode())); return "source('%s');" % f
        raise ValueError(c)
    def plan(self, p):
        files = []; js = []; exp = bytearray(); lines = list(p["inp"]); thr = {}; ti = 0
        def inp():
            if not lines: return b"EOF\n"
            n, s, nl = lines.pop(0); t = gdata(["txt", n, s])
            if not nl and not n: return b"EOF\n"
            return b"[" + t + b"]\n"
        timers = []
        for o in p["ops"]:
            j, b = self.emit(o); c = o["c"]
            if c.startswith("thr"):
                k = c[3:]; thr.setdefault(k, []); j = j.replace('puts("', 'puts("#%s ' % k, 1)
                if len(thr[k]) == 0: js.append("var T%s=new Interp({subthread:true,scriptStr:'update(-1);'});" % k)
                thr[k].append(b"#%s " % k.encode() + b); js.append("T%s.eval(%s,true);" % (k, jstr(j))); continue
            if c == "timer": timers.append((j, b)); ti += 1; js.append("setTimeout(function(){ %s },%d);" % (j, 30 + 20 * ti)); continue
            js.append(self.wrap(c, j, files, None)); exp += inp() if b is None else b
        # timers run when the program updates
        for k in thr: js.append("T%s.eval('1;');" % k)
        if timers and p["stop"] or p["ectx"] == "timer":
            end = None
            if p["ectx"] == "timer": js.append("setTimeout(function(){ %s },%d);" % (self.endjs(p), 100 + 20 * ti))
            js.append("update({minTime:%d});" % (200 + 20 * ti))
            for j, b in timers: exp += inp() if b is None else b
            if p["ectx"] == "timer": js.append("puts('NOT REACHED');")
        status = 0; dead = p["ectx"] == "timer"
        e = self.endjs(p)
        if p["ectx"] != "timer" and e:
            if p["mode"] == "stdin": js.append(e)
            else: js.append(self.wrap(p["ectx"], e, files, None))
            if p["ectx"] == "interp": js.append("puts('AFTER');"); exp += b"AFTER\n"
            else: js.append("puts('NOT REACHED');")
        if p["end"] == "exit": status = 0 if p["ectx"] == "interp" else p["code"]
        elif p["end"] in ("throw", "err", "syntax", "missing"): status = "fail"
        if p["end"] in ("syntax", "missing"): exp = bytearray(); thr = {}
        return js, bytes(exp), status, files, thr
    def endjs(self, p):
        return {"exit": "exit(%d);" % p["code"] if p["code"] or p["seed"] & 1 else "exit();", "throw": "throw 'END';", "err": "nosuchfunction(1);", "syntax": "puts(1", "fall": "", "missing": ""}[p["end"]]
    def build(self, p):
        sc = Scenario(p["seed"])
        js, exp, status, files, thr = self.plan(p)
        for f, b in files: sc.file(f, b)
        src = PRE + "\n".join(js) + "\n"; m = p["mode"]; args = list(p["args"])
        if args and m == "file": src = "puts(console.args.join('|'));\n" + src
        if p["end"] == "missing": m2 = ["/w/none.js"] if m == "file" else ["none/"]
        elif m == "file": sc.file("/w/m.js", src.encode()); m2 = ["/w/m.js"] + args
        elif m == "dir": sc.file("/w/p/main.jsi", src.encode()); m2 = ["p/"]
        elif m == "e": m2 = ["-e", src]
        elif m == "stdin": m2 = []; sc.stdin = ("\n".join(js) + "\n").encode()
        if m != "stdin":
            sc.stdin = b"".join(gdata(["txt", n, s]) + nl.encode() for n, s, nl in p["inp"])
        sc.file("/w/jsish", b"x")
        if p.get("pre"): m2 = ["--E", "puts('PRE');" + {"ok": "", "throw": "throw 'PE';", "err": "nosuchfn(1);", "exit": "exit(%d);" % p["pre"][1], "syntax": "puts(1"}[p["pre"][0]]] + m2
        sc.phase("", m2, kind=3)
        sc.set(tick_ns=3000, p_edge=50000 if thr else 0, p_sync=8 if thr else 0, out_full=p["full"])
        return sc
    def oracle(self, p, r):
        v = []
        js, exp, status, files, thr = self.plan(p)
        if p["args"] and p["mode"] == "file" and p["end"] not in ("syntax", "missing"):
            exp = "|".join(p["args"]).encode() + b"\n" + exp
        if p.get("pre"):
            k = p["pre"][0]; exp = b"" if k == "syntax" else b"PRE\n" + (exp if k == "ok" else b"")
            if k != "ok": status = p["pre"][1] if k == "exit" else "fail"; thr = {}
        if p["mode"] == "stdin": exp = BANNER + exp
        out = b"".join(unesc(e.rest) for e in r.of("STDOUT")); err = b"".join(unesc(e.rest) for e in r.of("STDERR"))
        ex = [int(e.rest) for e in r.of("EXIT")]
        if not ex: return [("no-exit", "the program did not end by exit: %s" % [e for e in r.events[-3:]])]
        st = ex[-1]; fc = [(c, k) for c, k in r.fired]
        ofail = any(c == "stdout" and k == F_ERR for c, k in fc)
        ifail = any(c == "stdin" and k == F_ERR for c, k in fc)
        rfail = any(c in ("open", "read") and k == F_ERR for c, k in fc)
        def shown(b): return "%d bytes" % len(b)
        main = out
        if thr:
            ls = out.split(b"\n"); per = {}
            rest = []
            for l in ls:
                m = re.match(rb"#(\d) ", l)
                if m: per.setdefault(m.group(1).decode(), []).append(l + b"\n")
                else: rest.append(l)
            main = b"\n".join(rest)
        whole = main == exp and (not thr or all(per.get(k, []) == thr[k] for k in thr))
        if ifail:
            # a failing read is reported by input(), or ends the program badly; what came before it is exact, and no end of input is invented
            if p["mode"] == "stdin":
                if not whole and st == 0 and not ofail: v.append(("stdin-lost", "standard input failed, the rest of the program was not run, and the exit status is 0"))
                return v
            if thr or ofail or rfail or p["end"] in ("syntax", "missing"): return v
            n = 0
            while n < len(main) and n < len(exp) and main[n] == exp[n]: n += 1
            if main != exp and not any(main[n-k:n-k+4] == b"ERR\n" for k in range(3) if n >= k): v.append(("stdin", "after an error of standard input: " + self.diff(main, exp)))
            return v
        if ofail:
            if not whole and st == 0: v.append(("lost-output", "writing standard output failed, %d of %d bytes arrived, and the exit status is 0" % (len(out), len(exp))))
            return v
        if rfail:
            if st == 0 and not whole: v.append(("status", "a script could not be read, the output is not whole, and the exit status is 0"))
            elif not thr and not exp.startswith(main) and not any(o["c"] == "timer" for o in p["ops"]): v.append(("output", "printed something else: %s" % self.diff(main, exp)))
            return v
        if not whole:
            if main != exp: v.append(("output", self.diff(main, exp)))
            else: v.append(("thread-output", "; ".join("thread %s: %d lines instead of %d%s" % (k, len(per.get(k, [])), len(thr[k]), "" if len(per.get(k, [])) != len(thr[k]) else ", altered") for k in thr if per.get(k, []) != thr[k])))
        if status == "fail":
            if st == 0: v.append(("status", "exit status 0 although the program ended with an error"))
            elif not err.strip(): v.append(("no-reason", "the program failed without saying anything"))
        elif st != status: v.append(("status", "exit status %d instead of %d" % (st, status)))
        return v
    @staticmethod
    def diff(a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
        return "standard output is %d bytes, should be %d, differs at %d: %r instead of %r" % (len(a), len(b), n, a[n:n+40], b[n:n+40])
    def shrink(self, p):
        out = []
        if p["inp"]: out.append({**p, "inp": []})
        for k in range(len(p["inp"])): out.append({**p, "inp": p["inp"][:k] + p["inp"][k+1:]})
        for k, o in enumerate(p["ops"]):
            if o["s"][1] > 2:
                q = json.loads(json.dumps(p)); q["ops"][k]["s"][1] //= 2; out.append(q)
            if o["c"] != "top":
                q = json.loads(json.dumps(p)); q["ops"][k]["c"] = "top"; out.append(q)
        if p["ectx"] != "top": out.append({**p, "ectx": "top"})
        if p["mode"] not in ("file", "stdin"): out.append({**p, "mode": "file"})
        if p["args"]: out.append({**p, "args": []})
        if p.get("pre"): out.append({**p, "pre": None})
        if p["full"]: out.append({**p, "full": 0})
        return out
CHECK = C()
