"""C07 archives and compressed files: members come back as they were put in, or the operation fails and leaves what was there."""
import gzip, io, json, random, time, zipfile, zlib
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_SHORT, F_FULL, F_EINTR, unesc
from vlib import fgen
EIO, EACCES, ENOSPC, EMFILE = 5, 13, 28, 24
NAMES = ["a.txt", "b.bin", "e", "foo.", "d/x", "d/y.js", "deep/er/z", "sp ace", "r\u00e9s", "run.jsi", "big"]
DIRS = ["d", "deep", "deep/er"]
ARS = ["/z/a.zip", "/z/b.zip", "/z/c.exe"]
GZS = ["/g/p", "/g/q", "/g/r"]
EPOCH = 1700000000
jstr = fgen.jstr

def sdata(d):
    if d[0] == "scr": return "".join("simlog('L',%d,%d);\n" % (d[2] % 10, k) for k in range(d[1])).encode()
    return fgen.gdata(d)
def allm(x): return x[1] + [["many/m%d" % k, ["txt", k % 40, k], k % 3 == 0, 0o644] for k in range(x[3] if len(x) > 3 else 0)]
def extra(x, zi):
    """comments and extra fields, which are to be skipped"""
    e = x[4] if len(x) > 4 else 0
    if e & 1: zi.comment = b"about %d " % len(zi.filename) * (1 + len(zi.filename) % 9)
    if e & 2: zi.extra = b"\x99\x99\x04\x00PK\x01\x02"
def mkzip(x):
    """an archive as another program would make it: [prefix spec, [[name, spec or None, stored, descriptor]]]"""
    pre = fgen.gdata(x[0]) if x[0] else b""
    class W(io.BytesIO): pass
    buf = io.BytesIO(pre)
    z = zipfile.ZipFile(buf, "a"); mem = {}
    for n, d, stored, mode in allm(x):
        zi = zipfile.ZipInfo(n + ("/" if d is None else ""), (2021, 1 + len(n) % 12, 1 + len(mem) % 28, len(n) % 24, 59, (len(n)*2) % 60))
        zi.compress_type = zipfile.ZIP_STORED if stored or d is None else zipfile.ZIP_DEFLATED
        zi.external_attr = ((0o040755 if d is None else 0o100000 | mode) << 16) | (0x10 if d is None else 0)
        data = b"" if d is None else sdata(d)
        extra(x, zi)
        z.writestr(zi, data)
        import calendar
        mem[n] = [d is None, data, zi.external_attr >> 16, calendar.timegm(zi.date_time + (0, 0, 0))]
    z.close()
    b = buf.getvalue()
    if x[2]:    # sizes only in the directory, as written to a pipe
        out = io.BytesIO()
        class P:
            def write(self, b): return out.write(b)
            def flush(self): pass
        z = zipfile.ZipFile(P(), "w")
        for n, d, stored, mode in allm(x):
            isd, data, attr, t = mem[n]
            zi = zipfile.ZipInfo(n + ("/" if isd else ""), time.gmtime(t)[:6]); zi.compress_type = zipfile.ZIP_STORED if stored or isd else zipfile.ZIP_DEFLATED; zi.external_attr = (attr << 16) | (0x10 if isd else 0)
            extra(x, zi)
            z.writestr(zi, data)
        z.close(); b = out.getvalue(); pre = b""
    return pre, mem, b
def mkgz(x):
    """[kind, [spec...]]"""
    if x[0] == "Z": return b"".join(sdata(d) for d in x[1]), zlib.compress(b"".join(sdata(d) for d in x[1]))
    out = b""
    for k, d in enumerate(x[1]):
        o = io.BytesIO(); g = gzip.GzipFile("nm%d.txt" % k if x[2] else "", "wb", x[3], o, 1600000000); g.write(sdata(d)); g.close(); out += o.getvalue()
    return b"".join(sdata(d) for d in x[1]), out

class C(Check):
    pid = "C07"
    max_variants = 4
    rule = ("a generated sequence of creating, appending to, listing, mounting, reading, unmounting and truncating archives made by jsish and by another program, and of writing and reading "
            "compressed files, or threads reading one mounted archive, or an archive run as a program; run once without faults and then with errors, short reads and full disks inside the calls it made; distinct by full event trace")
    fault_classes = {"write": [(F_ERR, [EIO, ENOSPC]), (F_SHORT, [1, 3, 100]), (F_FULL, [0, 1, 50, 4096])], "read": [(F_ERR, [EIO, EIO]), (F_SHORT, [1, 2, 5, 21, 100, 1000])],
                     "seek": [(F_ERR, [EIO])], "open": [(F_ERR, [EACCES, EMFILE])], "close": [(F_ERR, [EIO])], "stat": [(F_ERR, [EIO, EACCES])], "trunc": [(F_ERR, [EIO])], "unlink": [(F_ERR, [EIO])]}

    def spec(self, rng): return fgen.gspec(rng, ("bin", "txt", "lines", "lines", "nul", "utf"))
    def extzip(self, rng):
        ns = rng.sample(["q1", "q2.txt", "sub/w", "sub/v.js", "z.jsi", "main.jsi", "lib/u"], rng.randint(0, 6)); l = []
        if any(n.startswith("sub/") for n in ns) or rng.random() < .2: l.append(["sub", None, 0, 0o755])
        for n in ns: l.append([n, ["scr", rng.choice([1, 5, 200]), rng.randrange(90)] if n.endswith(".jsi") else self.spec(rng), rng.random() < .4, rng.choice([0o644, 0o600, 0o755])])
        if rng.random() < .2: l.append([rng.choice(["/s/a.txt", "../s/a.txt", "sub/../../s/a.txt", "//s/e"]), self.spec(rng), 0, 0o644])
        if rng.random() < .3: rng.shuffle(l)
        return [self.spec(rng) if rng.random() < .4 else None, l, rng.random() < .25, rng.choice([1, 255, 256, 300, 520]) if rng.random() < .06 else 0, rng.choice([0, 0, 0, 1, 2, 3])]

    def gen(self, rng, i):
        a = rng.random()
        p = {"seed": rng.randrange(1 << 30), "want_faults": True, "src": {}, "ini": {}, "gz": {}}
        for n in NAMES:
            if rng.random() < .85: p["src"][n] = [["scr", rng.choice([1, 4, 90]), rng.randrange(90)] if n.endswith(".jsi") else ["bin" if rng.random() < .3 else "lines", rng.choice([30000, 50000]), rng.randrange(99)] if n == "big" and rng.random() < .5 else self.spec(rng), rng.choice([0o644, 0o600, 0o755])]
        if a < .12: return self.gen_mt(rng, p)
        if a < .2: return self.gen_run(rng, p)
        names = list(p["src"])
        for A in ARS:
            if rng.random() < .45: p["ini"][A] = self.extzip(rng)
        if "/z/c.exe" not in p["ini"] and rng.random() < .6: p["plain"] = self.spec(rng)
        for g in GZS:
            if rng.random() < .35: p["gz"][g] = [rng.choice(["g", "g", "Z"]), [self.spec(rng) for _ in range(rng.choice([1, 1, 2, 3]))], rng.random() < .5, rng.choice([1, 6, 9])]
        ops = []; mnt = {}; have = {A: (sorted(n for n, d, s, m in allm(p["ini"][A]) if not n.startswith(("/", "..")) and "/../" not in n) if A in p["ini"] else None) for A in ARS}
        isd = {A: (["sub"] if A in p["ini"] and any(n == "sub" for n, d, s, m in p["ini"][A][1]) else []) for A in ARS}
        op = {}; gop = {}; nm = 0
        def groups(A, old):
            pool = [n for n in names + [d for d in DIRS if any(x.startswith(d + "/") for x in names)] if n not in old]
            rng.shuffle(pool); gs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.randint(0, 4); l, pool = pool[:k], pool[k:]
                if rng.random() < .06: l.insert(rng.randint(0, len(l)), "none" if "none" not in old else "nonf")
                if rng.random() < .05: l.append(rng.choice([".", "d/.."]))
                gs.append([l, rng.choice([None, "/s", "/s", "../s"])])
            return gs
        for _ in range(rng.randint(2, 14)):
            b = rng.random()
            if gop and b < .4:
                s = rng.choice(sorted(gop)); g, m = gop[s]; c = rng.random()
                if m == "r": ops.append(["ggets", s] if c < .5 else ["grd", s, rng.choice([-1, 1, 10, 4096, 9000])] if c < .75 else ["geof", s] if c < .82 else ["gclose", s])
                else: ops.append(["gput", s, self.spec(rng) if rng.random() < .6 else ["lines", rng.choice([0, 20000, 60000]), 3]] if c < .55 else ["gflush", s] if c < .75 else ["gclose", s])
                if ops[-1][0] == "gclose": del gop[s]
            elif op and b < .45:
                s = rng.choice(sorted(op)); n = op[s]; c = rng.random()
                if c < .3: ops.append(["rd", s, rng.choice([-1, 1, 2, 10, 100, 4096, 8191, 8192, 8193, 10000])])
                elif c < .5: ops.append(["gets", s])
                elif c < .75: w = rng.choice(["set", "set", "cur", "end"]); ops.append(["seek", s, {"set": rng.choice([0, 1, 50, 5000, 8192, 20000]), "cur": rng.choice([-9000, -10, -1, 0, 3, 50, 8192]), "end": -rng.choice([0, 1, 9, 500, 9000])}[w], w])
                elif c < .83: ops.append(["tell", s])
                elif c < .92: ops.append(["eof", s])
                else: ops.append(["close", s]); del op[s]
            elif b < .2:
                A = rng.choice(ARS); app = have[A] is not None if rng.random() < .93 else rng.random() < .5
                if A in mnt.values() and not app: continue
                old = set(have[A] or []) | set(isd[A]); gs = groups(A, old); bad = any(x in ("none", "nonf") for l, pf in gs for x in l)
                ops.append(["ap" if app else "cr", A, gs])
                if not bad and (app or have[A] is None):
                    l = [x for l, pf in gs for x in l if x not in (".", "d/..")]
                    have[A] = sorted(set(have[A] or []) | set(x for x in l if x not in DIRS)); isd[A] = sorted(set(isd[A]) | set(x for x in l if x in DIRS))
                ops.append(["snap", A])
            elif b < .26: ops.append([rng.choice(["ls", "ls", "off"]), rng.choice(ARS)])
            elif b < .30:
                A = rng.choice(ARS)
                if A in mnt.values(): continue
                ops.append(["tr", A, rng.choice([None, None, True, False])]); have[A] = None; isd[A] = []
                ops.append(["snap", A])
            elif b < .45:
                c = [A for A in ARS if A not in mnt.values() and (have[A] is not None or rng.random() < .1)]
                if not c: continue
                A = rng.choice(c); nm += 1; M = rng.choice(["/m%d" % nm, "/z/m%d" % nm, "", None]); ops.append(["mnt", A, M, nm]); 
                if have[A] is not None: mnt[nm] = A
            elif b < .72 and mnt:
                k = rng.choice(sorted(mnt)); A = mnt[k]; c = rng.random(); l = have[A] or []
                if rng.random() < .06: l = l + ["nope", "d/nope"]
                n = rng.choice(l) if l else "nope"
                if c < .35: ops.append(["fr", k, n])
                elif c < .43: ops.append(["st", k, rng.choice(l + isd[A] + ["nope"])])
                elif c < .5: ops.append(["gl", k, rng.choice(isd[A] + [""])])
                elif c < .56 and "run.jsi" in l or "z.jsi" in l: ops.append(["src", k, "run.jsi" if "run.jsi" in l else "z.jsi"])
                elif c < .6: ops.append(["ex", k, rng.choice(l + isd[A] + ["nope"])])
                elif c < .64: ops.append(["out", rng.choice(["a.txt", "e"])])
                elif c < .9:
                    s = rng.choice([0, 1, 2])
                    if s in op: ops.append(["close", s]); del op[s]; continue
                    n = rng.choice(l) if l else "nope"; ops.append(["open", s, k, n]); op[s] = n
                else: ops.append(["um", k, rng.random() < .3]); del mnt[k]
            elif b < .76 and rng.random() < .5:
                A = rng.choice(ARS); ops.append(["cut", A, rng.choice([.05, .3, .6, .9, .99])]); have[A] = None
                for k in [k for k in mnt if mnt[k] == A]: pass
            else:
                fr = [g for g in GZS if g not in [x for x, m in gop.values()]]
                if not fr: continue
                g = rng.choice(fr); c = rng.random()
                if c < .3: ops.append(["gw", g, self.spec(rng) if rng.random() < .7 else [rng.choice(["bin", "lines", "nul"]), rng.choice([20000, 70000]), rng.randrange(99)], rng.choice(["wbz", "wz", "abz", "abz", "wz9", "wbZ"])] + ([rng.choice(["gets()", "read(1)", "read()", "getc()"])] if rng.random() < .15 else []))
                elif c < .6: ops.append(["gr", g])
                elif c < .66: ops.append(["gcut", g, rng.choice([0, .1, .5, .9, .999])])
                elif c < .72: ops.append(["gflip", g, rng.random()])
                else:
                    s = rng.choice([3, 4]); 
                    if s in gop: ops.append(["gclose", s]); del gop[s]; continue
                    m = rng.choice("rrwa"); ops.append(["gopen", s, g, m]); gop[s] = (g, m)
        for s in sorted(op):
            if rng.random() < .6: ops.append(["close", s])
        for s in sorted(gop): ops.append(["gclose", s])
        for g in GZS:
            if rng.random() < .3: ops.append(["gr", g])
        p["ops"] = ops
        if rng.random() < .12: p["room"] = rng.choice([0, 300, 6000])
        return p
    def gen_mt(self, rng, p):
        x = self.extzip(rng)
        while not [1 for n, d, s, m in x[1] if d and ".." not in n and n[0] != "/" and len(sdata(d)) > 3000]: x[1].append(["mt%d" % len(x[1]), ["lines" if rng.random() < .5 else "bin", rng.choice([9000, 20000, 40000]), rng.randrange(99)], rng.random() < .5, 0o644])
        ns = [n for n, d, s, m in x[1] if d is not None and not n.startswith(("/", "..")) and "/../" not in n]
        p.update(kind="mt", ini={"/z/a.zip": x}, ops=[[rng.choice(["rd", "rd", "chan"]), rng.choice(ns)] for _ in range(rng.randint(2, 6))], thr=[[[rng.choice(["rd", "rd", "chan"]), rng.choice(ns)] for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 3))])
        p["um"] = rng.random() < .2; p["want_faults"] = rng.random() < .3
        p["cfg"] = {"p_edge": rng.choice([30, 300, 3000]), "p_sync": rng.choice([2, 4, 10])}
        return p
    def gen_run(self, rng, p):
        x = self.extzip(rng); x[1] = [m for m in x[1] if m[0] != "main.jsi" and not m[0].startswith("lib/")]; x[2] = False
        x[1].insert(rng.randint(0, len(x[1])), ["main.jsi", ["scr", rng.choice([1, 3, 200, 500]), 1], rng.random() < .5, 0o644])
        p.update(kind="run", ini={"/z/app.zip": x}, ops=[["run"]])
        return p

    def base(self, p):
        sc = Scenario(p["seed"]); sc.dump = "/z,/g"; tot = 0
        sc.dir("/z"); sc.dir("/g"); sc.dir("/s/d"); sc.dir("/s/deep/er"); sc.cwd = "/s"
        for n, (d, m) in p["src"].items(): b = sdata(d); sc.file("/s/" + n, b, m); tot += len(b)
        for A, x in p["ini"].items(): b = mkzip(x)[2]; sc.file(A, b, 0o644); tot += len(b)
        if "plain" in p: b = fgen.gdata(p["plain"]); sc.file("/z/c.exe", b, 0o755); tot += len(b)
        for g, x in p["gz"].items(): b = mkgz(x)[1]; sc.file(g, b); tot += len(b)
        return sc, tot
    def build(self, p):
        sc, tot = self.base(p)
        if p.get("kind") == "run": sc.phase("", args=("/z/app.zip", "arg1"), kind=3); return sc
        if p.get("kind") == "mt": return self.build_mt(p, sc)
        js = [fgen.PRE, "var mp={};"]
        for i, o in enumerate(p["ops"]):
            k = o[0]
            if k in ("gw", "gput"): b = sdata(o[2]); sc.file("/in/d%d" % i, b); tot += len(b)
            if k in ("cr", "ap"):
                a = [jstr(o[1])]
                for j, (l, pf) in enumerate(o[2]):
                    a.append(json.dumps(l))
                    if pf is not None or j < len(o[2]) - 1: a.append("null" if pf is None else jstr(pf))
                b = "return Zvfs.%s(%s);" % ("create" if k == "cr" else "append", ",".join(a))
            elif k == "ls": b = "return JSON.stringify(Zvfs.list(%s));" % jstr(o[1])
            elif k == "off": b = "return Zvfs.offset(%s);" % jstr(o[1])
            elif k == "tr": b = "return Zvfs.truncate(%s%s);" % (jstr(o[1]), "" if o[2] is None else ",%s" % ("true" if o[2] else "false"))
            elif k == "mnt": b = "var m=Zvfs.mount(%s%s); mp[%d]=m; return 'M'+m;" % (jstr(o[1]), "" if o[2] is None else "," + jstr(o[2]), o[3])
            elif k == "um": b = "return Zvfs.unmount(%s);" % ("mp[%d]" % o[1] if not o[2] else "Zvfs.names(mp[%d])" % o[1])
            elif k == "fr": b = "return File.read(mp[%d]+%s);" % (o[1], jstr("/" + o[2]))
            elif k == "ex": b = "return File.exists(mp[%d]+%s);" % (o[1], jstr("/" + o[2]))
            elif k == "st": b = "var s=File.stat(mp[%d]+%s); return [s.size,s.mtime,s.mode];" % (o[1], jstr("/" + o[2]))
            elif k == "gl": b = "return JSON.stringify(File.glob('*',{dir:mp[%d]+%s,types:'fd'}));" % (o[1], jstr("/" + o[2] if o[2] else ""))
            elif k == "src": b = "source(mp[%d]+%s); return 1;" % (o[1], jstr("/" + o[2]))
            elif k == "out": b = "return File.read(%s);" % jstr("/s/" + o[1])
            elif k == "open": b = "ch[%d]=null; ch[%d]=new Channel(mp[%d]+%s,'r'); return 1;" % (o[1], o[1], o[2], jstr("/" + o[3]))
            elif k == "gopen": b = "ch[%d]=null; ch[%d]=new Channel(%s,'%sz'); return 1;" % (o[1], o[1], jstr(o[2]), o[3])
            elif k in ("rd", "grd"): b = "return ch[%d].read(%s);" % (o[1], o[2] if o[2] > 0 else "")
            elif k in ("gets", "ggets"): b = "return ch[%d].gets();" % o[1]
            elif k == "seek": b = "return ch[%d].seek(%d,'%s');" % (o[1], o[2], o[3])
            elif k == "gput": b = "return ch[%d].write(simget('/in/d%d'));" % (o[1], i)
            elif k in ("tell", "eof", "close", "gclose", "gflush", "geof"): b = "return ch[%d].%s();" % (o[1], k.lstrip("g"))
            elif k == "gw": b = "return File.write(%s,simget('/in/d%d'),'%s');" % (jstr(o[1]), i, o[3]) if len(o) < 5 else (
                "var h=new Channel(%s,'%s'); var n=h.write(simget('/in/d%d')), q=''; try { q=h.%s; } catch(e) {}; if (q && q!==-1) simlog('Q',%d); if (h.close()===false) throw('close'); return n;" % (jstr(o[1]), o[3], i, o[4], i))
            elif k == "gr": b = "return File.read(%s,gm(%s));" % (jstr(o[1]), jstr(o[1]))
            elif k in ("cut", "gcut"): b = "simquiet(1); var n=-1; try { n=Math.floor(File.size(%s)*%s); File.truncate(%s,n); } catch(e) { n=-1; }; simquiet(0); return n;" % (jstr(o[1]), o[2], jstr(o[1]))
            elif k == "gflip": b = "simquiet(1); var n=-1; try { n=Math.floor(File.size(%s)*%s); var f=new Channel(%s,'r+'); f.seek(n,'set'); var c=f.read(1); f.seek(n,'set'); f.write(c=='A'?'B':'A'); f.close(); } catch(e) { n=-1; }; simquiet(0); return n;" % (jstr(o[1]), o[2], jstr(o[1]))
            elif k == "snap": js.append("simsnap(%s);" % jstr(o[1])); continue
            js.append("T(%d,function(){ %s });" % (i, b))
        # a file in the other format is read in that one
        js.insert(2, "function gm(f){ simquiet(1); var c=-1; try { if (File.size(f)>0) { var h=new Channel(f,'rb'), s=h.read(1); h.close(); c=s.charCodeAt(0); } } catch(e) { }; simquiet(0); return (c==120?'rbZ':'rbz'); };")
        js.append("simlog('NAMES',JSON.stringify(Zvfs.names())); simlog('END');")
        if "room" in p: sc.set(disk_cap=tot + 64*60 + p["room"])
        sc.phase("\n".join(js))
        return sc
    def build_mt(self, p, sc):
        def body(ops, tag):
            o = []
            for i, (k, n) in enumerate(ops):
                f = jstr("/m/" + n)
                b = "return File.read(%s);" % f if k == "rd" else "var c=new Channel(%s,'r'), s='', x; while ((x=c.read(3000))!==undefined) s+=x; c.close(); return s;" % f
                o.append("try { var r=(function(){ %s })(); simbytes('%s_%d',r); } catch(e) { simlog('X','%s',%d,''+e); };" % (b, tag, i, tag, i))
            return " ".join(o)
        js = ["Zvfs.mount('/z/a.zip','/m');"]
        for t, ops in enumerate(p["thr"]):
            js.append("var w%d=new Interp({subthread:true,scriptStr:%s});" % (t, jstr(body(ops, "w%d" % t) + " simlog('DONE',%d); update(-1);" % t)))
        js.append(body(p["ops"], "main"))
        if p["um"]: js.append("try { Zvfs.unmount('/m'); simlog('UM'); } catch(e) { simlog('UMX',''+e); };")
        js.append("var n=0; while (n++<40) update(25);")
        for t in range(len(p["thr"])): js.append("w%d=null;" % t)
        js.append("simlog('END');")
        sc.phase("\n".join(js)); sc.set(tick_ns=2000, max_steps=30000000)
        return sc

    # -- judging --
    def oracle(self, p, r):
        if p.get("kind") == "mt": return self.oracle_mt(p, r)
        if p.get("kind") == "run": return self.oracle_run(p, r)
        v = []; ar = {}; gz = {}
        src = {n: (sdata(d), m) for n, (d, m) in p["src"].items()}
        for A in ARS:
            ar[A] = {"pre": None, "mem": None, "unk": False}
            if A in p["ini"]: pre, mem, b = mkzip(p["ini"][A]); ar[A] = {"pre": pre, "mem": {self.inside(n): x for n, x in mem.items()}, "unk": False, "ext": True}
        if "plain" in p: ar["/z/c.exe"]["pre"] = fgen.gdata(p["plain"])
        for g in GZS: gz[g] = {"d": [sdata(d) for d in p["gz"][g][1]] if g in p["gz"] else None, "Z": g in p["gz"] and p["gz"][g][0] == "Z", "unk": False}
        mnt = {}; ch = {}; gch = {}
        res, tail = fgen.windows(r, len(p["ops"]))
        if not any(a[0] == "END" for e, a in r.js()): v.append(("script-died", "the program stopped early: " + repr(r.events[-4:])[:300]))
        tight = "room" in p
        snaps = [e for e in r.events if e.kind == "SNAP"]; sn = 0
        for i, o in enumerate(p["ops"]):
            k = o[0]
            if k == "snap":
                if sn >= len(snaps): continue
                e = snaps[sn]; sn += 1; x = e.rest.split(" ", 2)
                self.same(v, o[1], ar[o[1]], None if x[1] == "-1" else unesc(x[2] if len(x) > 2 else ""), "after op %d" % i)
                continue
            if i not in res: continue
            kind, val, evs = res[i][0]; flt = fgen.faulted(evs); wflt = flt or tight
            def spur(f=flt):
                if not f: v.append(("spurious-failure", "op %d %s failed without any fault (%s)" % (i, str(o[:3])[:200], val)))
            if k in ("cr", "ap"):
                A = ar[o[1]]; names = [(n, pf) for l, pf in o[2] for n in l]
                good = not A["unk"]; must = None
                if A["unk"]: must = "?"
                elif k == "ap" and A["pre"] is None: must = "it does not exist"
                elif k == "cr" and A["mem"] is not None: must = "it is an archive already"
                elif any(n not in src and n not in DIRS and n not in (".", "d/..") for n, pf in names): must = "a file is missing"
                if kind == "R":
                    if must and must != "?": v.append(("ghost", "op %d %s of %s succeeded although %s" % (i, k, o[1], must)))
                    if A["unk"]: A["mem"] = None; continue
                    if A["mem"] == {} and k == "ap": A["anyoff"] = True     # where an archive without members starts is not specified
                    mem = dict(A["mem"] or {})
                    for n, pf in names:
                        if n in (".", "d/.."): continue
                        if n in DIRS: mem[n] = [True, b"", None, EPOCH]
                        elif n in src: mem[n] = [False, src[n][0], 0o100000 | src[n][1], EPOCH]
                    A["mem"] = mem; A["pre"] = A["pre"] if A["pre"] is not None else b""
                else:
                    if not must: spur(wflt)
                    if sum(e.kind == "FAULT" for e in evs) > (0 if must else 1) or any(e.kind == "FAULT" and e.rest.split()[0] in ("unlink", "trunc") for e in evs): A["unk"] = True    # putting back what was there failed as well
            elif k == "ls":
                A = ar[o[1]]
                if kind == "R":
                    if A["unk"]: continue
                    if A["pre"] is None: v.append(("ghost", "op %d listed the missing %s" % (i, o[1]))); continue
                    l = json.loads(val)[1:] if not isinstance(val, str) or val.startswith("[") else None
                    self.listing(v, i, o[1], A, l)
                elif kind == "S":
                    if A["unk"]: continue
                    if A["pre"] is None: v.append(("ghost", "op %d listed the missing %s" % (i, o[1]))); continue
                    self.listing(v, i, o[1], A, json.loads(val.decode())[1:])
                elif A["pre"] is not None and not A["unk"]: spur()
            elif k == "off":
                A = ar[o[1]]
                if A["unk"]: continue
                if kind == "R":
                    if A["mem"] is None: v.append(("ghost", "op %d the offset of %s, no archive, is %s" % (i, o[1], val)))
                    elif val != len(A["pre"]) and not A.get("anyoff"): v.append(("offset", "op %d the offset of %s is %s, expected %d" % (i, o[1], val, len(A["pre"]))))
                elif A["mem"] is not None: spur()
            elif k == "tr":
                A = ar[o[1]]
                if kind == "R":
                    if A["unk"]: A["mem"] = None; continue
                    if A["pre"] is None: v.append(("ghost", "op %d truncated the missing %s" % (i, o[1]))); continue
                    if A["mem"] is None:
                        if val != 0: v.append(("truncate", "op %d truncate of %s, no archive, returned %s" % (i, o[1], val)))
                        if o[2] is False: v.append(("ghost", "op %d truncate of %s, no archive, did not fail" % (i, o[1])))
                        continue
                    if A.get("anyoff"): A["unk"] = True; A["mem"] = None; continue
                    if val != len(A["pre"]): v.append(("truncate", "op %d truncate of %s returned %s, expected %d" % (i, o[1], val, len(A["pre"]))))
                    A["mem"] = None
                else:
                    if A["mem"] is not None and not A["unk"]: spur(wflt); A["unk"] = any(e.kind == "FAULT" and e.rest.split()[0] in ("trunc", "close", "write") for e in evs) or A["unk"]
            elif k == "mnt":
                A = ar[o[1]]; busy = any(m["A"] == o[1] for m in mnt.values())
                if kind == "S":
                    path = val.decode()[1:]
                    if A["unk"]: mnt[o[3]] = {"A": o[1], "mem": None, "cut": False, "path": path}; continue
                    if A["mem"] is None: v.append(("ghost", "op %d mounted %s, which is no archive" % (i, o[1]))); continue
                    if busy: v.append(("ghost", "op %d mounted %s twice" % (i, o[1]))); continue
                    want = o[2] if o[2] else o[1] if o[2] == "" else None
                    if want and path != want or any(m["path"] == path for m in mnt.values()): v.append(("mount-point", "op %d mount of %s at %r returned %r" % (i, o[1], o[2], path)))
                    mnt[o[3]] = {"A": o[1], "mem": dict(A["mem"]), "cut": False, "path": path}
                elif A["mem"] is not None and not A["unk"] and not busy: spur()
            elif k == "um":
                m = mnt.get(o[1])
                if kind == "R":
                    if m is None and not any(e.kind == "J" for e in evs): v.append(("ghost", "op %d unmounted what is not mounted" % i))
                    mnt.pop(o[1], None)
                elif m is not None: spur()
            elif k in ("fr", "ex", "st", "gl", "src", "open"):
                mi, n = (o[2], o[3]) if k == "open" else (o[1], o[2])
                m = mnt.get(mi)
                if k == "open": ch.pop(o[1], None)
                if m is None:
                    if k == "open": continue
                    if kind == "S" and k == "fr": v.append(("ghost", "op %d read %d bytes of %s, which is not mounted" % (i, len(val), n)))
                    continue
                if m["mem"] is None or not n and m["path"] == m["A"]: continue     # mounted on itself the name is that of the archive
                x = m["mem"].get(n) if n else [True, b"", None, None]
                isf = x is not None and not x[0]
                if k == "fr":
                    if kind == "S":
                        if not isf: v.append(("ghost", "op %d read %d bytes of %s, which is not in %s" % (i, len(val), n, m["A"])))
                        elif val != x[1]: v.append(("content", "op %d read of %s in %s returned %s, it holds %s" % (i, n, m["A"], show(val), show(x[1]))))
                    elif isf and not m["cut"] and not (kind == "R" and x[1] == b""): spur()
                    elif kind == "R" and isf and x[1]: v.append(("content", "op %d read of %s in %s returned nothing, it holds %s" % (i, n, m["A"], show(x[1]))))
                elif k == "ex":
                    if kind == "R" and val is not (x is not None) and not flt: v.append(("exists", "op %d exists of %s in %s is %s" % (i, n, m["A"], val)))
                elif k == "st":
                    if kind == "R":
                        if x is None: v.append(("ghost", "op %d stat of %s, which is not in %s: %s" % (i, n, m["A"], val))); continue
                        if x[0]:
                            if val[2] & 0o170000 != 0o040000: v.append(("stat", "op %d stat of the directory %s is %s" % (i, n, val)))
                        else:
                            if val[0] != len(x[1]): v.append(("stat", "op %d size of %s is %s, expected %d" % (i, n, val[0], len(x[1]))))
                            if x[3] is not None and val[1] != x[3]//2*2: v.append(("stat", "op %d time of %s is %s, expected %d" % (i, n, val[1], x[3]//2*2)))
                            if x[2] is not None and val[2] != x[2]: v.append(("stat", "op %d mode of %s is %o, expected %o" % (i, n, val[2], x[2])))
                    elif x is not None: spur()
                elif k == "gl":
                    if kind == "S": val = val.decode()
                    if kind in "RS" and x is not None and x[0]:
                        want = sorted(y[len(n) + 1 if n else 0:] for y in m["mem"] if y and y.startswith(n + "/" if n else "") and "/" not in y[len(n) + 1 if n else 0:] and y != n)
                        got = sorted(json.loads(val)) if val != "undef" else None
                        if got != want: v.append(("glob", "op %d glob in %s/%s returned %s, expected %s" % (i, m["A"], n, got, want)))
                    elif x is not None and kind == "X": spur()
                elif k == "src":
                    got = [e.js()[2] for e in evs if e.kind == "J" and e.js()[0] == "L"]
                    want = list(range(x[1].count(b"\n"))) if isf else None
                    if kind == "R":
                        if got != want: v.append(("script", "op %d source of %s ran %s of %s statements" % (i, n, len(got), want and len(want))))
                    else:
                        if got: v.append(("script-partial", "op %d source of %s failed (%s) after running %d statements" % (i, n, val, len(got))))
                        if isf and not m["cut"]: spur()
                elif kind == "R":
                    if not isf: v.append(("ghost", "op %d opened %s, which is not in %s" % (i, n, m["A"])))
                    else: ch[o[1]] = {"n": n, "d": x[1], "pos": 0, "bad": False, "m": m}
                elif isf and not m["cut"]: spur()
            elif k == "out":
                exp = src.get(o[1]) and src[o[1]][0]
                if kind == "S":
                    if val != exp: v.append(("outside", "op %d read of /s/%s, outside of any mount, returned %s, it holds %s" % (i, o[1], show(val), show(exp))))
                elif exp and not flt: v.append(("outside", "op %d read of /s/%s, outside of any mount, failed: %s" % (i, o[1], val)))
            elif k == "cut":
                A = ar[o[1]]
                if kind == "R" and val >= 0:
                    A["unk"] = True; A["mem"] = None
                    for m in mnt.values():
                        if m["A"] == o[1]: m["cut"] = True
                    for c in ch.values():
                        if c["m"]["A"] == o[1]: c["m"]["cut"] = True
                elif kind != "R": A["unk"] = True
            elif k in ("rd", "gets", "seek", "tell", "eof", "close"):
                c = ch.get(o[1])
                if c is None: continue
                d = c["d"]; pos = c["pos"]; lax = flt or c["m"]["cut"]
                if k == "close":
                    if kind != "R" or val is not True: spur()
                    ch.pop(o[1]); continue
                if k == "seek":
                    if c["bad"] and (c["bad"] == 2 or o[3] == "cur"): continue
                    to = (0 if o[3] == "set" else pos if o[3] == "cur" else len(d)) + o[2]
                    if kind == "R" and val == 0:
                        if to < 0: v.append(("seek", "op %d seek before the start succeeded" % i))
                        c["pos"] = min(to, len(d)); c["bad"] = False
                    elif to >= 0: spur(lax); c["bad"] = 2
                    continue
                if c["bad"]: continue
                if k == "rd":
                    exp = d[pos:] if o[2] <= 0 else d[pos:pos+o[2]]
                    if kind == "S":
                        if val != exp: v.append(("content", "op %d read(%s) at %d of %s returned %s, expected %s" % (i, o[2], pos, c["n"], show(val), show(exp)))); c["bad"] = 2
                        c["pos"] += len(exp)
                    elif kind == "R":
                        if exp: v.append(("content", "op %d read(%s) at %d of %s returned nothing, expected %s" % (i, o[2], pos, c["n"], show(exp)))); c["bad"] = 2
                    else: spur(lax); c["bad"] = 2
                elif k == "gets":
                    w = self.line(d, pos)
                    if w is None: c["bad"] = 2; continue
                    exp, np = w
                    if kind == "S":
                        if val != exp: v.append(("content", "op %d gets at %d of %s returned %s, expected %s" % (i, pos, c["n"], show(val), show(exp)))); c["bad"] = 2
                        c["pos"] = np
                    elif lax: c["bad"] = 2
                    elif pos < len(d) or kind == "X": v.append(("content", "op %d gets at %d of %s returned %s, expected %s" % (i, pos, c["n"], val, show(exp)))); c["bad"] = 2
                elif k == "tell":
                    if kind != "R" or val != pos: v.append(("tell", "op %d tell on %s returned %s, expected %d" % (i, c["n"], val, pos)))
                elif k == "eof":
                    if bool(val) != (pos >= len(d)): v.append(("eof", "op %d eof is %s at %d of %d of %s" % (i, val, pos, len(d), c["n"])))
            elif k == "gw":
                if any(e.js()[1] == i for e in r.of("J") if e.js()[0] == "Q"): v.append(("read-writer", "op %d read something from a channel open for writing to %s" % (i, o[1])))
                g = gz[o[1]]; d = sdata(o[2])
                if kind == "R" and val == len(d):
                    if o[3][0] == "w": g["d"] = [d]; g["Z"] = "Z" in o[3]; g["unk"] = False; g.pop("dmg", None)
                    elif not g["unk"] and g["d"] is None: g["d"] = [d]; g["Z"] = False
                    elif not g["unk"]:
                        if g["Z"] and g["d"] is not None or g.get("dmg"): g["unk"] = True       # other format appended
                        else: g["d"].append(d)
                else:
                    spur(wflt)
                    if kind == "R": v.append(("short-success", "op %d File.write of %d bytes returned %s without raising" % (i, len(d), val)))
                    g["unk"] = True
            elif k in ("gcut", "gflip"):
                if kind == "R" and val >= 0: gz[o[1]]["dmg"] = True
                elif kind != "R": gz[o[1]]["unk"] = True
            elif k == "gr":
                g = gz[o[1]]
                if g["unk"]: continue
                if kind == "S" or kind == "R" and val == "undef":
                    val = val if kind == "S" else b""
                    if g["d"] is None: v.append(("ghost", "op %d read %d bytes of the missing %s" % (i, len(val), o[1]))); continue
                    ok = [b"".join(g["d"])]
                    if g.get("dmg"): ok += [b"".join(g["d"][:j]) for j in range(len(g["d"]))]
                    if val not in ok: v.append(("gz-content", "op %d read of the compressed %s returned %s, expected %s" % (i, o[1], show(val), show(ok[0]))))
                elif g["d"] is not None and not g.get("dmg"): spur()
            elif k == "gopen":
                g = gz[o[2]]; gch.pop(o[1], None)
                if kind == "R":
                    if o[3] == "r":
                        if g["d"] is None and not g["unk"]: v.append(("ghost", "op %d opened the missing %s" % (i, o[2]))); continue
                        gch[o[1]] = {"g": o[2], "m": "r", "pos": 0, "d": None if g["unk"] or g.get("dmg") or g["Z"] else b"".join(g["d"]), "bad": False, "eof": False}
                    else:
                        if o[3] == "w": g.update(d=[], Z=False, unk=False); g.pop("dmg", None)
                        gch[o[1]] = {"g": o[2], "m": o[3], "new": b"", "bad": False, "prev": list(g["d"] or []), "unk": g["unk"] or g.get("dmg") or (g["Z"] and g["d"] is not None)}
                        g["unk"] = True
                elif o[3] == "r" and (g["d"] is None or g["unk"]): pass
                else:
                    spur(wflt)
                    if o[3] != "r": g["unk"] = True
            elif k in ("ggets", "grd", "geof"):
                c = gch.get(o[1])
                if c is None or c["bad"] or c["d"] is None: continue
                d = c["d"]; pos = c["pos"]
                if k == "geof":
                    if bool(val) and pos < len(d): v.append(("eof", "op %d eof is %s at %d of %d of %s" % (i, val, pos, len(d), c["g"])))
                    if c["eof"] and not val: v.append(("eof", "op %d eof is %s after the end of %s was read" % (i, val, c["g"])))
                elif k == "grd":
                    exp = d[pos:] if o[2] <= 0 else d[pos:pos+o[2]]
                    if kind == "S":
                        if val != exp: v.append(("gz-content", "op %d read(%s) at %d of %s returned %s, expected %s" % (i, o[2], pos, c["g"], show(val), show(exp)))); c["bad"] = True
                        c["pos"] += len(exp); c["eof"] = o[2] <= 0 or len(exp) < o[2]
                    elif kind == "R":
                        if exp: v.append(("gz-content", "op %d read(%s) at %d of %s returned nothing" % (i, o[2], pos, c["g"]))); c["bad"] = True
                    else: spur(); c["bad"] = True
                else:
                    w = self.line(d, pos)
                    if w is None: c["bad"] = True; continue
                    exp, np = w
                    if kind == "S":
                        if val != exp: v.append(("gz-content", "op %d gets at %d of %s returned %s, expected %s" % (i, pos, c["g"], show(val), show(exp)))); c["bad"] = True
                        c["pos"] = np
                    elif flt: c["bad"] = True
                    elif pos < len(d) or kind == "X": v.append(("gz-content", "op %d gets at %d of %s returned %s, expected %s" % (i, pos, c["g"], val, show(exp)))); c["bad"] = True
                    else: c["eof"] = True
            elif k in ("gput", "gflush", "gclose"):
                c = gch.get(o[1])
                if c is None: continue
                if c["m"] == "r":
                    if k == "gclose":
                        if (kind != "R" or val is not True) and not c["bad"]: spur()
                        gch.pop(o[1])
                    continue
                if k == "gput":
                    d = sdata(o[2])
                    if kind == "R" and val == len(d): c["new"] += d
                    else:
                        if not c["bad"]: spur(wflt)
                        c["bad"] = True
                elif k == "gflush":
                    if kind != "R" or val != 0:
                        if not c["bad"]: spur(wflt)
                        c["bad"] = True
                else:
                    g = gz[c["g"]]
                    if kind == "R" and val is True:
                        if not c["unk"] and not c["bad"]: g.update(d=c["prev"] + [c["new"]], unk=False)
                    elif not c["bad"]: spur(wflt)
                    gch.pop(o[1])
        if r.status == "ok":
            fs = r.fs()
            for A in ARS:
                x = fs.get(A); b = None if x is None else x[4]
                if isinstance(b, str): continue
                self.same(v, A, ar[A], b, "in the end")
            for g in GZS:
                x = fs.get(g); b = None if x is None else x[4]; m = gz[g]
                if isinstance(b, str) or m["unk"] or m.get("dmg"): continue
                if (b is None) != (m["d"] is None): v.append(("gz-file", "in the end %s %s" % (g, "is missing" if b is None else "exists"))); continue
                if b is None: continue
                try: got = zlib.decompress(b) if m["Z"] else gzip.decompress(b)
                except Exception as e: v.append(("gz-file", "in the end gzip can not read %s: %s" % (g, e))); continue
                if got != b"".join(m["d"]): v.append(("gz-file", "in the end %s holds %s, expected %s" % (g, show(got), show(b"".join(m["d"])))))
            for e, a in r.js():
                if a[0] == "NAMES":
                    n = json.loads(a[1])
                    if not any(x["unk"] for x in ar.values()) and sorted(n) != sorted(m["path"] for m in mnt.values()): v.append(("names", "in the end mounted are %s, expected %s" % (n, sorted(m["path"] for m in mnt.values()))))
            fd = r.of("FDS")
            if fd and "open=0 " not in fd[0].rest: v.append(("fd-leak", "descriptors left open at the end: " + fd[0].rest))
        return v
    @staticmethod
    def inside(n):
        if ".." in n.split("/"): return ""
        return n.lstrip("/")
    @staticmethod
    def line(d, pos):
        """the line at pos and where the next one starts; None when what gets does with it is not specified (null bytes, very long)"""
        nl = d.find(b"\n", pos); e = nl if nl >= 0 else len(d); l = d[pos:e]
        if b"\0" in l or len(l) > 8000: return None
        return l, (nl + 1 if nl >= 0 else len(d))
    def listing(self, v, i, path, A, l):
        want = {}
        for n, x in (A["mem"] or {}).items():
            if n: want[n + ("/" if x[0] else "")] = len(x[1])
        got = {}
        for row in l:
            n = row[0].lstrip("/")
            if ".." in n.split("/"): continue
            got[n] = row[4]
        if got != want: v.append(("list", "op %d list of %s returned %s, expected %s" % (i, path, got, want)))
    def same(self, v, path, A, b, when):
        if A["unk"]: return
        if A["pre"] is None or b is None:
            if (A["pre"] is None) != (b is None): v.append(("archive", "%s %s %s" % (when, path, "exists" if b is not None else "is missing")))
            return
        if not b.startswith(A["pre"]): v.append(("archive", "%s what was in %s before the archive was changed" % (when, path))); return
        if A["mem"] is None:
            if b != A["pre"]: v.append(("archive", "%s %s holds %d bytes, expected the %d it had" % (when, path, len(b), len(A["pre"]))))
            return
        try:
            z = zipfile.ZipFile(io.BytesIO(b)); got = {}
            for zi in z.infolist():
                n = zi.filename
                if not zi.flag_bits & 0x800: n = n.encode("cp437").decode("utf-8", "replace")    # the bytes as they are
                n = self.inside(n)
                if n.endswith("/"): got[n[:-1]] = (True, b"", None, None)
                else:
                    d = z.read(zi); import calendar
                    got[n] = (False, d, zi.external_attr >> 16, calendar.timegm(zi.date_time + (0, 0, 0)))
        except Exception as e:
            v.append(("archive", "%s zipfile can not read %s: %s" % (when, path, e))); return
        w = {n: x for n, x in A["mem"].items() if n}; got.pop("", None)
        if sorted(got) != sorted(w): v.append(("archive", "%s the members of %s are %s, expected %s" % (when, path, sorted(got), sorted(w)))); return
        for n, x in w.items():
            g = got[n]
            if bool(g[0]) != bool(x[0]) or g[1] != x[1]: v.append(("archive", "%s %s in %s is %s, expected %s" % (when, n, path, show(g[1]), show(x[1])))); return
            if not x[0] and (g[2] != x[2] or g[3] != x[3]//2*2): v.append(("archive-meta", "%s %s in %s has mode %o and time %s, expected %o and %s" % (when, n, path, g[2], g[3], x[2], x[3]//2*2))); return
    def oracle_mt(self, p, r):
        v = []; pre, mem, b = mkzip(p["ini"]["/z/a.zip"]); got = {}
        for e in r.events:
            if e.kind == "B":
                h, _, rest = e.rest.partition(" "); ln, _, data = rest.partition(" "); got[h] = unesc(data) if int(ln) >= 0 else b""
            elif e.kind == "J" and e.js()[0] == "X": a = e.js(); got["%s_%d" % (a[1], a[2])] = a[3]
        if any(e.kind == "RESULT" and not e.rest.startswith("rc=0") for e in r.events):
            if not fgen.faulted(r.events): v.append(("main-failed", [e.rest for e in r.of("RESULT")][0][:200]))
            return v
        um = any(a[0] == "UM" for e, a in r.js())
        for tag, ops in [("main", p["ops"])] + [("w%d" % t, o) for t, o in enumerate(p["thr"])]:
            for i, (k, n) in enumerate(ops):
                x = got.get("%s_%d" % (tag, i))
                if x is None:
                    if tag == "main" or not fgen.faulted(r.events): v.append(("lost", "read %d of %s did not finish" % (i, tag)))
                    break
                if isinstance(x, bytes):
                    if x != mem[n][1]: v.append(("mt-content", "%s read %s of %s as %s, it holds %s" % (tag, k, n, show(x), show(mem[n][1])))); break
                elif not fgen.faulted(r.events) and not um: v.append(("mt-failed", "%s could not read %s: %s" % (tag, n, x))); break
        return v
    def oracle_run(self, p, r):
        v = []; pre, mem, b = mkzip(p["ini"]["/z/app.zip"])
        want = list(range(mem["main.jsi"][1].count(b"\n"))); got = [a[2] for e, a in r.js() if a[0] == "L" and a[1] == 1]
        ex = r.of("EXIT")
        code = int(ex[-1].rest) if ex else None
        if got and got != want: v.append(("run-partial", "of %d statements %d were run" % (len(want), len(got))))
        if code == 0 and got != want: v.append(("run-silent", "the status is 0 although %d of %d statements were run" % (len(got), len(want))))
        if not fgen.faulted(r.events) and (got != want or code != 0): v.append(("run", "%d of %d statements were run, status %s" % (len(got), len(want), code)))
        return v

    def shrink(self, p):
        out = []
        for key in ("src", "ini", "gz"):
            for n in list(p[key]):
                q = json.loads(json.dumps(p)); del q[key][n]; out.append(q)
        for A in p["ini"]:
            for j2 in (3, 4):
                if len(p["ini"][A]) > j2 and p["ini"][A][j2]: q = json.loads(json.dumps(p)); q["ini"][A][j2] = 0 if j2 == 4 or p["ini"][A][3] < 8 else p["ini"][A][3]//2; out.append(q)
            for j in range(len(p["ini"][A][1])): q = json.loads(json.dumps(p)); del q["ini"][A][1][j]; out.append(q)
        for t in range(len(p.get("thr", []))): q = json.loads(json.dumps(p)); del q["thr"][t]; out.append(q)
        for j, o in enumerate(p["ops"]):
            if o[0] in ("cr", "ap"):
                for gi, (l, pf) in enumerate(o[2]):
                    if len(o[2]) > 1: q = json.loads(json.dumps(p)); del q["ops"][j][2][gi]; out.append(q)
                    for ni in range(len(l)): q = json.loads(json.dumps(p)); del q["ops"][j][2][gi][0][ni]; out.append(q)
        return out
    def tags(self, p, r):
        out = [p.get("kind", "seq")]; n = 0; ops = p["ops"]
        if "kind" in p: return out
        for e in r.events:
            if e.kind == "J" and e.js()[0] in "RX" or e.kind == "B" and e.rest[0] == "S":
                i = e.js()[1] if e.kind == "J" else int(e.rest.split()[0][1:])
                if i < len(ops): out.append(ops[i][0] + (":raised" if e.kind == "J" and e.js()[0] == "X" else ":ok"))
        return out
def show(b):
    return "nothing" if b is None else "%d bytes %r" % (len(b), b[:20])
CHECK = C()
