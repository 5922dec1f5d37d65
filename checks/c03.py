"""C03 file input: a read returns the file's bytes in order, or fails; it never returns altered or silently shortened data."""
import hashlib
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_SHORT, F_EINTR, unesc
from vlib import fgen
EIO, EACCES, EMFILE, EINTR, ENFILE = 5, 13, 24, 4, 23

class C(Check):
    pid = "C03"
    rule = ("a generated sequence of whole-file reads, channel reads, gets, seeks, tells, in-place updates, file hashes and sourced scripts over a few "
            "files, run once without faults and then with read/open/seek errors and short reads placed inside the calls it made; distinct by full event trace")
    fault_classes = {"read": [(F_ERR, [EIO, EIO, EINTR]), (F_SHORT, [1, 2, 3, 17, 100, 1000, 4095])],
                     "open": [(F_ERR, [EACCES, EMFILE, ENFILE])], "seek": [(F_ERR, [EIO])], "close": [(F_ERR, [EIO])]}
    FILES = ["/w/a", "/w/b", "/w/c.txt", "/w/d/e", "/w/none"]

    def gen(self, rng, i):
        ini = {}
        for f in self.FILES[:-1]:
            if rng.random() < .85: ini[f] = fgen.gspec(rng, ("bin", "txt", "lines", "lines", "nul", "utf"))
        for s in range(rng.randint(0, 2)):
            ini["/w/s%d.jsi" % s] = ["scr", rng.choice([1, 3, 30, 120, 300, 600]), rng.randrange(100) * 10 + s]
        ops = []; op = {}
        plain = [f for f in self.FILES]
        scr = [f for f in ini if f.endswith(".jsi")]
        nz = lambda f: f in ini and (ini[f][0] in ("lines", "utf") and (ini[f][0] == "lines" or ini[f][1] < 2500) or ini[f][0] == "txt" and ini[f][1] <= 8000)
        size = lambda f: len(self.data(ini[f])) if f in ini else 0
        for _ in range(rng.randint(1, 16)):
            a = rng.random()
            if op and a < .65:
                s = rng.choice(sorted(op)); f, m = op[s]; b = rng.random()
                if b < .3: ops.append(["rd", s, rng.choice([-1, -1, 1, 2, 10, 100, 4096, 8191, 8192, 8193, 10000])])
                elif b < .55: ops.append(["gets", s] if nz(f) else ["rd", s, rng.choice([3, 50, 5000])])
                elif b < .7: 
                    w = rng.choice(["set", "set", "cur", "end"]); n = size(f)
                    ops.append(["seek", s, {"set": rng.randint(0, n + 3), "cur": rng.randint(-3, 50), "end": -rng.randint(0, n)}[w], w])
                elif b < .78: ops.append(["tell", s])
                elif b < .86: ops.append(["eof", s])
                elif b < .93 and m == "r+" and nz(f) and size(f) > 1:
                    k = rng.randint(0, size(f)-1); ops += [["seek", s, k, "set"], ["wr", s, ["txt", rng.randint(1, min(400, size(f) - k)), rng.randrange(99)]], ["seek", s, rng.randint(0, k), "set"]]
                else: ops.append(["close", s]); del op[s]
            elif a < .85:
                s = rng.choice([0, 1, 2]); used = [f for f, m in op.values()]; wr = [f for f, m in op.values() if m == "r+"]
                if s in op: ops.append(["close", s]); del op[s]; continue
                m = rng.choice(["r", "rb", "r", "r+"]); c = [f for f in plain + scr if f not in (used if m == "r+" else wr)]
                if not c: continue
                f = rng.choice(c); op[s] = (f, m); ops.append(["open" if rng.random() < .8 else "reopen", s, f, m])
            else:
                wr = [f for f, m in op.values() if m == "r+"]; c = [f for f in plain + scr if f not in wr]
                if not c: continue
                f = rng.choice(c); b = rng.random()
                if f in scr or (scr and b < .25 and scr[0] in c): ops.append(["src", f if f in scr else scr[0]])
                elif b < .7: ops.append(["fr", f])
                elif b < .85: ops.append(["hash", f, rng.choice(["sha256", "md5", "sha1"])])
                else: ops.append(["size", f])
        for s in sorted(op):
            if rng.random() < .8: ops.append(["close", s])
        return {"ini": ini, "ops": ops, "want_faults": True, "seed": rng.randrange(1 << 30)}

    def data(self, d):
        if d[0] == "scr":
            import random
            r = random.Random(d[2]); n = d[1]; o = []
            for k in range(n):
                if r.random() < .3: o.append("// " + "x" * r.choice([0, 10, 70, 200]))
                o.append("simlog('L',%d,%d);" % (d[2] % 10, k))
            return ("\n".join(o) + ("\n" if d[2] % 3 else "")).encode()
        return fgen.gdata(d)

    def build(self, p):
        sc = Scenario(p["seed"]); sc.dir("/w/d")
        for f, d in p["ini"].items(): sc.file(f, self.data(d), 0o644)
        js = [fgen.PRE]
        for i, o in enumerate(p["ops"]):
            k = o[0]
            if k == "fr": b = "return File.read(%s);" % fgen.jstr(o[1])
            elif k == "hash": b = "return Util.hash('',{file:%s,type:'%s'});" % (fgen.jstr(o[1]), o[2])
            elif k == "size": b = "return File.size(%s);" % fgen.jstr(o[1])
            elif k == "src": b = "source(%s); return 1;" % fgen.jstr(o[1])
            elif k == "open": b = "ch[%d]=null; ch[%d]=new Channel(%s,'%s'); return 1;" % (o[1], o[1], fgen.jstr(o[2]), o[3])
            elif k == "reopen": b = "if (!ch[%d]) ch[%d]=new Channel(%s,'%s'); else if (!ch[%d].open(%s,'%s')) throw 'reopen'; return 1;" % (o[1], o[1], fgen.jstr(o[2]), o[3], o[1], fgen.jstr(o[2]), o[3])
            elif k == "rd": b = "return ch[%d].read(%s);" % (o[1], o[2] if o[2] > 0 else "")
            elif k == "gets": b = "return ch[%d].gets();" % o[1]
            elif k == "seek": b = "return ch[%d].seek(%d,'%s');" % (o[1], o[2], o[3])
            elif k == "wr": sc.file("/in/d%d" % i, fgen.gdata(o[2])); b = "return ch[%d].write(simget('/in/d%d'));" % (o[1], i)
            else: b = "return ch[%d].%s();" % (o[1], k)
            js.append("T(%d,function(){ %s });" % (i, b))
        js.append("simlog('END');")
        sc.phase("\n".join(js))
        return sc

    def oracle(self, p, r):
        v = []; files = {f: self.data(d) for f, d in p["ini"].items()}; ch = {}
        res, tail = fgen.windows(r, len(p["ops"]))
        # sourced scripts log inside the window of their operation
        if not any(a[0] == "END" for e, a in r.js()): v.append(("script-died", "the program stopped early: " + repr(r.events[-4:])[:300]))
        stop = False
        for i, o in enumerate(p["ops"]):
            if i not in res or stop: continue
            k = o[0]; kind, val, evs = res[i][0]; flt = fgen.faulted(evs)
            def spur():
                if not flt: v.append(("spurious-failure", "op %d %s failed without any fault (%s)" % (i, o[:3], val)))
            if k == "fr":
                exp = files.get(o[1])
                if kind == "S":
                    if exp is None: v.append(("ghost", "op %d read %d bytes from the missing %s" % (i, len(val), o[1])))
                    elif val != exp: v.append(("content", "op %d read of %s returned %s, the file holds %s" % (i, o[1], show(val), show(exp))))
                elif exp is not None and not (kind == "R" and exp == b""): spur()
            elif k == "hash":
                exp = files.get(o[1])
                if kind == "S":
                    if exp is None: v.append(("ghost", "op %d hashed the missing %s" % (i, o[1])))
                    elif val.decode() != hashlib.new(o[2], exp).hexdigest(): v.append(("hash", "op %d %s of %s is %s" % (i, o[2], o[1], val)))
                elif exp is not None: spur()
            elif k == "size":
                exp = files.get(o[1])
                if kind == "R" and val != "undef":
                    if exp is None or val != len(exp): v.append(("size", "op %d size of %s is %s" % (i, o[1], val)))
                elif exp is not None: spur()
            elif k == "src":
                n = self.nlines(p["ini"][o[1]]) if o[1] in p["ini"] else None
                got = [e.js()[2] for e in evs if e.kind == "J" and e.js()[0] == "L"]
                if kind == "R":
                    if n is None or got != list(range(n)): v.append(("script", "op %d source %s ran %s of %s statements" % (i, o[1], len(got), n)))
                else:
                    if got: v.append(("script-partial", "op %d source %s failed (%s) after running %d statements of a file it could not read" % (i, o[1], val, len(got))))
                    if n is not None: spur()
            elif k in ("open", "reopen"):
                exp = files.get(o[2])
                ch.pop(o[1], None)
                if kind == "R":
                    if exp is None: v.append(("ghost", "op %d opened the missing %s" % (i, o[2])))
                    else: ch[o[1]] = {"f": o[2], "pos": 0, "bad": 0, "eof": None}
                elif exp is not None: spur()
            else:
                c = ch.get(o[1])
                if c is None: continue
                d = files[c["f"]]; pos = c["pos"]
                if flt: c["err"] = 1
                if k == "close":
                    if kind != "R" or val is not True:
                        if not c["bad"] and not c.get("err"): spur()
                    ch.pop(o[1]); continue
                if k == "seek":
                    base = 0 if o[3] == "set" else pos if o[3] == "cur" else len(d)
                    if c["bad"] and (c["bad"] > 1 or o[3] == "cur"): continue
                    if kind == "R" and val == 0:
                        if base + o[2] < 0: v.append(("seek", "op %d seek before the start succeeded" % i))
                        c["pos"] = base + o[2]; c["eof"] = None; c["bad"] = 2 if flt else 0
                    else:
                        if base + o[2] >= 0: spur()
                        if base + o[2] >= 0 or flt: c["bad"] = 2
                    continue
                if c["bad"]:
                    if k == "wr": stop = True
                    continue
                if k == "rd":
                    exp = d[pos:] if o[2] <= 0 else d[pos:pos+o[2]]
                    if kind == "S":
                        if val != exp: v.append(("content", "op %d read(%s) at %d of %s returned %s, expected %s" % (i, o[2], pos, c["f"], show(val), show(exp))))
                        c["pos"] += len(exp); c["eof"] = True if o[2] <= 0 or len(exp) < o[2] else c["eof"]
                    elif kind == "R":
                        if exp: v.append(("content", "op %d read(%s) at %d of %s returned nothing, expected %s" % (i, o[2], pos, c["f"], show(exp))))
                        c["eof"] = True
                    else: spur(); c["bad"] = 1
                elif k == "gets":
                    nl = d.find(b"\n", pos); exp = None if pos >= len(d) else d[pos:nl] if nl >= 0 else d[pos:]
                    if kind == "S":
                        if val != exp: v.append(("content", "op %d gets at %d of %s returned %s, expected %s" % (i, pos, c["f"], show(val), show(exp))))
                        else: c["pos"] = nl + 1 if nl >= 0 else len(d)
                    elif flt: c["bad"] = 1
                    elif exp is None: c["eof"] = True
                    else: spur(); c["bad"] = 1
                    if kind == "X" and not flt: v.append(("spurious-failure", "op %d gets raised %s" % (i, val)))
                elif k == "tell":
                    if kind != "R" or val != pos:
                        if flt: continue
                        v.append(("tell", "op %d tell on %s returned %s, expected %d" % (i, c["f"], val, pos)))
                elif k == "eof":
                    if val is True and pos < len(d): v.append(("eof", "op %d eof is true at %d of %d of %s" % (i, pos, len(d), c["f"])))
                    if c["eof"] and val is not True: v.append(("eof", "op %d eof is not true after the end of %s was read" % (i, c["f"])))
                elif k == "wr":
                    w = fgen.gdata(o[2])
                    if kind == "R" and val == len(w): files[c["f"]] = d[:pos] + w + d[pos+len(w):]; c["pos"] += len(w)
                    else:
                        spur(); c["bad"] = 2
                        stop = True   # the file's content is not known from here on
        if r.status == "ok" and not stop and not any(c["bad"] for c in ch.values()):
            fs = r.fs()
            anyfault = fgen.faulted(r.events)
            for f, exp in files.items():
                g = fs.get(f)
                if anyfault and any(o[0] == "wr" for o in p["ops"]): break
                if g is None or g[4] != exp: v.append(("changed", "%s was changed: %s" % (f, show(g and g[4]))))
            fd = r.of("FDS")
            if fd and "open=0 " not in fd[0].rest: v.append(("fd-leak", "descriptors left open at the end: " + fd[0].rest))
        return v
    def nlines(self, d): return d[1]
    def tags(self, p, r):
        out = []
        for e in r.events:
            if e.kind == "J":
                a = e.js()
                if a[0] == "X": out.append("op-raised")
                elif a[0] == "R": out.append("op-returned")
            elif e.kind == "B": out.append("op-data")
        return out
def show(b):
    return "nothing" if b is None else "%d bytes %r" % (len(b), b[:20])
CHECK = C()
