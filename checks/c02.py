"""C02 file output: what a write, append, copy, truncate or channel says it stored is what the disk holds."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_SHORT, F_FULL, F_EINTR, unesc
from vlib import fgen
EIO, EACCES, ENOSPC, EMFILE, EROFS, EDQUOT = 5, 13, 28, 24, 30, 122
UNK = object()

class C(Check):
    pid = "C02"
    rule = ("a generated sequence of whole-file writes, appends, copies, truncations and buffered channel sessions over a few files, run once "
            "without faults and then with write/close/open/seek errors, short writes and full disks placed inside the calls it made; distinct by full event trace")
    fault_classes = {"write": [(F_ERR, [EIO, ENOSPC, EDQUOT]), (F_SHORT, [1, 3, 100, 4096]), (F_FULL, [0, 1, 50, 4096])],
                     "close": [(F_ERR, [EIO, ENOSPC])], "open": [(F_ERR, [EACCES, EMFILE, EROFS, ENOSPC])], "seek": [(F_ERR, [EIO])],
                     "trunc": [(F_ERR, [EIO, ENOSPC])], "read": [(F_ERR, [EIO]), (F_SHORT, [1, 17])], "chmod": [(F_ERR, [EACCES])]}
    PATHS = ["/w/a", "/w/b", "/w/c.txt", "/w/d/e", "rel"]
    FULL = {"rel": "/w/rel"}

    def gen(self, rng, i):
        ini = {}
        for pth in ("/w/a", "/w/b", "/w/d/e"):
            if rng.random() < .6: ini[pth] = [fgen.gspec(rng), rng.choice([0o644, 0o600, 0o755, 0o640])]
        ops = []; openf = {}; lk = {}; names = list(self.PATHS)
        if ini and rng.random() < .3:      # other names for the same file
            t = rng.choice(sorted(ini))
            for n in rng.sample(["/w/l", "/w/h"], rng.choice([1, 1, 2])): lk[n] = t; names += [n, n]
            if rng.random() < .5: names += [t, t]
        grp = lambda x: lk.get(x, x)
        free = lambda: [x for x in names if grp(x) not in [grp(y) for y in openf.values()]]
        for _ in range(rng.randint(1, 14)):
            a = rng.random(); fr = free()
            if openf and a < .6:
                s = rng.choice(sorted(openf)); b = rng.random()
                if b < .4: ops.append(["w", s, fgen.gspec(rng)])
                elif b < .55: ops.append(["puts", s, fgen.gspec(rng, ("txt", "lines"))])
                elif b < .7: ops.append(["seek", s, rng.choice([0, 1, 5, 100, 4096, 9000, -3]), rng.choice(["set", "set", "cur", "end"])])
                elif b < .8: ops.append(["flush", s])
                elif b < .86: ops.append(["ctr", s, rng.choice([0, 3, 100, 5000])])
                else: ops.append(["close", s]); del openf[s]
            elif a < .75 and fr:
                s = rng.choice([0, 1, 2])
                if s in openf: ops.append(["close", s]); del openf[s]; fr = free()
                pth = rng.choice(fr); openf[s] = pth
                ops.append(["open", s, pth, rng.choice(["w", "w", "wb", "w+", "wb+", "a", "ab", "r+", "rb+", "a+"])])
            elif a < .88 and fr: ops.append(["fw", rng.choice(fr), fgen.gspec(rng), rng.choice([None, None, None, "w", "wb", "a", "ab", "r+", "w+"])])
            elif a < .95 and len(set(fr)) > 1: x, y = rng.sample(sorted(set(fr)), 2) if not lk or rng.random() < .5 else rng.sample(sorted(set(fr), key=lambda n: (grp(n) not in lk.values(), n))[:3], 2); ops.append(["cp", x, y, rng.choice([True, True, False])])
            elif fr: ops.append(["tr", rng.choice(fr), rng.choice([0, 1, 50, 3000, 9000])])
            if rng.random() < .2 and fr: ops.append(["snap", rng.choice(fr)])
        for s in sorted(openf):
            if rng.random() < .9: ops.append(["close", s])
        p = {"ini": {k: v for k, v in ini.items()}, "ops": ops, "want_faults": True, "seed": rng.randrange(1 << 30)}
        if lk: p["lk"] = lk
        if rng.random() < .25: p["room"] = rng.choice([0, 100, 5000, 20000])
        return p

    def build(self, p):
        sc = Scenario(p["seed"]); tot = 0
        sc.dir("/w/d")
        for pth, (d, m) in p["ini"].items():
            b = fgen.gdata(d); sc.file(pth, b, m); tot += len(b)
        js = [fgen.PRE]; nd = 0
        for n, t in sorted(p.get("lk", {}).items()): js.append("simquiet(1); File.link(%s,%s%s); simquiet(0);" % (fgen.jstr(t), fgen.jstr(n), ",true" if n == "/w/h" else ""))
        for i, o in enumerate(p["ops"]):
            k = o[0]; body = None
            if k in ("fw", "w", "puts"):
                b = fgen.gdata(o[2]); sc.file("/in/d%d" % i, b); tot += len(b); dv = "simget('/in/d%d')" % i
            if k == "fw": body = "return File.write(%s,%s%s);" % (fgen.jstr(o[1]), dv, "" if o[3] is None else ",'%s'" % o[3])
            elif k == "cp": body = "return File.copy(%s,%s%s);" % (fgen.jstr(o[1]), fgen.jstr(o[2]), ",true" if o[3] else "")
            elif k == "tr": body = "return File.truncate(%s,%d);" % (fgen.jstr(o[1]), o[2])
            elif k == "open": body = "ch[%d]=null; ch[%d]=new Channel(%s,'%s'); return 1;" % (o[1], o[1], fgen.jstr(o[2]), o[3])
            elif k == "w": body = "return ch[%d].write(%s);" % (o[1], dv)
            elif k == "puts": body = "return ch[%d].puts(%s);" % (o[1], dv)
            elif k == "seek": body = "return ch[%d].seek(%d,'%s');" % (o[1], o[2], o[3])
            elif k == "flush": body = "return ch[%d].flush();" % o[1]
            elif k == "ctr": body = "var a=ch[%d].flush(); return (a!=0?-1:ch[%d].truncate(%d));" % (o[1], o[1], o[2])
            elif k == "close": body = "return ch[%d].close();" % o[1]
            elif k == "snap": js.append("simsnap(%s);" % fgen.jstr(self.FULL.get(o[1], o[1]))); continue
            js.append("T(%d,function(){ %s });" % (i, body))
        js.append("simlog('END');")
        if "room" in p: sc.set(disk_cap=tot + 64*20 + p["room"])
        sc.phase("\n".join(js))
        return sc

    def oracle(self, p, r):
        v = []; F = self.FULL
        files = {k: fgen.gdata(d) for k, (d, m) in p["ini"].items()}
        modes = {k: m for k, (d, m) in p["ini"].items()}
        chans = {}; lk = dict(p.get("lk", {}))      # other name -> name holding the contents
        class Names(dict):
            def get(self, x, d=None): x = F0.get(x, x); return lk.get(x, x)
        F0 = F; F = Names()
        res, tail = fgen.windows(r, len(p["ops"]))
        if not any(a[0] == "END" for e, a in r.js()): v.append(("script-died", "the program stopped early: " + repr(r.events[-4:])[:300]))
        snaps = [e for e in r.events if e.kind == "SNAP"]; sn = 0
        tight = "room" in p
        def want(path, what):
            c = files.get(path)
            return c
        never = set()         # names whose linkage is unknown after a failed copy
        def set_(path, val): files[path] = UNK if path in never else val
        for i, o in enumerate(p["ops"]):
            k = o[0]
            if k == "snap":
                if sn >= len(snaps): continue
                e = snaps[sn]; sn += 1; x = e.rest.split(" ", 2); path = F.get(o[1], o[1]); exp = files.get(path)
                if exp is UNK: continue
                got = None if x[1] == "-1" else unesc(x[2] if len(x) > 2 else "")
                if got != exp: v.append(("content", "after op %d %s holds %s, expected %s" % (i, path, show(got), show(exp))))
                continue
            if i not in res: continue
            kind, val, evs = res[i][0]
            flt = fgen.faulted(evs) or tight
            def spur(msg):
                if not flt: v.append(("spurious-failure", "op %d %s failed without any fault: %s (%s)" % (i, o[:3], msg, val)))
            if k == "fw":
                path = F.get(o[1], o[1]); data = fgen.gdata(o[2]); m = o[3] or "wb+"; old = files.get(path)
                isr = m.startswith("r")
                if kind == "R" and val == len(data):
                    if isr and old is None: v.append(("ghost", "op %d wrote %s in mode %s although it does not exist" % (i, path, m)))
                    elif m[0] == "w": set_(path, data)
                    elif old is UNK: pass
                    elif m[0] == "a": set_(path, (old or b"") + data)
                    else: set_(path, data + old[len(data):])
                else:
                    if not (isr and old is None):
                        if not (isr and old is UNK): spur("write")
                        set_(path, UNK)
                        if kind == "R": v.append(("short-success", "op %d File.write returned %s of %d bytes without raising" % (i, val, len(data))))
            elif k == "cp":
                a, b = F.get(o[1], o[1]), F.get(o[2], o[2]); bn = F0.get(o[2], o[2]); same = a == b; src, dst = files.get(a), files.get(b)
                def unlink():         # the name bn gets a file of its own; other names keep the old one
                    nonlocal b
                    if bn in lk: del lk[bn]; b = bn
                    elif lk.get("/w/h") == b:
                        files["/w/h"] = files[b]; modes["/w/h"] = modes.get(b); del lk["/w/h"]
                if (src is UNK or kind == "X") and src is not None and (bn in lk or b in lk.values()) and (o[3] or dst is UNK):
                    spur("copy") if src is not UNK and kind == "X" else 0
                    for x in {a, b, bn} | set(lk) | set(lk.values()):
                        if x in (a,) and not same and a not in lk.values(): continue
                        never.add(x); set_(x, UNK); modes.pop(x, None); lk.pop(x, None)
                    continue
                if src is UNK:
                    modes.pop(b, None)
                    if kind == "R" or dst is not None: set_(b, UNK)
                    elif kind == "X": set_(b, UNK)
                    continue
                if kind == "R":
                    if src is None: v.append(("ghost", "op %d copied the missing file %s" % (i, a))); continue
                    if dst is not None and dst is not UNK and not o[3]: v.append(("overwrite", "op %d copied over %s without being asked to" % (i, b)))
                    if dst is not None: unlink()
                    set_(b, src)
                    if same: modes.pop(b, None)
                    elif not fgen.faulted(evs): modes[b] = modes.get(a)
                    else: modes.pop(b, None)
                else:
                    if src is None: continue
                    if dst is not None and not o[3]: continue
                    spur("copy"); set_(b, UNK); modes.pop(b, None)
            elif k == "tr":
                path = F.get(o[1], o[1]); old = files.get(path)
                if kind == "R":
                    if old is None: v.append(("ghost", "op %d truncated the missing file %s" % (i, path)))
                    elif old is not UNK: set_(path, (old + b"\0"*o[2])[:o[2]])
                elif old is not None:
                    if old is not UNK: spur("truncate")
                    set_(path, UNK)
            elif k == "open":
                path = F.get(o[2], o[2]); m = o[3]; old = files.get(path)
                # a replaced channel object is closed whenever it is collected
                if kind == "R":
                    if m[0] == "r" and old is None: v.append(("ghost", "op %d opened the missing file %s" % (i, path)))
                    if m[0] == "w": set_(path, b"")
                    elif m[0] == "a" and old is None: set_(path, b"")
                    chans[o[1]] = {"path": path, "pos": 0, "app": m[0] == "a", "bad": files.get(path) is UNK or files.get(path) is None}
                else:
                    chans.pop(o[1], None)
                    if not (m[0] == "r" and old is None):
                        if not (m[0] == "r" and old is UNK): spur("open")
                        set_(path, UNK)
            else:
                c = chans.get(o[1])
                if c is None: continue
                path = c["path"]
                fail = kind != "R"
                if k in ("w", "puts"):
                    data = fgen.gdata(o[2]) + (b"\n" if k == "puts" else b"")
                    ok = kind == "R" and (val == len(data) if k == "w" else val is True)
                    if ok and not c["bad"]:
                        cur = files[path]; pos = len(cur) if c["app"] else c["pos"]
                        cur = cur + b"\0"*(pos - len(cur)) if data else cur
                        if data: files[path] = cur[:pos] + data + cur[pos+len(data):]
                        c["pos"] = pos + len(data)
                    elif not ok and not c["bad"]: spur(k); c["bad"] = True; set_(path, UNK)
                elif k == "seek":
                    if c["bad"]: continue
                    base = 0 if o[3] == "set" else c["pos"] if o[3] == "cur" else len(files[path])
                    if kind == "R" and val == 0:
                        if base + o[2] < 0: v.append(("seek", "op %d seek to %d succeeded" % (i, base+o[2])))
                        c["pos"] = base + o[2]
                    else:
                        if base + o[2] >= 0: spur("seek"); c["bad"] = True; set_(path, UNK)
                        elif fgen.faulted(evs): c["bad"] = True; set_(path, UNK)
                elif k == "flush":
                    if not (kind == "R" and val == 0):
                        if not c["bad"]: spur("flush"); c["bad"] = True; set_(path, UNK)
                elif k == "ctr":
                    if kind == "R" and val == 0:
                        if not c["bad"]: files[path] = (files[path] + b"\0"*o[2])[:o[2]]
                    elif not c["bad"]: spur("truncate"); c["bad"] = True; set_(path, UNK)
                elif k == "close":
                    if not (kind == "R" and val is True):
                        if not c["bad"]: spur("close"); set_(path, UNK)
                    chans.pop(o[1], None)
        if fgen.faulted(tail) or tight:
            for c in chans.values(): set_(c["path"], UNK)
        if r.status == "ok":
            fs = r.fs()
            for path in set(files) | set(x for x in fs if x.startswith("/w/") and fs[x][0] == "f"):
                exp = files.get(lk.get(path, path))
                if exp is UNK: continue
                got = fs.get(path)
                gd = None if got is None else got[4]
                if isinstance(gd, str) or exp is not None and len(exp) > 65536: continue
                if gd != exp: v.append(("content", "in the end %s holds %s, expected %s" % (path, show(gd), show(exp))))
                elif got and path in modes and modes[path] is not None and got[1] != modes[path] and not fgen.faulted(r.events): v.append(("mode", "%s has mode %o, expected %o" % (path, got[1], modes[path])))
            fd = r.of("FDS")
            if fd and "open=0 " not in fd[0].rest: v.append(("fd-leak", "descriptors left open at the end: " + fd[0].rest))
        return v

    def tags(self, p, r):
        out = []
        for e, a in r.js():
            if a[0] == "X": out.append("op-raised")
            elif a[0] == "R": out.append("op-returned")
        if "room" in p: out.append("small-disk")
        return out
def show(b):
    return "nothing" if b is None else "%d bytes %r" % (len(b), b[:20])
CHECK = C()
