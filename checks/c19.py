"""C19 virtual file systems: a mounted VFS shows exactly the files, bytes, sizes and times its script, fossil repository or sqlar archive gives, read-only, until it is unmounted"""
import json, errno, os, random, sqlite3, zlib, tempfile
from vlib import build as vbuild
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_EINTR, F_SHORT, F_DELAY, F_ZERO
from vlib.fgen import jstr
NAMES = ["a.txt", "b.txt", "d/x.txt", "d/y.js", "d/e/z.txt", "r.js", "d2/a.txt", "q"]
MPS = ["/v", "/v2", "/v/d/x", "/w/n", "/v/d", None]
NAT = {"/w/n/a.txt": "native a\n", "/w/n/real.txt": "native real\n"}
HEX = "abcdef0123"
JSPRE = """
var CNT={}, CH=[], N=[];
function T(i,f) { var r; try { r=f(); } catch(e) { simlog('r',i,1,''+e); return; } simlog('r',i,0,r===undefined?null:r); }
function ACT(k,op,mount,arg) {
  var key=(op==='file'?'file:'+arg:op), c=CNT[k+key]; if (c===undefined) c=0; CNT[k+key]=c+1;
  simlog('cb',k,op,mount,arg);
  var b=SP[k].beh[key], a=(b===undefined || c>=b.length)?['ok']:b[c];
  if (a[0]==='nest') { for (var f of N[a[1]]) f(); }
  if (a[0]==='throw') throw 'ACT '+op;
  if (a[0]==='undef') return;
  if (a[0]==='num') return 7;
  if (a[0]==='null') return null;
  if (a[0]==='obj') return {a:1};
  if (a[0]==='badel') return [1];
  if (a[0]==='dup') return [{file:'a'},{file:'a'}];
  if (a[0]==='alt') return a[1];
  if (op==='init') return {spec:k};
  if (op==='list') return SP[k].list;
  if (op==='file') return SP[k].data[arg];
  return;
}
"""
class C(Check):
    pid = "C19"
    quick_s = 40
    max_variants = 3
    rule = ("generated virtual file systems, their file lists and contents given by options, by callbacks or by a type, callbacks that throw, return the wrong thing or themselves read, mount and unmount, "
            "nested and overlapping mounts, mounts over native directories, channels held across unmounts, option changes, writes that must fail, other interpreters and threads with mounts of the same "
            "names; and fossil repositories and sqlar archives mounted under failing, short and interrupted commands, pipes and database reads")
    E = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOMEM]
    fault_classes = {"open": [(F_ERR, E)], "read": [(F_ERR, [errno.EIO]), (F_SHORT, [1, 7])], "write": [(F_ERR, [errno.EIO, errno.ENOSPC]), (F_SHORT, [1, 3])], "close": [(F_ERR, [errno.EIO])],
                     "popen": [(F_ERR, [errno.EMFILE, errno.ENOMEM])], "pread": [(F_ERR, [errno.EIO]), (F_SHORT, [1, 3]), (F_EINTR, [0])], "wait": [(F_ERR, [errno.ECHILD]), (F_EINTR, [0])],
                     "pclose": [(F_ERR, [errno.ECHILD])], "fork": [(F_ERR, [errno.EAGAIN])], "pipe": [(F_ERR, [errno.EMFILE])], "realpath": [(F_ERR, [errno.EACCES, errno.EIO])],
                     "dbopen": [(F_ERR, [errno.EIO, errno.EMFILE])], "dbread": [(F_ERR, [errno.EIO]), (F_SHORT, [10, 100])], "dblock": [(F_ERR, [errno.EIO])], "dbsize": [(F_ERR, [errno.EIO])],
                     "seek": [(F_ERR, [errno.EIO])], "opendir": [(F_ERR, E)], "stat": [(F_ERR, E)]}
    def text(self, rng, js):
        if js: return "simlog('src',%d);%s return %d;" % (rng.randrange(99), rng.choice(["\n", "//c\n", " "]), rng.randrange(1000))
        r = rng.random()
        if r < .1: return ""
        if r < .2: return "".join(rng.choice("ab\n") for _ in range(rng.choice([4095, 4096, 8191, 8192, 8193, 10000])))
        if r < .3: return "".join(rng.choice("aé€\n") for _ in range(rng.randint(1, 60)))
        return "".join(rng.choice("abcd 0123\n\n") for _ in range(rng.choice([1, 5, 20, 60, 300])))
    def spec(self, rng, p, mode=None):
        mode = mode or rng.choice(["cb", "cb", "cb", "list", "type", "mix"])
        fs = []; used = set()
        if rng.random() < .25 and mode not in ("fossil", "sqlar"):
            fs.append(["ed", None, None, 1300000000, 0o40755]); used.add("ed")
        for n in rng.sample(NAMES, rng.choice([1, 2, 3, 5, 8])):
            t = self.text(rng, n.endswith(".js")); b = len(t.encode())
            sz = b if rng.random() < .75 or mode in ("fossil", "sqlar") or n.endswith(".js") else rng.choice([max(1, b - 1), b + 1, b + 50, 1])
            fs.append([n, t, sz, rng.choice([1400000000, 1, 999999999, rng.randrange(1600000000)]), rng.choice([0o444, 0o644, 0o400, 0o755])])
        s = {"mode": mode, "files": fs, "beh": {}, "noadd": rng.random() < .1 and mode not in ("fossil", "sqlar"), "strts": rng.random() < .3, "own": [rng.random() < .5 for _ in fs]}
        if mode in ("cb", "type", "mix"):
            for key in ["init", "list", "done"] + ["file:" + f[0] for f in fs]:
                if rng.random() < .25: s["beh"][key] = [self.act(rng, p, key) for _ in range(rng.choice([1, 1, 2, 3]))]
        return s
    def act(self, rng, p, key):
        r = rng.random()
        if r < .35:
            ops = [self.op(rng, p, True) for _ in range(rng.choice([1, 1, 2, 3]))]
            p["nested"].append(ops); return ["nest", len(p["nested"]) - 1]
        if r < .6: return ["throw"]
        if key == "list": return [rng.choice(["undef", "num", "null", "obj", "badel", "dup", "ok"])]
        if key == "init": return [rng.choice(["num", "null", "obj", "ok"])]
        if key == "done": return [rng.choice(["num", "ok"])]
        return rng.choice([["undef"], ["num"], ["null"], ["obj"], ["alt", "other"], ["alt", ""], ["ok"], ["ok"]])
    def path(self, rng, p):
        m = rng.choice([x or "/vfs%d" % rng.choice([1, 1, 2]) for x in p["mps"]]); n = rng.choice(NAMES)
        r = rng.random()
        if r < .12: n = rng.choice(["zz", "d", "d/e", "ed", "d2", "real.txt"])
        return m + "/" + n
    def op(self, rng, p, nested=False):
        p["n"] += 1; i = p["n"]
        mp = lambda: rng.choice([x or "/vfs%d" % rng.choice([1, 1, 2]) for x in p["mps"]])
        r = rng.random()
        if r < (.1 if not nested else .2): return [i, "mount", rng.randrange(p["ns"]), rng.choice(p["mps"])]
        if r < (.17 if not nested else .4): return [i, "unmount", mp()]
        if r < .44: return [i, "read", self.path(rng, p)]
        if r < .47: return [i, "list"]
        if r < .57: return [i, rng.choice(["exists", "isfile", "isdir", "size", "mtime", "stat"]), rng.choice([self.path(rng, p), self.path(rng, p), mp()])]
        if r < .64: return [i, "glob", rng.choice([mp(), mp(), mp() + "/d", self.path(rng, p)]), rng.random() < .6, rng.choice(["", "", "f", "d"])]
        if r < .70: return [i, "open", rng.randrange(3), self.path(rng, p)]
        if r < .84:
            k = rng.choice(["gets", "gets", "cread", "cread", "seek", "tell", "eof", "close"]); c = rng.randrange(3)
            if k == "cread": return [i, k, c, rng.choice([1, 2, 5, 20, 4096])]
            if k == "seek": return [i, k, c, rng.choice(["set", "cur", "end"]), rng.choice([0, 1, 2, -1, -2, 5, -5])]
            return [i, k, c]
        if r < .88: return [i, "source", mp() + "/" + rng.choice(["r.js", "d/y.js"])]
        if r < .92 and not p["thr"]: return [i, rng.choice(["write", "remove", "append", "wplus"]), self.path(rng, p)]
        if r < .94 and not p["thr"]: return [i, "copy", self.path(rng, p)]
        if r < .97: return [i, "fconf", mp(), rng.choice(NAMES), rng.choice([{"size": 1}, {"size": 3}, {"size": 500}, {"data": "new data\n"}, {"data": "n", "size": 1}])]
        if r < .98: return [i, "sub", mp()]
        if r < .986: return [i, "info", mp()]
        if r < .99: return [i, "bad", rng.randrange(6), rng.randrange(p["ns"])]
        return [i, rng.choice(["type", "untype"]), rng.randrange(p["ns"])]
    def gen(self, rng, i):
        B = rng.random() < .3
        p = {"seed": rng.randrange(1 << 30), "idx": i, "cfg": {"stdio_buf": rng.choice([0, 512, 4096])}, "faults": [], "events": [], "nested": [], "ops": [], "ops2": [], "n": 0,
             "ns": rng.choice([1, 2, 3]), "mps": rng.sample(MPS, rng.choice([1, 2, 3])), "thr": (not B) and rng.random() < .15, "B": B, "specs": []}
        for k in range(p["ns"]): p["specs"].append(self.spec(rng, p, rng.choice(["fossil", "sqlar"]) if B and (k == 0 or rng.random() < .6) else None))
        for k, s in enumerate(p["specs"]):
            if s["mode"] == "type": p["n"] += 1; p["ops"].append([p["n"], "type", k])
        p["n"] += 1; p["ops"].append([p["n"], "mount", 0, p["mps"][0]])
        for _ in range(rng.choice([5, 10, 20, 40])): p["ops"].append(self.op(rng, p))
        if p["thr"]:
            p["cfg"].update(p_edge=rng.choice([0, 200, 2000]), p_sync=rng.choice([0, 300, 700]))
            for k, s in enumerate(p["specs"]):
                if s["mode"] == "type": p["n"] += 1; p["ops2"].append([p["n"], "type", k])
            p["n"] += 1; p["ops2"].append([p["n"], "mount", 0, p["mps"][0]])
            for _ in range(rng.choice([5, 10, 20])): p["ops2"].append(self.op(rng, p))
        p["want_faults"] = 0 if p["thr"] else rng.choice([0, 1, 1, 2]) if not B else rng.choice([1, 1, 2, 3])
        return p
    def place(self, rng, p, base): return [] if p["thr"] or not p["want_faults"] else super().place(rng, p, base)
    # ---- the script
    def opt(self, p, k, path):
        s = p["specs"][k]; o = []
        if path: o.append("mount:" + jstr(path))
        m = s["mode"]
        if m in ("cb", "mix"): o.append("callback:CB%d" % k)
        if m in ("list", "mix"): o.append("fileList:SP[%d].list" % k)
        if m == "type": o.append("type:'T%d'" % k)
        if m in ("fossil", "sqlar"): o += ["type:'%s'" % m, "file:'/w/ar%d'" % k]
        if s["noadd"] and m != "type": o.append("noAddDirs:true")
        return "{" + ",".join(o) + "}"
    def jop(self, p, o):
        i, k = o[0], o[1]; q = jstr(o[2]) if len(o) > 2 and isinstance(o[2], str) else ""
        if k == "mount": b = "return Vfs.vmount(%s);" % self.opt(p, o[2], o[3])
        elif k == "unmount": b = "Vfs.unmount(%s);" % q
        elif k == "read": b = "return File.read(%s);" % q
        elif k == "list": b = "return Vfs.list();"
        elif k in ("exists", "isfile", "isdir", "size", "mtime"): b = "return File.%s(%s);" % (k, q)
        elif k == "stat": b = "var s=File.stat(%s); return [s.mode,s.size,s.mtime];" % q
        elif k == "glob": b = "return File.glob('*',{dir:%s,recurse:%s%s}).sort();" % (q, "true" if o[3] else "false", ",types:'%s'" % o[4] if o[4] else "")
        elif k == "open": b = "CH[%d]=null; CH[%d]=new Channel(%s,'r');" % (o[2], o[2], jstr(o[3]))
        elif k in ("gets", "tell", "eof"): b = "return CH[%d].%s();" % (o[2], k)
        elif k == "close": b = "var c=CH[%d]; CH[%d]=null; c.close();" % (o[2], o[2])
        elif k == "cread": b = "return CH[%d].read(%d);" % (o[2], o[3])
        elif k == "seek": b = "return CH[%d].seek(%d,'%s');" % (o[2], o[4], o[3])
        elif k == "source": b = "return source(%s);" % q
        elif k == "write": b = "File.write(%s,'W%d');" % (q, i)
        elif k == "append": b = "var c=new Channel(%s,'a'); c.write('W%d'); c.close();" % (q, i)
        elif k == "wplus": b = "var c=new Channel(%s,'r+'); try { c.write('W%d'); c.flush(); } catch(e) { c.close(); throw 'WE'; }; c.close();" % (q, i)
        elif k == "remove": b = "File.remove(%s);" % q
        elif k == "copy": b = "File.copy(%s,'/w/out',true); return simget('/w/out');" % q
        elif k == "fconf": b = "Vfs.fileconf(%s,%s,%s);" % (q, jstr(o[3]), json.dumps(o[4]))
        elif k == "sub": b = "var s=new Interp(); var r=s.eval('return [Vfs.list().length,File.exists(%s)];'); return r;" % jstr(o[2]).replace('"', '\\"').replace("'", "")
        elif k == "info": b = "return JSON.stringify(Vfs.conf(%s,'info'));" % q
        elif k == "bad": b = "Vfs.vmount(%s);" % ["{mount:'v',callback:CB%d}", "{mount:'/v/',callback:CB%d}", "{mount:'/bad',callback:CB%d,type:'T0'}", "{mount:'/bad'}/*%d*/", "{mount:'/bad',fileList:[{file:'x',data:'y'},{size:%d}]}", "{mount:'/bad',fileList:[{file:'x',data:'y'},{file:'x',data:'z'},%d]}"][o[2]] % o[3]
        elif k == "type": b = "Vfs.type('T%d',{callback:CB%d%s});" % (o[2], o[2], ",noAddDirs:true" if p["specs"][o[2]]["noadd"] else "")
        elif k == "untype": b = "Vfs.type('T%d',null);" % o[2]
        return "T(%d,function() { %s });" % (i, b)
    def flist(self, s):
        l = []
        for (n, t, sz, ts, pm), own in zip(s["files"], s["own"]):
            e = {"file": n, "timestamp": ts, "perms": pm}
            if s["strts"]:
                import time
                e["timestamp"] = time.strftime("%Y-%m-%d %H:%M:%S" if own else "%Y-%m-%dT%H:%M:%S", time.gmtime(ts))
            if t is not None:
                e["size"] = sz
                if s["mode"] == "list" or (s["mode"] == "mix" and own):
                    e["data"] = t
                    if sz == len(t.encode()) and own: del e["size"]
            l.append(e)
        return l
    def js(self, p, ops):
        j = JSPRE + "var SP=[];\n"
        for k, s in enumerate(p["specs"]):
            j += "SP[%d]={beh:%s,list:%s,data:%s};\n" % (k, json.dumps(s["beh"]), json.dumps(self.flist(s)), json.dumps({f[0]: f[1] for f in s["files"] if f[1] is not None}))
            j += "function CB%d(op,mount,arg) { return ACT(%d,op,mount,arg); };\n" % (k, k)
        for k, l in enumerate(p["nested"]):
            j += "N[%d]=[%s];\n" % (k, ",".join("function() { %s }" % self.jop(p, o) for o in l))
        return j + "simlog('go');\n" + "\n".join(self.jop(p, o) for o in ops) + "\nsimlog('end');\n"
    def build(self, p):
        sc = Scenario(p["seed"]).set(**p["cfg"])
        sc.dir("/w").dir("/w/n")
        for f, d in NAT.items(): sc.file(f, d.encode())
        main = self.js(p, p["ops"])
        if p["B"]:
            sc.file("/lib/Jsi_Vfs.jsi", open(os.path.join(vbuild.REPO, "lib/Jsi_Vfs.jsi"), "rb").read())
            sc.file("/bin/sh", b"", 0o755)
            main = "Interp.conf({pkgDirs:['/lib']});\n" + main
        for k, s in enumerate(p["specs"]):
            if s["mode"] == "fossil": self.fossil(sc, s, k, p["seed"])
            if s["mode"] == "sqlar": sc.file("/w/ar%d" % k, self.sqlar(s))
        if p["thr"]: main = "var W=new Interp({subthread:true,scriptStr:%s});\n" % jstr(self.js(p, p["ops2"]) + "simlog('done');\nupdate(-1);") + main + "sleep(1);\nfor (var q=0; q<200; q++) sleep(0.02);\n"
        sc.phase(main)
        return sc
    def fossil(self, sc, s, k, seed):
        import time
        rng = random.Random(seed + k); A = "/w/ar%d" % k; P = sc.proc; R = " -R " + A
        id_ = "".join(rng.choice(HEX) for _ in range(12)); sc.file(A, b"repo")
        ch = rng.choice([0, 1, 7])
        P("fossil info -v" + R, "project-name: p\nrepository: %s\n" % A); P("fossil tag list" + R, "trunk\nsome-tag\n")
        P('fossil info "tip" ' + R, "uuid:  %s 2012-01-01 00:00:00 UTC\ntags: trunk\n" % id_)
        sfx = " -r " + id_ + R
        P("fossil ls -v --age " + sfx, "".join("%s  %d %s\n" % (time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(f[3])), f[2], f[0]) for f in s["files"]), 0, 0, 0, ch)
        for f in s["files"]: P('fossil cat "%s"%s' % (f[0], sfx), f[1], 0, 0, 0, ch)
    def sqlar(self, s):
        fd, n = tempfile.mkstemp(prefix="c19-"); os.close(fd)
        try:
            db = sqlite3.connect(n); db.execute("CREATE TABLE sqlar(name TEXT PRIMARY KEY,mode INT,mtime INT,sz INT,data BLOB)")
            for f in s["files"]:
                d = f[1].encode(); z = zlib.compress(d); z = z if len(z) < len(d) else d
                db.execute("INSERT INTO sqlar VALUES(?,?,?,?,?)", (f[0], 0o100000 | f[4], f[3], len(d), z))
            db.commit(); db.close()
            return open(n, "rb").read()
        finally: os.unlink(n)
    # ---- the reference
    def oracle(self, p, r):
        if r.status != "ok": return [("status", "the run ended with %s" % r.status)]
        by = {}
        for e in r.events:
            if e.kind == "J": by.setdefault(e.tid, []).append((e.seq, e.js()))
        flt = [(e.seq, e.rest) for e in r.events if e.kind == "FAULT"]
        try:
            for t, l in sorted(by.items()):
                ids = {a[1] for _, a in l if a[0] == "r"}
                two = bool(ids) and ids <= {o[0] for o in p["ops2"]} | {o[0] for n in p["nested"] for o in n} and bool(ids & {o[0] for o in p["ops2"]})
                Walker(self, p, l, flt, p["ops2"] if two else p["ops"], two).main()
        except Bad as b: return [(b.cls, b.msg)]
        if not by: return [("run", "nothing ran")]
        if p["thr"] and len(by) < 2: return [("run", "the thread did not run")]
        return []
    def tags(self, p, r):
        t = []
        ops = {o[0]: o for l in [p["ops"], p["ops2"]] + p["nested"] for o in l}
        for e in r.of("J"):
            a = e.js()
            if a[0] == "r": t.append("%s:%s" % (ops[a[1]][1], "err" if a[2] else "ok"))
            elif a[0] == "cb": t.append("cb:" + a[2])
        t += ["mode:" + s["mode"] for s in p["specs"]]
        return t
    def shrink(self, p):
        for key in ("ops", "ops2"):
            n = len(p[key])
            for w in (n // 2, n // 4, 1):
                if w:
                    for i in range(0, n, w): yield dict(p, **{key: p[key][:i] + p[key][i + w:]})
        if p["thr"]: yield dict(p, thr=False, ops2=[])
        for k, s in enumerate(p["specs"]):
            for b in list(s["beh"]):
                q = json.loads(json.dumps(p)); del q["specs"][k]["beh"][b]; yield q
            for j in range(len(s["files"])):
                if len(s["files"]) > 1: q = json.loads(json.dumps(p)); q["specs"][k]["files"].pop(j); q["specs"][k]["own"].pop(j); yield q
            for z in ("noadd", "strts"):
                if s[z]: q = json.loads(json.dumps(p)); q["specs"][k][z] = False; yield q
        for j, l in enumerate(p["nested"]):
            for i in range(len(l)): q = json.loads(json.dumps(p)); q["nested"][j].pop(i); yield q
class Bad(Exception):
    def __init__(self, cls, msg): self.cls = cls; self.msg = msg
class Err(Exception): pass
class F: pass
class M: pass
class Walker:
    def __init__(self, ck, p, ev, flt, ops, two):
        self.ck = ck; self.p = p; self.ev = ev; self.flt = flt; self.ops = ops; self.i = 0; self.last = 0
        self.mounts = {}; self.types = {}; self.cnt = {}; self.ch = {}; self.nat = dict(NAT); self.two = two; self.depth = 0
    def peek(self): return self.ev[self.i][1] if self.i < len(self.ev) else None
    def take(self, want, what):
        got = self.peek()
        if got != want: raise Bad("order", "expected %s (%s) but the log has %s" % (json.dumps(want)[:150], what, json.dumps(got)[:200]))
        self.last = self.ev[self.i][0]; self.i += 1
    def faulted(self, o):
        """a fault between the last log entry and the result of op o, when that comes next"""
        hi = self.ev[self.i][0] if self.i < len(self.ev) else 1 << 60
        return any(self.last < s < hi for s, _ in self.flt)
    def main(self):
        self.take(["go"], "start")
        for o in self.ops: self.op(o)
        self.take(["end"], "end")
        if self.two: self.take(["done"], "end of the thread")
    def op(self, o):
        try: want = (0, self.do(o))
        except Err as e: want = (1, str(e))
        got = self.peek()
        if not got or got[0] != "r" or got[1] != o[0]: raise Bad("order", "expected the result of %s but the log has %s" % (json.dumps(o)[:150], json.dumps(got)[:250]))
        flt = self.faulted(o); self.last = self.ev[self.i][0]; self.i += 1
        if want[1] is ANYR: return
        if flt: self.after(o, want, got); return
        if got[2] != want[0]:
            raise Bad("result:" + o[1], "%s %s, but should %s" % (json.dumps(o)[:200], "raised %s" % got[3] if got[2] else "gave %s" % json.dumps(got[3])[:150], "raise (%s)" % want[1] if want[0] else "give " + show(want[1])[:150]))
        if want[0] == 0 and want[1] is not ANY and want[1] != got[3]:
            raise Bad("value:" + o[1], "%s gave %s instead of %s" % (json.dumps(o)[:200], json.dumps(got[3])[:200], show(want[1])[:200]))
        if want[0] == 1 and not got[3]: raise Bad("message", "%s failed without a message" % json.dumps(o)[:200])
    def after(self, o, want, got):
        k = o[1]
        if k == "sub": return
        if k in ("gets", "cread", "seek", "tell", "eof", "close"):
            c = self.ch.get(o[2])
            if c is ANY or c is None or c[0].size == 1 << 30:
                if c is not None: self.ch[o[2]] = ANY
                return
        if k in ("write", "append", "wplus", "remove"):
            if self.find(o[2])[0] is None:
                if o[2].startswith("/w/n/") and "/" not in o[2][5:]: self.nat[o[2]] = ANYR
            elif got[2] == 0: raise Bad("readonly", "%s succeeded on a file of a VFS" % json.dumps(o))
            return
        if got[2] == 1:
            if k == "mount" and want[0] == 0: self.mounts.pop(want[1], None)
            if k == "open": self.ch.pop(o[2], None)
            return
        if k in ("exists", "isfile", "isdir") and got[3] in (False, want[1]): return
        if k in ("glob", "size", "mtime", "stat", "eof", "tell") and want[0] == 0 and self.find(o[2] if isinstance(o[2], str) else "/")[0] is None: return
        if want[0] == 1: raise Bad("fault:" + k, "%s gave %s under a fault, but should raise (%s)" % (json.dumps(o)[:200], json.dumps(got[3])[:150], want[1]))
        if want[1] is not ANY and want[1] != got[3]: raise Bad("fault:" + k, "%s gave %s under a fault, instead of raising or %s" % (json.dumps(o)[:200], json.dumps(got[3])[:200], show(want[1])[:200]))
    # callbacks
    def cb(self, k, op, path, arg):
        self.take(["cb", k, op, path, arg], "callback")
        key = "file:" + arg if op == "file" else op
        c = self.cnt.get((k, key), 0); self.cnt[(k, key)] = c + 1
        b = self.p["specs"][k]["beh"].get(key, [])
        a = b[c] if c < len(b) else ["ok"]
        if a[0] == "nest":
            for o in self.p["nested"][a[1]]: self.op(o)
            return ["ok"]
        if a[0] == "throw": raise Err("ACT " + op)
        return a
    def lookup(self, path):
        best = None
        for m in self.mounts.values():
            if (path == m.path or path.startswith(m.path + "/")) and (best is None or len(m.path) > len(best.path)): best = m
        return best
    def find(self, path):
        m = self.lookup(path)
        if m is None or m.files is None: return None, None
        return (m, m.files[path]) if path in m.files else (None, None)
    def load(self, m, f):
        s = self.p["specs"][m.k]
        if f.data is None:
            if s["mode"] in ("fossil", "sqlar"): f.data = f.text
            elif m.cb:
                a = self.cb(m.k, "file", m.path, f.name)
                v = f.text if a[0] == "ok" else a[1] if a[0] == "alt" else None
                if f.data is None and v is not None: f.data = v
        if f.data is None: raise Err("no data")
    def content(self, f):
        b = f.data.encode(); return b[:min(len(b), f.size)]
    def do(self, o):
        k = o[1]; p = self.p
        if k == "mount":
            s = p["specs"][o[2]]; path = o[3]; mode = s["mode"]
            if mode == "type" and o[2] not in self.types: raise Err("unknown type")
            if path is None:
                n = 1
                while "/vfs%d" % n in self.mounts: n += 1
                path = "/vfs%d" % n
            elif path in self.mounts: raise Err("already mounted")
            m = M(); m.k = o[2]; m.path = path; m.files = None; m.closing = False; m.info = ANYR; m.cb = mode in ("cb", "type", "mix"); self.mounts[path] = m
            try:
                if m.cb:
                    a = self.cb(o[2], "init", path, None)
                    m.info = {"num": 7, "null": None, "obj": {"a": 1}, "ok": {"spec": o[2]}}.get(a[0], ANYR)
                    if self.mounts.get(path) is not m: raise Err("unmounted during init")
                if mode in ("cb", "type"):
                    a = self.cb(o[2], "list", path, None)
                    if a[0] != "ok": raise Err("bad list")
                    if self.mounts.get(path) is not m: raise Err("unmounted during list")
            except Err:
                if self.mounts.get(path) is m: del self.mounts[path]
                raise
            m.files = {}
            for (n, t, sz, ts, pm), own in zip(s["files"], s["own"]):
                f = F(); f.name = n; f.text = t; f.size = sz or 0; f.ts = ts; f.mode = 0o100000 | pm; f.dir = t is None; f.data = None
                if mode == "sqlar": f.mode = 0o100000 | pm
                if mode == "fossil": f.mode = 0o100000 | 0o444
                if f.dir: f.mode = 0o40555
                if t is not None and (mode == "list" or (mode == "mix" and own)):
                    f.data = t
                    if not f.size: f.size = len(t.encode())
                m.files[path + "/" + n] = f
                if not s["noadd"]:
                    d = path + "/" + n
                    while d != path:
                        d = d.rsplit("/", 1)[0]
                        if d in m.files: break
                        g = F(); g.name = None; g.text = None; g.size = 0; g.ts = ts; g.mode = 0o40555; g.dir = True; g.data = None; m.files[d] = g
            return path
        if k == "unmount":
            m = self.mounts.get(o[2])
            if m is None or m.closing: raise Err("no such mount")
            m.closing = True
            try:
                if m.cb: self.cb(m.k, "done", m.path, None)
            finally:
                if self.mounts.get(o[2]) is m: del self.mounts[o[2]]
            return None
        if k == "list": return Any(lambda v: isinstance(v, list) and sorted(v) == sorted(self.mounts))
        if k in ("read", "copy"):
            m, f = self.find(o[2])
            if f is None: return self.natread(o[2])
            if f.dir: raise Err("directory")
            self.load(m, f)
            return self.content(f).decode("utf-8", "replace") if utf(self.content(f)) else ANY
        if k in ("exists", "isfile", "isdir", "size", "mtime", "stat"):
            m, f = self.find(o[2])
            if f is None and o[2] in self.mounts: return ANYR if self.mounts[o[2]].files is None or self.p["specs"][self.mounts[o[2]].k]["noadd"] else self.raise_() 
            if f is None:
                if o[2] in self.nat:
                    d = self.nat[o[2]]
                    if d is ANYR: return ANYR
                    if d is not None: return {"exists": True, "isfile": True, "isdir": False, "size": len(d.encode())}.get(k, ANY)
                if o[2] == "/w/n": return {"exists": True, "isfile": False, "isdir": True}.get(k, ANY)
                if k in ("exists", "isfile", "isdir"): return False
                return ANYR
            return {"exists": True, "isfile": not f.dir, "isdir": f.dir, "size": ANY if f.dir else f.size, "mtime": f.ts, "stat": Any(lambda v: v[0] == f.mode and v[2] == f.ts and (f.dir or v[1] == f.size))}[k]
        if k == "glob":
            d = o[2]; m = self.lookup(d)
            if d not in self.mounts and self.find(d)[1] is None:
                return ANYR if d == "/w/n" or d in self.nat else self.raise_()
            if m.files is None or self.p["specs"][m.k]["noadd"]: return ANYR
            if d in m.files and not m.files[d].dir: return ANYR
            out = []
            def walk(dd, pre):
                mm = self.lookup(dd)
                if mm is not m: return False
                ok = True
                for n, f in m.files.items():
                    if n.startswith(dd + "/") and "/" not in n[len(dd) + 1:]:
                        nm = pre + n[len(dd) + 1:]
                        if o[4] in ("", "d" if f.dir else "f"): out.append(nm)
                        if f.dir and o[3] and not walk(n, nm + "/"): ok = False
                return ok
            if not walk(d, ""): return ANYR
            return Any(lambda v: isinstance(v, list) and sorted(v) == sorted(out)).named(sorted(out))
        if k == "open":
            self.ch.pop(o[2], None)
            m, f = self.find(o[3])
            if f is None:
                d = self.natread(o[3])
                if d is ANYR: self.ch[o[2]] = ANY; return ANYR
                g = F(); g.data = d; g.size = 1 << 30; self.ch[o[2]] = [g, 0]; return None
            if f.dir: raise Err("directory")
            self.load(m, f)
            self.ch[o[2]] = [f, 0]; return None
        if k in ("gets", "cread", "seek", "tell", "eof", "close"):
            c = self.ch.get(o[2])
            if k == "close": self.ch.pop(o[2], None)
            if c is ANY: return ANYR
            if c is None: raise Err("no channel")
            b = self.content(c[0]); nat = c[0].size == 1 << 30
            if k == "close": return None
            if k == "tell": return c[1]
            if k == "eof": return ANY if nat else c[1] >= len(b)
            if k == "gets":
                if c[1] >= len(b): return None
                e = b.find(b"\n", c[1]); e = len(b) if e < 0 else e + 1
                if e - c[1] > 8000: self.ch[o[2]] = ANY; return ANYR
                l = b[c[1]:e]; c[1] = e
                return l.rstrip(b"\n").decode() if utf(l) else ANY
            if k == "cread":
                l = b[c[1]:c[1] + o[3]]; c[1] += len(l)
                if not l: return None if not nat else ANY
                return l.decode() if utf(l) else ANY
            pos = {"set": 0, "cur": c[1], "end": len(b)}[o[3]] + o[4]
            if pos < 0 or pos > len(b): self.ch[o[2]] = ANY; return ANYR
            c[1] = pos; return ANY
        if k == "source":
            m, f = self.find(o[2])
            if f is None: self.natread(o[2]); return ANYR
            if f.dir: raise Err("directory")
            self.load(m, f)
            import re
            t = self.content(f).decode(); g = re.fullmatch(r"simlog\('src',(\d+)\);\s*(?://c\n)?\s*return (\d+);", t)
            if t == f.text and g:
                if self.faulted(o) and self.peek()[0] != "src": self.raise_()
                self.take(["src", int(g.group(1))], "the sourced file"); return int(g.group(2))
            # something else was put there; whatever it does, it is not judged
            while self.peek() and self.peek()[0] == "src": self.i += 1
            return ANYR
        if k in ("write", "append", "wplus", "remove"):
            m, f = self.find(o[2])
            if f is not None:
                raise Err("read-only")
            if not o[2].startswith("/w/n/") or "/" in o[2][5:]: 
                self.raise_()
            d = self.nat.get(o[2])
            if d is ANYR: return ANYR
            if k == "remove":
                if d is None: self.raise_()
                self.nat[o[2]] = None; return ANY
            w = "W%d" % o[0]
            if k == "wplus":
                if d is None: self.raise_()
                self.nat[o[2]] = w + d[len(w):]
            else: self.nat[o[2]] = w if k == "write" else (d or "") + w
            return ANY
        if k == "fconf":
            m = self.mounts.get(o[2])
            f = m.files.get(o[2] + "/" + o[3]) if m and m.files is not None else None
            if f is None: self.raise_()
            if f.dir: return ANYR
            if "size" in o[4]: f.size = o[4]["size"]
            if "data" in o[4]: f.data = o[4]["data"]
            return ANY
        if k == "sub": return [0, o[2] == "/w/n"]
        if k == "info":
            m = self.mounts.get(o[2])
            if m is None: self.raise_()
            return m.info if m.info is ANYR else json.dumps(m.info, separators=(",", ":")).replace("{", "{ ").replace("}", " }")
        if k == "bad": self.raise_()
        if k == "type":
            if o[2] in self.types: self.raise_()
            self.types[o[2]] = 1; return ANY
        if k == "untype":
            if o[2] not in self.types: self.raise_()
            del self.types[o[2]]; return ANY
        raise AssertionError(k)
    def raise_(self): raise Err("not there")
    def natread(self, path):
        d = self.nat.get(path)
        if d is None: self.raise_()
        return d
def show(v): return json.dumps(v if not isinstance(v, Any) else v.n, default=str)
def utf(b):
    try: b.decode(); return True
    except UnicodeDecodeError: return False
class Any:
    def __init__(self, f, n=None): self.f = f; self.n = n
    def named(self, n): self.n = n; return self
    def __eq__(self, o): return self.f(o)
    def __ne__(self, o): return not self.f(o)
ANY = object(); ANYR = object()
CHECK = C()
