"""C11 containment: whatever program a safe interpreter runs, it reads nothing outside its read directories, changes nothing outside its write directories, and runs nothing."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, unesc
from vlib.fgen import jstr, faulted
from vlib.fsmodel import FS, Err, same
import json, errno, re, io, zipfile
E = errno
JS = """function Q(n,c) { simlog('B',n); try { var r=I.eval(c); simlog('E',n); if (typeof r=='string') simbytes('S'+n,r); else simlog('R',n,r===undefined?'undef':JSON.stringify(r)); } catch(e) { simlog('E',n); simbytes('X'+n,''+e); }
 simquiet(1); simtree('/'); simquiet(0); };
"""
CFG = [  # options, read dirs, write dirs
    ("{isSafe:true,safeReadDirs:['/w/q','/w/r'],safeWriteDirs:['/w/q']}", ["/w/q", "/w/r"], ["/w/q"]),
    ("{isSafe:true,safeReadDirs:['/w/q','/w/r'],safeWriteDirs:['/w/q']}", ["/w/q", "/w/r"], ["/w/q"]),
    ("{isSafe:true,safeReadDirs:['/w/q/'],safeWriteDirs:['/w/q/']}", ["/w/q"], ["/w/q"]),
    ("{isSafe:true,safeReadDirs:['/w/r/'],safeWriteDirs:['/w/q/','/w/r/d']}", ["/w/r"], ["/w/q", "/w/r/d"]),
    ("{isSafe:true,safeReadDirs:['/w/r/f','/w/q/d'],safeWriteDirs:['/w/q/a','/w/q/d']}", ["/w/r/f", "/w/q/d"], ["/w/q/a", "/w/q/d"]),
    ("{isSafe:true,safeReadDirs:['/w/q']}", ["/w/q"], []),
    ("{lockDown:'/w/q'}", ["/w/q"], ["/w/q"]),
    ("{isSafe:true,safeMode:'lockdown',safeReadDirs:['/w/q','/w/r'],safeWriteDirs:['/w/q']}", ["/w/q", "/w/r"], ["/w/q"]),
    ("{isSafe:true,safeMode:'write',safeReadDirs:['/w/q','/w/r'],safeWriteDirs:['/w/q']}", ["/w/q", "/w/r"], ["/w/q"]),
    ("{isSafe:true,safeReadDirs:['/w/q'],safeWriteDirs:['/w/q'],safeExecPattern:'^pr '}", ["/w/q"], ["/w/q"]),
    ("--I safeMode=read", ["/w/q", "/w/r"], []), # the whole program: directories of the script and the current one
    ("--I safeMode=write", ["/w/q", "/w/r"], ["/w/r"]),
    ("--I safeMode=writeRead", ["/w/q", "/w/r"], ["/w/q", "/w/r"]),
    ("--I safeMode=lockdown", ["/w/q", "/w/r"], ["/w/q", "/w/r"]),
]
def inside(p, dirs): return any(p == d or p.startswith(d + "/") for d in dirs)
def zipbytes(tok):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z: z.writestr(zipfile.ZipInfo("zf.txt"), tok); z.writestr(zipfile.ZipInfo("passwd"), tok)
    return b.getvalue()
class C(Check):
    pid = "C11"
    quick_s = 40
    max_variants = 4
    rule = ("a generated program of file, directory, link, glob, channel, SQLite, archive, source, require, load, exec and sub-interpreter operations run in a safe interpreter, over a tree with links into, out of and across its directories "
            "and every spelling of paths; run undisturbed and with failing path lookups; distinct by full event trace")
    fault_classes = {c: [(F_ERR, [E.EIO, E.EACCES, E.ENOMEM])] for c in ("realpath", "lstat", "stat", "getcwd", "access", "readlink", "open", "unlink", "rename", "opendir", "mkdir")}
    NM = ["a", "b", "d", "d/e", "new", "d/new", "d/e/new", "lo", "lof", "lod", "lox", "lr", "none/x", "lo/hid", "lo/new", "s.jsi", "lup", "ld", "ld/a", "lup/o/hid", "X.so", "z.zip", "db1", "lofdb", "."]
    def path(self, rng, want=None):
        a = rng.random(); n = rng.choice(self.NM)
        if a < .30: p = "/w/q/" + n
        elif a < .38: p = "/w/r/" + rng.choice(["f", "d", "d/g", "new", "lq", "lq/a", "lout", "d/new"])
        elif a < .60: p = "/w/o/" + rng.choice(["hid", "hid", "dir", "dir/h2", "new", "toq", "toqa", "toq/a", "toq/new", "toq/lo/new", "ldang", "hdb", "s.jsi", "z.zip", "X.so", "dir/new"])
        elif a < .66: p = rng.choice(["/w/q/../o/hid", "/w/q/../o/new", "/w/q/d/../../o/hid", "/w/q/lod/../hid", "/w/q/ld/../a", "/w/q/none/../../o/new", "/w/q/./d/./new", "/w/q//a", "/w//o/hid", "/w/q/lod/../new", "/w/o/toq/../a", "/w/o/toqd/../new", "/w/o/toqd/../a", "/w/q/..", "/w/q/.", "/w/q/d/..", "/w/q/d/../.."])
        elif a < .72: p = "/w/q" + rng.choice(["x/hid", "x", "x/new", "/", "", ".new"])
        elif a < .76: p = rng.choice(["~/hid", "~/new", "~", "~x", "/home/u/hid"])
        elif a < .80: p = rng.choice(["/etc/conf", "/", "/w", "/w/", "//w/q/a", "/tmp/new", "/proc/self/mem"])
        else: p = rng.choice(["a", "new", "../o/hid", "../o/new", "lo", "lof", "lox", "./a", "d/../a", "..", "hid", "lod/h2", "db1", "d"])
        if rng.random() < .03: p += "/"
        return p
    def gen(self, rng, i):
        links = [l for l in [["/w/q/lo", "/w/o"], ["/w/q/lof", "../o/hid"], ["/w/q/lod", "/w/o/dir"], ["/w/q/lox", "/w/o/new"], ["/w/q/lr", "/w/r/f"], ["/w/q/lup", ".."], ["/w/q/ld", "d/e"], ["/w/q/lofdb", "/w/o/hdb"], ["/w/q/d/new2", "/w/o/dir/new"],
                 ["/w/o/toq", "/w/q"], ["/w/o/toqa", "../q/a"], ["/w/o/toqd", "/w/q/d/e"], ["/w/o/ldang", "/w/q/new"], ["/w/r/lq", "/w/q"], ["/w/r/lout", "/w/o/hid"]] if rng.random() < .7]
        ops = []; cfg = rng.randrange(len(CFG))
        for _ in range(rng.randint(3, 12)):
            o = self.op(rng)
            if rng.random() < .10: o["sub"] = rng.choice(["", "isSafe:false", "safeReadDirs:['/w']", "safeWriteDirs:['/w'],safeReadDirs:['/w']", "lockDown:'/w'", "lockDown:'/w/o'", "safeMode:'lockdown'", "safeMode:'none'", "isSafe:false,safeMode:'writeRead'", "safeExecPattern:'.'", "noLoad:false"])
            elif rng.random() < .06: o["tmr"] = 1
            ops.append(o)
        return {"cfg_": cfg, "links": links, "ops": ops, "cwd": rng.choice(["/w/q", "/w/q", "/w/q", "/w/q/d", "/w/r", "/w", "/w/o"]), "want_faults": True, "seed": rng.randrange(1 << 30)}
    def op(self, rng):
        a = rng.random(); P = self.path(rng); Q = self.path(rng); p, q = jstr(P), jstr(Q); t = None
        f = rng.choice(["", ",true"])
        if a < .10: c = "File.read(%s)" % p; t = "read"
        elif a < .20: c = "File.write(%s,'DATA'%s)" % (p, rng.choice(["", "", "", ",'a'", ",'r+'", ",'az'", ",'wz'"])); t = "write" if c.endswith("'DATA')") else None
        elif a < .26: c = "var h=new Channel(%s,'%s'); %s" % (p, rng.choice(["r", "rb", "w", "a", "r+", "w+", "rz", "az", "wz"]), rng.choice(["h.read(100)", "h.gets()", "h.write('DATA'); h.close()"]))
        elif a < .32: c = "File.remove(%s%s)" % (p, f)
        elif a < .38: c = "File.rename(%s,%s%s)" % (p, q, f)
        elif a < .44: c = "File.copy(%s,%s%s)" % (p, q, f)
        elif a < .50: c = "File.link(%s,%s%s)" % (p, q, f)
        elif a < .54: c = "File.mkdir(%s%s)" % (p, f)
        elif a < .56: c = "File.chmod(%s,%d)" % (p, rng.choice([0o777, 0o600]))
        elif a < .58: c = "File.truncate(%s,%d)" % (p, rng.choice([0, 2]))
        elif a < .60: c = "File.mknod(%s,%d,%d)" % (p, rng.choice([0o100644, 0o010644, 0o020666, 0o060666]), rng.choice([0, 259]))
        elif a < .62: c = "File.tempfile(%s)" % jstr(P + "XXXXXX")
        elif a < .66: c = "File.chdir(%s)" % p
        elif a < .72: c = "''+File.glob(%s)" % rng.choice(["%s" % jstr(P + "/*"), "'*',{dir:%s}" % p, "'*',{dir:%s,recurse:true}" % p, "'*',{recurse:true}", "'*/*'", "'*',{dir:%s,recurse:true,types:'fd'}" % p])
        elif a < .74: c = rng.choice(["Util.hash('',{file:%s})", "File.readlink(%s)", "File.size(%s)", "''+File.exists(%s)", "JSON.stringify(File.stat(%s))", "File.realpath(%s)"]) % p
        elif a < .78: c = rng.choice(["source(%s)", "source([%s])", "source(%s,{exists:true})", "Interp.conf({pkgDirs:[File.dirname(%s)]}); require('s')", "load(%s)", "Interp.conf({pkgDirs:[File.dirname(%s)]}); require('X')", "runModule(%s)", "Interp.source(%s)"]) % p
        elif a < .92:
            e = rng.choice(["d.eval('create table t(x);insert into t values(1)')", "d.onecolumn('select k from sec')", "d.eval('attach '+JSON.stringify(%s)+' as z; create table z.u(x)')" % q, "d.eval('attach '+JSON.stringify(%s)+' as z'); d.onecolumn('select k from z.sec')" % q,
                            "d.eval('create table if not exists t(x); vacuum into '+JSON.stringify(%s))" % q, "d.backup(%s)" % q, "d.restore(%s); d.onecolumn('select k from sec')" % q, "d.eval('create table if not exists c(x)'); d.import('c',%s)" % q, "d.query('attach ? as z',{values:[%s]}); d.eval('create table z.v(x)')" % q,
                            "d.eval('attach '+JSON.stringify('file:'+%s)+' as z; create table z.w(x)')" % q, "d.conf({load:true}); d.onecolumn('select load_extension('+JSON.stringify(%s)+')')" % q, "d.eval(\"pragma temp_store_directory='/w/o'\")", "d.eval('vacuum')",
                            "d.conf({onAuth:function() { return 'SQLITE_OK'; }}); d.eval('attach '+JSON.stringify(%s)+' as z; create table z.y(x)')" % q, "d.query('attach \\''+%s+'\\'||\\'\\' as z'); d.eval('create table z.k(x)')" % q])
            c = "var d=new Sqlite(%s%s); %s" % (rng.choice([p, p, "null", "':memory:'", "'/w/q/db1'"]), rng.choice(["", "", ",{readonly:true}", ",{load:true}", ",{noCreate:true}"]), e)
        elif a < .95: c = rng.choice(["Zvfs.mount(%s,%s)" % (p, q), "Zvfs.mount(%s)" % p, "Zvfs.create(%s,[%s])" % (p, q), "Zvfs.mount('/w/q/z.zip',%s); File.mkdir(%s)" % (p, jstr(P + "/n")), "Zvfs.append(%s,[%s])" % (p, q), "Vfs.vmount({mount:%s,fileList:['a']}); File.mkdir(%s)" % (p, jstr(P + "/n")), "Vfs.exec(%s)" % rng.choice(["'fossil info x'", "'fossil info x\\nid'", "'id'"])])
        elif a < .97: c = rng.choice(["exec('id')", "exec('pr x')", "exec('pr x\\nid')", "exec('pr x;id')", "exec('pr x',{chdir:'/w/o'})", "exec('id',{noShell:true})", "exec('id',{bg:true})", "exec('id pr ')"])
        else: c = rng.choice(["Interp.conf({isSafe:false})", "Interp.conf({safeReadDirs:['/w']})", "Interp.conf({safeWriteDirs:['/w']})", "Interp.conf({safeMode:'none'})", "Interp.conf({lockDown:'/w'})", "Interp.conf({safeExecPattern:'.'})", "new Interp({subthread:true,scriptStr:'1;'})",
                              "new Interp({scriptFile:%s})" % p, "new Interp({confFile:%s})" % p, "var j=new Interp({scriptFile:%s,safeMode:'read'}); j.eval('File.read(%s)')" % (p, Q.replace("'", "")), "var j=new Interp(); j.source(%s)" % p])
        o = {"c": c}
        if t: o["t"] = t; o["p"] = P
        return o
    def tok(self, path): return "T%dK" % (abs(hash_(path)) % 100000)
    def build(self, p):
        sc = Scenario(p["seed"]); opt, R, W = CFG[p["cfg_"]]
        for d in ("/w/q/d/e", "/w/r/d", "/w/o/dir", "/w/qx", "/tmp", "/home/u", "/etc"): sc.dir(d)
        for f in ("/w/q/a", "/w/q/b", "/w/q/d/a", "/w/r/f", "/w/r/d/g", "/w/o/hid", "/w/o/dir/h2", "/w/qx/hid", "/home/u/hid", "/etc/conf"): sc.file(f, ("[%s]\n" % self.tok(f)).encode())
        for d in ("/w/q", "/w/o"):
            sc.file(d + "/s.jsi", ("provide('s');'%s';" % self.tok(d + "/s.jsi")).encode()); sc.file(d + "/X.so", b"\x7fELF"); sc.file(d + "/z.zip", zipbytes(self.tok(d + "/z.zip")))
        sc.file("/bin/sh", b"#!", 0o755)
        for d, f in (("/w/q", "/w/q/db1"), ("/w/o", "/w/o/hdb")): sc.file(f, DB(self.tok(f)))
        for c in ("id", "pr x", "pr", "id pr "): sc.proc(c, b"ran\n")
        for l, tgt in p["links"]: sc.symlink(tgt, l)
        main = opt[0] == "-"
        js = [JS.replace("I.eval(c)", "eval(c)"), "simtree('/');"] if main else [JS, "File.chdir(%s); var I=new Interp(%s); simtree('/');" % (jstr(p["cwd"]), opt)]
        for n, o in enumerate(p["ops"]):
            c = o["c"]
            if "sub" in o: c = "var J=new Interp({%s}); J.eval(%s)" % (o["sub"], jstr(c))
            elif "tmr" in o: c = "setTimeout(function() { try { %s; } catch(e) {}; }, 5); update(20); 'later'" % c
            js.append("Q(%d,%s);" % (n, jstr(c)))
        js.append("simlog('END');")
        if main: sc.file("/w/q/main.jsi", "\n".join(js).encode()); sc.cwd = "/w/r"; sc.phase("", args=opt.split() + ["/w/q/main.jsi"], kind=2)
        else: sc.phase("\n".join(js))
        sc.set(tick_ns=2000, p_edge=0, uid_root=1, log_sys=1)
        return sc
    def oracle(self, p, r):
        v = []; opt, R, W = CFG[p["cfg_"]]; RW = R + W; cur = None; tree = None; before = None; grab = None; fx = False; ffx = []
        reads = {}
        def outside(flat): return {q: x[:4] for q, x in flat.items() if not inside(q, W) and not (q.rsplit("-", 1)[-1] in ("journal", "wal", "shm") and inside(q.rsplit("-", 1)[0], W))}
        pend = []; any_fx = False
        for e in r.events:
            if e.kind == "J":
                a = e.js()
                if a[0] == "B": cur = a[1]; fx = False
                elif a[0] == "E": ffx = fx; last = cur; cur = None
                elif a[0] == "R": reads[a[1]] = ("R", a[2].encode())
                elif a[0] == "END": pass
            elif e.kind == "B":
                m = re.match(r"([SX])(\d+) \d+ ?(.*)", e.rest)
                if m: reads[int(m.group(2))] = (m.group(1), unesc(m.group(3)))
            if e.kind == "FAULT": fx = any_fx = True
            if e.kind == "TREE":
                if grab is None: grab = []
                grab.append(e.rest)
            elif e.kind == "TREEEND":
                fs = FS.parse(grab, unesc); flat = fs.flat(); grab = None
                if before is not None:
                    b, a2 = outside(before), outside(flat)
                    if b != a2:
                        ch = sorted(q for q in set(b) | set(a2) if b.get(q) != a2.get(q))
                        v.append(("changed-outside", "op %d: %s changed %s, outside the write directories" % (last, self.show(p, last), ch[0]))); return v
                    dv = [q for q in flat if q not in before and flat[q][0] in "cb"]
                    if dv: v.append(("device", "op %d: %s made the device %s" % (last, self.show(p, last), dv[0]))); return v
                    self.allowed(p, last, reads, prev, flat, any_fx, R, W, v) # (a fault in the setup may have left it with less)
                    if v: return v
                before = flat; prev = fs; prev_cwd = None
            if cur is None: continue
            if e.kind in ("EXEC", "PROC", "SYSTEM", "POPEN"):
                m = e.rest
                if p["ops"][cur]["c"].startswith("Vfs.exec(") and re.match(r"\w+ fossil (info|ls|cat|tag) [^;&|<>*?`$(){}\\]*$", m.replace("\\x1f", " ")) or e.kind == "PROC": continue # the one that exists for safe scripts
                if not ("safeExecPattern" in opt and re.search(r"\bpr x?$|id pr ?$", m) and "\\n" not in m) and not ("safeExecPattern" in opt and "sub" not in p["ops"][cur] and "exec('pr x')" in p["ops"][cur]["c"]):
                    v.append(("ran", "op %d: %s ran a command: %s" % (cur, self.show(p, cur), m[:80]))); return v
            elif e.kind == "DLOPEN": v.append(("loaded", "op %d: %s loaded native code: %s" % (cur, self.show(p, cur), e.rest[:80]))); return v
            elif e.kind == "SYS":
                m = re.match(r"(open|opendir) (.*?) (?:fl=(\w+) )?canon=(\S+)(?: (exists|absent))?$", e.rest)
                if m and m.group(4) != "?" and not inside(m.group(4), RW if m.group(1) == "opendir" else W if int(m.group(3), 16) & 3 else R):
                    if m.group(5) == "absent" and m.group(1) == "open": continue # what it makes shows in the tree
                    v.append(("opened-outside", "op %d: %s opened %s, outside its directories" % (cur, self.show(p, cur), m.group(4)))); return v
            elif e.kind == "DBOPEN":
                m = re.match(r"(.*) canon=(\S+) fl=(\w+) e=(-?\d+) (\w+)", e.rest)
                if m and m.group(2) != "?" and m.group(4) == "0" and m.group(1) != "(temp)":
                    q = m.group(2); b = q.rsplit("-", 1)[0] if q.rsplit("-", 1)[-1] in ("journal", "wal", "shm") else q
                    if not inside(b, RW): v.append(("opened-outside", "op %d: %s opened the database %s, outside its directories" % (cur, self.show(p, cur), q))); return v
        return v
    def show(self, p, n): o = p["ops"][n]; return o["c"] + (" in a sub-interp {%s}" % o["sub"] if "sub" in o else "")
    def allowed(self, p, n, reads, fs, flat, fault, R, W, v):
        """what is inside its directories it may use"""
        o = p["ops"][n]
        if fault or "t" not in o or "sub" in o or "tmr" in o or not o["p"].startswith("/") or ".." in o["p"] or any("Interp.conf" in q["c"] for q in p["ops"][:n]): return
        try: par, nd, nm, sl = fs.walk(o["p"], True)
        except Err: return
        if nd is None and fs.walk(o["p"].rstrip("/"), None)[1] is not None: return # through a dangling link: may be refused
        if nm in ("", ".", "..") or sl or nd is not None and nd.t != "-": return
        c = fs.canon(nd, par, nm); got = reads.get(n, ("", b""))
        if any(q["c"].startswith(("Zvfs", "Vfs")) for q in p["ops"][:n]): return
        if o["t"] == "read" and nd is not None and inside(c, R) and got[0] != "S": v.append(("refused", "op %d: %s of a file inside the read directories gave %r" % (n, o["c"], got[1][:80])))
        if o["t"] == "write" and inside(c, W) and (nd is not None or "lockdown" not in CFG[p["cfg_"]][0].lower()) and flat.get(c, (0,) * 4)[2] != b"DATA": v.append(("refused", "op %d: %s of a file inside the write directories did not write it: %r" % (n, o["c"], got[1][:80])))
    def tags(self, p, r):
        for e in r.of('B'): yield 'res-' + e.rest[:1]
        for o in p['ops']: yield re.split(r'[ (]', o['c'].replace('var d=', '').replace('var h=', ''))[0]
    def shrink(self, p):
        out = []
        for i in range(len(p["links"])):
            q = json.loads(json.dumps(p)); del q["links"][i]; out.append(q)
        return out
def hash_(s):
    h = 5381
    for c in s.encode(): h = (h * 33 + c) & 0xffffffff
    return h
_db = {}
def DB(tok):
    if tok not in _db:
        import sqlite3, tempfile, os
        d = tempfile.mkdtemp(); f = os.path.join(d, "x")
        c = sqlite3.connect(f); c.execute("create table sec(k)"); c.execute("insert into sec values(?)", (tok,)); c.commit(); c.close()
        _db[tok] = open(f, "rb").read(); os.unlink(f); os.rmdir(d)
    return _db[tok]
CHECK = C()
