"""C14 child processes: exec runs the command it was given, once, feeds it the whole input and returns its whole output and exit code, or raises."""
from vlib.harness import Check
from vlib.simdrv import Scenario, F_ERR, F_SHORT, F_EINTR, unesc
from vlib.fgen import gspec, gdata, jstr, faulted
import json, errno
E = errno
JS = """function EX(i,c,o) { try { var r=(o===null?exec(c):exec(c,o));
  if (typeof r=='string') simbytes('S'+i,r); else if (typeof r=='number') simlog('N',i,r); else if (typeof r=='object') { simbytes('D'+i,r.data); simlog('O',i,r.code,r.status); } else simlog('U',i);
 } catch(e) { simlog('X',i,''+e); }; simquiet(1); simlog('CWD',i,File.pwd()); simquiet(0); };
"""
RESTR = set("<>|;&$`=")
class C(Check):
    pid = "C14"
    quick_s = 35
    rule = ("a generated sequence of exec calls over commands that print any bytes in any pieces, stop reading their input early, exit with any code or die of a signal, with every option; "
            "run undisturbed and with failing or interrupted pipes, forks, waits, directories; distinct by full event trace")
    fault_classes = {"popen": [(F_ERR, [E.ENOMEM, E.EMFILE])], "pread": [(F_ERR, [E.EIO]), (F_EINTR, 0), (F_SHORT, [1, 3, 100])], "pwrite": [(F_ERR, [E.EIO]), (F_EINTR, 0), (F_SHORT, [1, 7, 4000])],
                     "pclose": [(F_ERR, [E.ECHILD])], "system": [(F_ERR, [E.ENOMEM])], "fork": [(F_ERR, [E.EAGAIN])], "exec": [(F_ERR, [E.EACCES])], "pipe": [(F_ERR, [E.EMFILE])],
                     "wait": [(F_EINTR, 0), (F_ERR, [E.ECHILD])], "getcwd": [(F_ERR, [E.EACCES])], "chdir": [(F_ERR, [E.EACCES])]}
    max_variants = 5
    def gen(self, rng, i):
        procs = []
        for k in range(rng.randint(1, 4)):
            sp = gspec(rng, ("txt", "lines", "lines", "bin", "nul"))
            if rng.random() < .5: sp[1] = rng.randint(0, 60)
            st = rng.choice([0, 0, 0, 0, 256, 512, 256 * 3, 256 * 127, 256 * 255, 9, 15, 11 | 128, 256 * rng.randint(0, 255)])
            procs.append({"cmd": rng.choice(["p%d", "p%d -x 'a b'", "/bin/p%d", "p%d a  b", "p%d a\\ b c", "p%d \"q r\" s"]) % k, "out": sp, "ws": rng.choice(["", "", "\n", " \n\t "]), "st": st, "chunk": rng.choice([0, 0, 1, 5, 300, 4096]) if sp[1] < 3000 else rng.choice([0, 300, 4096]),
                          "dly": rng.choice([0, 0, 0, 1000]), "il": rng.choice([-1, -1, -1, 0, 5, 5000])})
        ops = []
        for _ in range(rng.randint(1, 8)):
            o = {"k": rng.randrange(len(procs)) if rng.random() < .93 else -1}
            for f, pr in (("trim", .2), ("retCode", .2), ("retAll", .3), ("noError", .15), ("noShell", .3), ("noRedir", .15)):
                if rng.random() < pr: o[f] = 1
            a = rng.random()
            if a < .3: o["in"] = gspec(rng, ("txt", "lines", "bin", "nul")); o["sarg"] = int(rng.random() < .4)
            if rng.random() < .1: o["bg"] = 1
            if rng.random() < .1: o["amp"] = rng.choice(["&", " &"])
            if rng.random() < .2: o["cd"] = rng.choice(["/w/d", "d", "/w/none", "/w/f", "..", "/w/d/e"])
            if o["k"] >= 0 and rng.random() < .1: o["redir"] = rng.choice([" >x", ";id", " | cat", " `id`", " $X"])
            ops.append(o)
        return {"procs": procs, "ops": ops, "want_faults": True, "seed": rng.randrange(1 << 30), "noshell": int(rng.random() < .08)}
    def cmd(self, p, o):
        c = "nosuch -z" if o["k"] < 0 else p["procs"][o["k"]]["cmd"]
        return c + o.get("redir", "") + o.get("amp", "")
    def build(self, p):
        sc = Scenario(p["seed"])
        sc.dir("/w/d/e"); sc.file("/w/f", b"x")
        if not p["noshell"]: sc.file("/bin/sh", b"#!", 0o755)
        js = [JS]
        import re
        for q in p["procs"]:
            out = gdata(q["out"]) + q["ws"].encode()
            a = dict(status=q["st"], delay=q["dly"], chunk=q["chunk"], inlim=q["il"])
            for suf in ("", " >x", ";id", " | cat", " `id`", " $X"):
                sc.proc(q["cmd"] + suf, out, **a)
                if self.split(q["cmd"] + suf) != q["cmd"] + suf: sc.proc(self.split(q["cmd"] + suf), out, **a)
        for i, o in enumerate(p["ops"]):
            if "in" in o: sc.file("/w/in%d" % i, gdata(o["in"]))
            opt = ",".join("%s:true" % f for f in ("trim", "retCode", "retAll", "noError", "noShell", "noRedir", "bg") if o.get(f))
            if o.get("cd"): opt += ",chdir:%s" % jstr(o["cd"])
            if "in" in o and not o.get("sarg"): opt += ",inputStr:simget('/w/in%d')" % i
            os_ = "{%s}" % opt.strip(",")
            if "in" in o and o["sarg"]: os_ = "simget('/w/in%d')" % i
            elif os_ == "{}": os_ = "null"
            js.append("EX(%d,%s,%s);" % (i, jstr(self.cmd(p, o)), os_))
        js.append("simlog('END');")
        sc.phase("\n".join(js)); sc.set(tick_ns=2000, p_edge=0)
        return sc
    @staticmethod
    def split(c): return " ".join(c.split())
    def oracle(self, p, r):
        v = []
        wins = {}; cur = []; res = {}; i = 0
        for e in r.events:
            cur.append(e)
            if e.kind == "J" and e.js()[0] == "CWD": wins[e.js()[1]] = (cur, e.js()[2]); cur = []
        for i, o in enumerate(p["ops"]):
            if i not in wins: v.append(("lost", "op %d never finished" % i)); break
            evs, cwd = wins[i]
            v += [(c, "op %d exec(%r,%s): %s" % (i, self.cmd(p, o), {k: x for k, x in o.items() if k != "k"}, m)) for c, m in self.one(p, o, evs, cwd)]
            if v or cwd != "/w": break
        for e in r.events:
            if e.kind == "FDS":
                if " unreaped=0" not in e.rest and not any(c == "wait" and k == F_ERR for c, k in r.fired): v.append(("zombie", "child processes were not waited for: " + e.rest))
                if "open=0 " not in e.rest: v.append(("fd-leak", e.rest))
        if not any(e.kind == "J" and e.js()[0] == "END" for e in r.events) and not v: v.append(("ended-early", "the script did not finish: %s" % [e.rest for e in r.of("RESULT")]))
        return v
    def one(self, p, o, evs, cwd):
        v = []
        if o.get("sarg") and "in" in o: o = {k: x for k, x in o.items() if k in ("k", "in", "amp", "redir")}
        fl = [e for e in evs if e.kind == "FAULT"]
        hard = [e for e in fl if " kind=1 " in e.rest]
        fc = set(e.rest.split()[0] for e in fl)
        execs = [(e.rest.split(" ", 1)[0], unesc(e.rest.split(" ", 1)[1])) for e in evs if e.kind == "EXEC"]
        procs = [unesc(e.rest).decode() for e in evs if e.kind == "PROC"]
        stdin = [e for e in evs if e.kind == "PSTDIN"]
        inp = gdata(o["in"]) if "in" in o else None
        cmd = self.cmd(p, o)
        got = None; data = None
        for e in evs:
            if e.kind == "B" and e.rest[0] in "SD":
                h, _, rest = e.rest.partition(" "); ln, _, d = rest.partition(" "); data = unesc(d) if int(ln) >= 0 else b""
                if e.rest[0] == "S": got = ("S", data)
            elif e.kind == "J" and e.js()[0] in "NOXU":
                a = e.js(); got = (a[0],) + tuple(a[2:])
        if got is None: return [("lost", "no result")]
        isbg = o.get("bg") or "amp" in o
        baddir = o.get("cd") in ("/w/none", "/w/f")
        env = [c for c in fc if c in ("getcwd", "chdir")]
        must = None
        if o.get("noRedir") and RESTR & set(cmd): must = "it has characters noRedir forbids"
        elif baddir: must = "the directory can not be entered"
        elif isbg and inp is not None: must = "input is not possible in the background"
        elif isbg and o.get("noShell"): must = "noShell is not possible in the background"
        wantcwd = {"..": "/", "/w/d": "/w/d", "d": "/w/d", "/w/d/e": "/w/d/e"}.get(o.get("cd"), "/w")
        if cwd != "/w" and not (o.get("cd") and env and got[0] == "X"): v.append(("cwd", "afterwards the current directory is %s" % cwd)); return v
        if must:
            if execs: v.append(("ran", "the command was run although " + must))
            if got[0] != "X": v.append(("no-raise", "returned %r although %s" % (got, must)))
            return v
        if got[0] == "X" and env: return v
        # which command was run, where, and how often
        if len(execs) > 1: v.append(("ran-twice", "%r" % execs)); return v
        if execs:
            how, c = execs[0]
            noshell = how == "execvp"
            want = cmd.encode() if not noshell else b"\x1f".join(cmd.encode().split())
            if isbg: want = cmd.encode() if "amp" in o and len(cmd) > 1 else (cmd + " &").encode()
            if noshell: c = b"\x1f".join(x for x in c.split(b"\x1f") if x)
            if c != want: v.append(("command", "ran %r" % c)); return v
            if noshell != bool(o.get("noShell") or p["noshell"]) and not isbg: v.append(("shell", "ran by " + how)); return v
            if isbg != (how == "system"): v.append(("shell", "ran by " + how)); return v
            if procs and procs[0] != wantcwd: v.append(("run-dir", "ran in %s instead of %s" % (procs, wantcwd))); return v
        started = bool(procs)
        pr = None
        if o["k"] >= 0: pr = p["procs"][o["k"]]
        if isbg:
            s = 127 << 8
            # the table has no entry for commands with &: a background shell that could be started ends at once
            if got[0] == "X": 
                if not fl: v.append(("raised", "raised %s" % got[1]))
                return v
            code = got[1]
            if not fl and code != 127: v.append(("code", "returned code %r" % (code,)))
            if "system" in fc and code == 0: v.append(("bg-error", "reported success although the command could not be started"))
            return v
        st = pr["st"] if pr else 127 << 8
        out = gdata(pr["out"]) + pr["ws"].encode() if pr else b""
        il = pr["il"] if pr else 0
        if not execs and not fl: v.append(("not-run", "the command was not run")); return v
        pfail = bool(hard) and (not started or "pclose" in fc or "wait" in fc and any(e.rest.split()[0] == "wait" for e in hard))
        iofail = any(e.rest.split()[0] in ("pread", "pwrite") for e in hard)
        if started and "exec" in fc: st, out, il = 127 << 8, b"", 0
        code = st >> 8 if not st & 127 else None     # None: killed by a signal
        # input
        if inp is not None and started and "exec" not in fc:
            w = inp if il < 0 else inp[:il]
            g = b""
            for e in stdin: g = unesc(e.rest)
            if not stdin: v.append(("stdin-open", "the command's input was never closed"))
            elif g != w and not (iofail and w.startswith(g)): v.append(("stdin", "the command got %d bytes of input instead of %d%s" % (len(g), len(w), "" if w.startswith(g) else ", altered"))); return v
            short = g != w
        else: short = False
        if inp is not None: out = b""
        # result
        if o.get("trim"): tout = out.rstrip(b" \t\n\r\v\f")
        else: tout = out
        good = code == 0 and not pfail
        def okcode(c): return (c == code if code is not None else c != 0) if not pfail else c != 0
        if got[0] == "X":
            if o.get("retAll") or o.get("noError") or o.get("retCode") or inp is not None:
                if not iofail and not (pfail and not o.get("noError")): v.append(("raised", "raised %s" % got[1]))
            elif good and not iofail: v.append(("raised", "raised %s although the command succeeded" % got[1]))
            elif not got[1].strip(): v.append(("no-reason", "raised without a reason"))
            return v
        if iofail and not o.get("noError") and (inp is None or short):
            v.append(("io-lost", "returned %s although %s failed" % (got[0], "reading the output" if inp is None else "writing the input"))); return v
        if o.get("retAll"):
            if got[0] != "O": v.append(("kind", "returned %r" % (got,))); return v
            if not okcode(got[1]): v.append(("code", "code %r, wait status %#x" % (got[1], st)))
            if not pfail and got[2] != (st & 255): v.append(("status", "status %r, wait status %#x" % (got[2], st)))
            if data != tout and not (iofail or pfail): v.append(("output", "returned %d bytes of output instead of %d" % (len(data), len(tout))))
        elif inp is not None or o.get("retCode"):
            if got[0] != "N": v.append(("kind", "returned %r" % (got,))); return v
            if not okcode(got[1]): v.append(("code", "code %r, wait status %#x" % (got[1], st)))
        else:
            if got[0] != "S" : v.append(("kind", "returned %r" % (got,))); return v
            if not good and not o.get("noError"): v.append(("no-raise", "returned output although the command failed with wait status %#x%s" % (st, " or could not be run" if pfail else ""))); return v
            if data != tout and not (iofail or pfail): v.append(("output", "returned %d bytes of output instead of %d%s" % (len(data), len(tout), "" if tout.startswith(data) else ", altered")))
        return v
    def tags(self, p, r):
        t = set()
        for o in p["ops"]: t |= set(k for k in o if k != "k")
        return t
CHECK = C()
