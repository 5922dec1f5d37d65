"""Talks to simulator processes: scenario building, running, trace parsing."""
import os, re, subprocess, json, hashlib, signal, select, time

CLASSES = ("open read write close seek stat lstat access chmod mkdir mknod unlink rmdir rename link symlink readlink realpath "
 "opendir readdir trunc chdir getcwd mkstemp utime dbopen dbread dbwrite dbsync dbtrunc dbdel dblock dbsize popen pread pwrite "
 "pclose system fork exec wait pipe kill socket bind listen accept connect send recv select sockopt gai time sleep lock unlock "
 "tcreate dlopen stdin stdout sigact").split()
F_ERR, F_SHORT, F_ZERO, F_FLIP, F_CRASH, F_KILL, F_EINTR, F_FULL, F_DELAY = range(1, 10)
FAULT_NAMES = {1: "error", 2: "short", 3: "zero", 4: "bitflip", 5: "crash", 6: "kill", 7: "eintr", 8: "diskfull", 9: "delay"}
EV_SIGNAL, EV_CLOCK, EV_NET, EV_KILL = 1, 2, 3, 4
ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:"
       "max_malloc_fill_size=4096:malloc_fill_byte=190:malloc_context_size=0:max_free_fill_size=64:quarantine_size_mb=16:symbolize=0:"
       "detect_stack_use_after_return=0:detect_odr_violation=0:handle_segv=1:allow_user_segv_handler=0",
       "PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "HOME": "/home/u"}

def esc(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return "".join(chr(c) if 33 <= c <= 126 and c != 92 else "\\x%02x" % c for c in b)

_unesc = re.compile(r"\\x([0-9a-f]{2})")
def unesc(s):
    """escaped trace text -> bytes"""
    return _unesc.sub(lambda m: chr(int(m.group(1), 16)), s).encode("latin-1")

class Scenario:
    """A complete, self-contained description of one simulated execution."""
    def __init__(self, seed=1):
        self.sets = {"seed": seed}
        self.files, self.dirs, self.symlinks = [], [], []
        self.faults, self.events, self.pres = [], [], []
        self.procs, self.phases = [], []
        self.stdin = None
        self.dump = None; self.cwd = None
        self.meta = {}
    def set(self, **kw):
        self.sets.update(kw); return self
    def file(self, path, data=b"", mode=0o644):
        self.files.append([path, mode, data if isinstance(data, bytes) else data.encode()]); return self
    def dir(self, path, mode=0):
        self.dirs.append([path, mode]); return self
    def symlink(self, tgt, path):
        self.symlinks.append([tgt, path]); return self
    def fault(self, cls, nth, kind, arg=0):
        assert cls in CLASSES
        self.faults.append([cls, nth, kind, arg]); return self
    def event(self, at, kind, a=0, b=0):
        self.events.append([at, kind, a, b]); return self
    def proc(self, cmd, out=b"", status=0, prefix=0, delay=0, chunk=0, inlim=-1):
        self.procs.append([status, prefix, delay, chunk, cmd, out if isinstance(out, bytes) else out.encode(), inlim]); return self
    def phase(self, script, args=(), kind=1, opt=0):
        self.phases.append([kind, opt, list(args), script]); return self
    def render(self):
        o = []
        w = lambda s: o.append(s.encode() if isinstance(s, str) else s)
        for k, v in self.sets.items():
            w("set %s %d\n" % (k, v))
        if self.cwd: w("cwd %s\n" % self.cwd)
        if self.dump:
            w("dump %s\n" % self.dump)
        for p, m in self.dirs: w("dir %s %o\n" % (esc(p), m))
        for p, m, d in self.files:
            w("file %s %o %d\n" % (esc(p), m, len(d))); w(d); w("\n")
        for t, p in self.symlinks: w("symlink %s %s\n" % (esc(t), esc(p)))
        if self.stdin is not None:
            w("stdin %d\n" % len(self.stdin)); w(self.stdin); w("\n")
        for f in self.faults: w("fault %s %d %d %d\n" % tuple(f))
        for e in self.events: w("event %d %d %d %d\n" % tuple(e))
        for p in self.pres: w("pre %d %d\n" % tuple(p))
        for st, pf, dl, ch, cmd, out, il in self.procs:
            c = cmd.encode()
            w("proc %d %d %d %d %d %d %d\n" % (st, pf, dl, ch, len(c), len(out), il)); w(c); w(out); w("\n")
        for k, op, args, sc in self.phases:
            a = "\x01".join(args).encode(); s = sc.encode("utf-8", "surrogateescape") if isinstance(sc, str) else sc
            w("phase %d %d %d %d\n" % (k, op, len(a), len(s))); w(a); w(s); w("\n")
        return b"".join(o)
    def to_json(self):
        d = dict(self.__dict__)
        d["files"] = [[p, m, x.decode("latin-1")] for p, m, x in self.files]
        d["procs"] = [[a, b, c, e, f, x.decode("latin-1"), g] for a, b, c, e, f, x, g in self.procs]
        d["stdin"] = None if self.stdin is None else self.stdin.decode("latin-1")
        return d
    @staticmethod
    def from_json(d):
        s = Scenario(); s.__dict__.update(json.loads(json.dumps(d)))
        s.files = [[p, m, x.encode("latin-1")] for p, m, x in s.files]
        s.procs = [[a, b, c, e, f, x.encode("latin-1"), g] for a, b, c, e, f, x, g in d["procs"]]
        s.stdin = None if s.stdin is None else s.stdin.encode("latin-1")
        return s
    def copy(self):
        return Scenario.from_json(self.to_json())

class Ev:
    __slots__ = ("seq", "t", "tid", "kind", "rest")
    def __init__(self, seq, t, tid, kind, rest):
        self.seq, self.t, self.tid, self.kind, self.rest = seq, t, tid, kind, rest
    def __repr__(self):
        return "%d @%dus T%d %s %s" % (self.seq, self.t, self.tid, self.kind, self.rest)
    def js(self):
        """decoded argument list of a script log record"""
        return json.loads(unesc(self.rest).decode("utf-8", "replace"))

class Result:
    def __init__(self, raw):
        self.raw = raw
        txt = raw.decode("latin-1")
        head, _, err = txt.partition("\nSTDERRTEXT\n")
        self.stderr = err
        lines = head.split("\n")
        self.events, self.status, self.stats, self.counts, self.fired, self.decisions = [], "?", {}, {}, [], []
        tail = False
        for l in lines:
            if not tail and l[:1].isdigit():
                p = l.split(" ", 4)
                if len(p) >= 4:
                    self.events.append(Ev(int(p[0]), int(p[1]), int(p[2]), p[3], p[4] if len(p) > 4 else ""))
                    continue
            if l.startswith("STATUS "): self.status = l[7:]; tail = True
            elif l.startswith("STATS "): self.stats = dict(x.split("=") for x in l[6:].split())
            elif l.startswith("COUNTS"): self.counts = {k: int(v) for k, v in (x.split("=") for x in l.split()[1:])}
            elif l.startswith("FIRED"): self.fired = [(a, int(b)) for a, b in (x.split(":") for x in l.split()[1:])]
            elif l.startswith("DECISIONS"): self.decisions = [(int(a), int(b)) for a, b in (x.split(":") for x in l.split()[1:])]
    def hash(self):
        """identity of the execution: every event with its virtual time, thread and payload"""
        h = hashlib.sha256()
        for e in self.events:
            h.update(("%d %d %d %s %s\n" % (e.seq, e.t, e.tid, e.kind, e.rest)).encode("latin-1"))
        h.update(self.status.encode()); h.update(self.stats.get("sched", "").encode())
        return h.hexdigest()[:16]
    def js(self, tag=None):
        out = []
        for e in self.events:
            if e.kind == "J":
                a = e.js()
                if tag is None or (a and a[0] == tag):
                    out.append((e, a))
        return out
    def of(self, kind):
        return [e for e in self.events if e.kind == kind]
    def fs(self):
        """final simulated disk: path -> (type, mode, size, nlink, bytes|hash-string|None)"""
        out = {}
        for e in self.of("FS"):
            p = e.rest.split(" ", 5)
            path = unesc(p[4]).decode("latin-1")
            data = None
            if p[0] != "d":
                r = p[5] if len(p) > 5 else ""
                data = r if r.startswith("#") and int(p[2]) > 65536 else unesc(r)
            out[path] = (p[0], int(p[1], 8), int(p[2]), int(p[3]), data)
        return out
    def asan(self):
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", self.stderr)
        return m.group(1) if m else None
    def died(self):
        """a crash of the real code: sanitizer report, abort, assertion"""
        if self.status.startswith("died"):
            a = self.asan()
            m = re.search(r"Assertion `(.*)' failed", self.stderr)
            return a or (("assert " + m.group(1)) if m else self.status)
        return None
    def stuck(self):
        if self.status.startswith("stuck"):
            return {"92": "step-cap", "93": "time-cap", "94": "deadlock"}.get(self.status.split()[1], self.status)
        return None

class Sim:
    """One simulator server process (fork server)."""
    def __init__(self, exe, noaslr=None):
        self.exe = exe; self.p = None; self.runs = 0
    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, bufsize=0, preexec_fn=_unlim)
    def run_raw(self, blob, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.runs += 1
        try:
            self.p.stdin.write(b"%015d\n" % len(blob)); 
            mv = memoryview(blob)
            while mv:
                n = self.p.stdin.write(mv); mv = mv[n:]
            dl = time.time() + timeout
            h = self._rd(16, dl)
            return self._rd(int(h), dl)
        except (BrokenPipeError, EOFError, TimeoutError) as e:
            self.close(); raise
    def _rd(self, n, dl):
        b = bytearray()
        fd = self.p.stdout.fileno()
        while len(b) < n:
            r, _, _ = select.select([fd], [], [], max(0, dl - time.time()))
            if not r:
                raise TimeoutError("simulator did not answer")
            x = os.read(fd, min(1 << 20, n - len(b)))
            if not x:
                raise EOFError("simulator server died")
            b += x
        return bytes(b)
    def run(self, sc, timeout=120):
        try:
            return Result(self.run_raw(sc.render(), timeout))
        except TimeoutError:
            r = Result(b""); r.status = "hang"; return r
        except (EOFError, BrokenPipeError):
            r = Result(b""); r.status = "serverdied"; return r
    def close(self):
        if self.p:
            try:
                self.p.kill(); self.p.wait()
            except Exception:
                pass
            subprocess.run(["true"])
            self.p = None

def _unlim():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except Exception:
        pass
    os.setpgid(0, 0)
