"""Builds the simulator from /repo's current working tree.

The jsish sources are copied to a scratch directory, parser.c is generated with bison as the
project's Makefile does, every file is compiled with clang (ASan + edge coverage callbacks),
and the libc symbols that carry nondeterminism are renamed to the simulator's versions with
objcopy.  Nothing is written to /repo.  Builds are cached by content hash under BUILD_ROOT.
"""
import hashlib, os, re, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIMDIR = os.path.join(VERIF, "sim")
BUILD_ROOT = os.environ.get("SIM_BUILD_ROOT", "/tmp/jsish-sim-build")

WRAP = """fopen fopen64 fdopen freopen fileno read write open creat close lseek fsync fcntl ftruncate ftruncate64
truncate stat lstat stat64 lstat64 fstat fstat64 statvfs access chmod fchmod chown utime utimes umask mkdir mknod mkfifo rmdir
unlink remove rename link symlink readlink realpath getcwd chdir mkstemp mkstemp64 opendir readdir readdir64 closedir
scandir scandir64 popen pclose system pipe fork dup2 execvp _exit exit waitpid getpid getppid getuid geteuid getgid getegid
cuserid getlogin_r getpwuid_r isatty tcgetattr tcsetattr dlopen dlerror
gettimeofday time clock_gettime times clock usleep sleep nanosleep clock_nanosleep sigaction signal alarm ualarm setitimer getitimer kill
pthread_create pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_timedlock pthread_mutex_trylock
pthread_mutex_unlock
socket bind listen accept connect send sendto recv recvfrom select setsockopt getsockname getaddrinfo freeaddrinfo ioctl
poll shutdown getpeername getsockopt""".split()

def conf_flags(repo):
    """PROGFLAGS of the default configuration, with the two edits /opt/vp/build.sh makes."""
    flags = []
    with open(os.path.join(repo, "Configs/make_default.conf")) as f:
        for l in f:
            m = re.match(r"^(PROGFLAGS|MODFLAGS)\s*\+?=\s*(.*)$", l)
            if m:
                flags += re.findall(r"-D\S+", m.group(2))
    out = {}
    for f in flags:
        k, _, v = f[2:].partition("=")
        out[k] = v
    out["JSI__WEBSOCKET"] = "0"
    return ["-D%s=%s" % kv if kv[1] != "" else "-D%s" % kv[0] for kv in out.items()]

def sources(repo):
    mk = open(os.path.join(repo, "Makefile")).read().replace("\\\n", " ")
    m = re.search(r"^PCFILES\s*=\s*(.*)$", mk, re.M)
    files = m.group(1).split() if m else []
    files = [f for f in files if f.endswith(".c")]
    for f in ("src/jsiEval.c", "src/linenoise.c", "miniz/miniz.c"):
        if f not in files:
            files.append(f)
    return [f for f in files if os.path.exists(os.path.join(repo, f))]

def tree_hash(repo):
    h = hashlib.sha256()
    for base in ("src", "miniz"):
        for root, ds, fs in sorted(os.walk(os.path.join(repo, base))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".y")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    for p in ("Makefile", "Configs/make_default.conf"):
        h.update(open(os.path.join(repo, p), "rb").read())
    for f in sorted(os.listdir(SIMDIR)) :
        if f.endswith((".c", ".h")):
            h.update(open(os.path.join(SIMDIR, f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:400], p.stdout[-4000:]))
    return p.stdout

def build(repo=None, verbose=False):
    """Returns the path of the simulator binary."""
    repo = repo or REPO
    os.makedirs(BUILD_ROOT, exist_ok=True)
    h = tree_hash(repo)
    out = os.path.join(BUILD_ROOT, h)
    exe = os.path.join(out, "jsisim")
    lock = open(os.path.join(BUILD_ROOT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(exe):
            os.utime(out)
            return exe
        # keep the scratch area small
        olds = sorted((d for d in os.listdir(BUILD_ROOT) if len(d) == 20), key=lambda d: os.path.getmtime(os.path.join(BUILD_ROOT, d)))
        for d in olds[:-3]:
            shutil.rmtree(os.path.join(BUILD_ROOT, d), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="b", dir=BUILD_ROOT)
        try:
            _build(repo, tmp, verbose)
            if os.path.exists(out):
                shutil.rmtree(out)
            os.rename(tmp, out)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        return exe
    finally:
        lock.close()

def _build(repo, tmp, verbose):
    src = os.path.join(tmp, "t")
    os.makedirs(src)
    for base in ("src", "miniz"):
        shutil.copytree(os.path.join(repo, base), os.path.join(src, base),
                        ignore=lambda d, fs: [f for f in fs if f.endswith((".o", ".d", ".a", ".so"))])
    for f in ("parser.c", "parser.h"):
        p = os.path.join(src, "src", f)
        if os.path.exists(p):
            os.unlink(p)
    run(["bison", "-v", "-d", "--debug", "-osrc/parser.c", "src/parser.y"], cwd=src) if False else \
        run(["bison", "-d", "-osrc/parser.c", "src/parser.y"], cwd=src)
    files = sources(src if os.path.exists(os.path.join(src, "Makefile")) else repo)
    files = [f for f in files if os.path.exists(os.path.join(src, f))] + ["src/parser.c"]
    files += [f for f in ["src/main.c"] if f not in files]
    common = ["-g", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all", "-w", "-D_GNU_SOURCE",
              "-fsanitize=address", "-I.", "-Isrc", "-Iminiz"]
    jflags = ["-O2", "-fsanitize-coverage=trace-pc-guard", "-DJSI__MAIN=1", "-DJSI_USER_EXTENSION=Jsi_InitSimExt",
              '-DJSI_PKG_DIRS="/lib"', '-DJSI_CONF_ARGS=""', "-include", os.path.join(SIMDIR, "simpre.h")] + conf_flags(repo)
    objdir = os.path.join(tmp, "o")
    os.makedirs(objdir)
    jobs, jobjs, kobjs = [], [], []
    for f in files:
        o = os.path.join(objdir, os.path.basename(f)[:-2] + ".o")
        fl = [x for x in jflags]
        if f.endswith("/main.c"):   # main() itself only calls jsi_main
            fl = ["-DJSI__MAIN=0" if x == "-DJSI__MAIN=1" else x for x in fl]
        jobs.append((os.path.getsize(os.path.join(src, f)), ["clang", "-c", f, "-o", o] + common + fl))
        jobjs.append(o)
    for f in ("kernel.c", "simfs.c", "simproc.c", "simnet.c", "simsql.c", "simmain.c"):
        o = os.path.join(objdir, "k_" + f[:-2] + ".o")
        jobs.append((10**9, ["clang", "-c", os.path.join(SIMDIR, f), "-o", o, "-O1", "-I" + SIMDIR] + common))
        kobjs.append(o)
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: run(j[1], cwd=src), jobs):
            pass
    allo = os.path.join(objdir, "all_jsish.o")
    run(["ld", "-r", "-o", allo] + jobjs)
    syms = os.path.join(objdir, "syms")
    with open(syms, "w") as f:
        for s in WRAP:
            f.write("%s __wrap_%s\n" % (s, s))
    run(["objcopy", "--redefine-syms=" + syms, allo])
    run(["clang", "-o", os.path.join(tmp, "jsisim"), "-fsanitize=address", allo] + kobjs +
        ["-lsqlite3", "-lm", "-lpthread", "-ldl"])
    shutil.rmtree(objdir)
    if not os.environ.get("SIM_KEEP"):
        shutil.rmtree(src)

if __name__ == "__main__":
    import time
    t = time.time()
    print(build(verbose=True), "%.1fs" % (time.time() - t))
