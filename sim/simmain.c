/* The simulator's server loop, scenario reader and script-side observation commands. */
#include "simfs.h"
#include "jsi.h"
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <time.h>

extern uint8_t *sim_cov; extern uint32_t sim_ncov;
void sim_drain(uint64_t us); int sim_mutex_held(int tid); int sim_unreaped(void);

/* ---- commands visible to scripts (observation only) ---- */
static Jsi_RC c_log(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    Jsi_DString ds; Jsi_DSInit(&ds);
    int n = Jsi_ValueGetLength(ip, args);
    int on = sim_on; sim_on = 0;
    Jsi_DSAppend(&ds, "[", NULL);
    for (int i = 0; i < n; i++) {
        Jsi_DString d1; Jsi_DSInit(&d1);
        const char *s = Jsi_ValueGetDString(ip, Jsi_ValueArrayIndex(ip, args, i), &d1, JSI_OUTPUT_JSON);
        if (i) Jsi_DSAppend(&ds, ",", NULL);
        Jsi_DSAppend(&ds, s ? s : "null", NULL); Jsi_DSFree(&d1);
    }
    Jsi_DSAppend(&ds, "]", NULL);
    tr_esc("J", Jsi_DSValue(&ds), Jsi_DSLength(&ds)); Jsi_DSFree(&ds);
    sim_on = on;
    return JSI_OK;
}
/* exact bytes of a string value */
static Jsi_RC c_bytes(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    int l = 0; const char *tag = Jsi_ValueArrayIndexToStr(ip, args, 0, NULL);
    Jsi_Value *v = Jsi_ValueArrayIndex(ip, args, 1); const char *s = v ? Jsi_ValueString(ip, v, &l) : 0;
    char b[300]; snprintf(b, sizeof b, "B %.200s %d", tag ? tag : "?", s ? l : -1); tr_esc(b, s ? s : "", s ? l : 0); return JSI_OK;
}
static Jsi_RC c_now(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) { Jsi_ValueMakeNumber(ip, ret, (Jsi_Number)sim_now_us()); return JSI_OK; }
static Jsi_RC c_wall(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) { Jsi_ValueMakeNumber(ip, ret, (Jsi_Number)sim_wall_us()); return JSI_OK; }
static Jsi_RC c_tid(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) { Jsi_ValueMakeNumber(ip, ret, (Jsi_Number)sim_self()); return JSI_OK; }
static Jsi_RC c_adv(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    Jsi_Number n = 0; Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 0), &n); sim_now_us(); A->mono_ns += (uint64_t)(n*1000); sim_poll_events(); return JSI_OK;
}
static Jsi_RC c_jump(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    Jsi_Number n = 0; Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 0), &n); A->wall_off += (int64_t)n; tr("CLOCKJUMP %ld", (long)n); return JSI_OK;
}
static Jsi_RC c_sig(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    Jsi_Number n = 0; Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 0), &n); sim_signal_deliver((int)n); return JSI_OK;
}
/* yield the processor to another simulated thread */
static Jsi_RC c_yield(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) { sim_yield(1); return JSI_OK; }
/* outside actor on the simulated disk: extput(path, data), extlink(target, path), extrm... */
static Jsi_RC c_extput(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    int l = 0; const char *p = Jsi_ValueArrayIndexToStr(ip, args, 0, NULL); Jsi_Value *v = Jsi_ValueArrayIndex(ip, args, 1); const char *s = Jsi_ValueString(ip, v, &l);
    fs_put(p, 0644, s ? s : "", l); return JSI_OK;
}
/* contents of a simulated file, read outside the seam: nothing is counted and no fault applies */
static Jsi_RC c_get(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    const char *p = Jsi_ValueArrayIndexToStr(ip, args, 0, NULL); int e; inode *n = fs_lookup(p, 1, &e);
    if (!n || !S_ISREG(n->mode)) return JSI_OK;
    Jsi_DString ds; Jsi_DSInit(&ds); Jsi_DSAppendLen(&ds, n->size ? n->data : "", n->size);
    Jsi_ValueMakeDStringObject(ip, ret, &ds); return JSI_OK;
}
/* snap(path): record the contents of a simulated file in the trace */
static Jsi_RC c_snap(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    const char *p = Jsi_ValueArrayIndexToStr(ip, args, 0, NULL); int e; inode *n = fs_lookup(p, 1, &e); char h[1200];
    if (!n || !S_ISREG(n->mode)) { tr("SNAP %s -1", p); return JSI_OK; }
    snprintf(h, sizeof h, "SNAP %s %ld", p, n->size); tr_esc(h, n->data, n->size); return JSI_OK;
}
/* simtree(path): record every object below a simulated directory in the trace */
static void tree_rec(inode *n, const char *path) {
    char h[2300]; const char *t = S_ISDIR(n->mode) ? "d" : S_ISLNK(n->mode) ? "l" : S_ISREG(n->mode) ? "f" : S_ISFIFO(n->mode) ? "p" : S_ISCHR(n->mode) ? "c" : S_ISBLK(n->mode) ? "b" : "?";
    snprintf(h, sizeof h, "TREE %s %s %o %lu %d %lu", path, t, n->mode & 07777, (unsigned long)n->ino, n->nlink, (unsigned long)n->rdev); tr_esc(h, n->data, S_ISDIR(n->mode) ? 0 : n->size);
    for (int i = 0; S_ISDIR(n->mode) && i < n->nent; i++) { char q[2000]; snprintf(q, sizeof q, "%s/%s", strcmp(path, "/") ? path : "", n->ents[i].name); tree_rec(n->ents[i].ino, q); }
}
static Jsi_RC c_tree(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    const char *p = Jsi_ValueArrayIndexToStr(ip, args, 0, NULL); int e; inode *n = fs_lookup(p, 1, &e); if (n) tree_rec(n, p);
    tr("TREEEND %s", p); return JSI_OK;
}
/* stub network peers: simpeer("connect",port) ("listen",port) ("accept",id) ("udp",port) ("send",id,data[,port]) ("recv",id) ("close",id) ("reset",id) ("port",id) */
int sim_peer_connect(int); int sim_peer_udp(int); int sim_peer_listen(int); int sim_peer_accept(int); int sim_peer_port(int); long sim_peer_send(int, const char*, long, int); long sim_peer_recv(int, char*, long); void sim_peer_close(int, int);
static Jsi_RC c_peer(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    Jsi_Number n = 0, port = 0; const char *op = Jsi_ValueArrayIndexToStr(ip, args, 0, NULL); Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 1), &n);
    long r = -9; int on = sim_on; sim_on = 0;
    if (!strcmp(op, "connect")) r = sim_peer_connect((int)n); else if (!strcmp(op, "listen")) r = sim_peer_listen((int)n);
    else if (!strcmp(op, "accept")) r = sim_peer_accept((int)n); else if (!strcmp(op, "udp")) r = sim_peer_udp((int)n);
    else if (!strcmp(op, "port")) r = sim_peer_port((int)n);
    else if (!strcmp(op, "close") || !strcmp(op, "reset")) { sim_peer_close((int)n, *op == 'r'); tr("PEERCLOSE %d %s", (int)n, op); r = 0; }
    else if (!strcmp(op, "send")) { int l = 0; Jsi_Value *v = Jsi_ValueArrayIndex(ip, args, 2); const char *s = Jsi_ValueString(ip, v, &l); if (Jsi_ValueArrayIndex(ip, args, 3)) Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 3), &port);
        r = sim_peer_send((int)n, s ? s : "", s ? l : 0, (int)port); char h[64]; snprintf(h, sizeof h, "PEERSEND %d %ld", (int)n, r); tr_esc(h, s ? s : "", s ? l : 0); }
    else if (!strcmp(op, "recv")) { static char b[262144]; r = sim_peer_recv((int)n, b, sizeof b); char h[64]; snprintf(h, sizeof h, "PEERRECV %d %ld", (int)n, r); tr_esc(h, b, r > 0 ? r : 0); }
    sim_on = on;
    Jsi_ValueMakeNumber(ip, ret, (Jsi_Number)r); return JSI_OK;
}
void sim_db_extlock(const char *path, int level, uint64_t us);
static Jsi_RC c_extlock(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    Jsi_Number l = 0, us = 0; const char *p = Jsi_ValueArrayIndexToStr(ip, args, 0, NULL); Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 1), &l); Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 2), &us);
    sim_db_extlock(p, (int)l, (uint64_t)us); return JSI_OK;
}
/* add a fault relative to the calls made so far: simfault(class, nth-from-now, kind, arg) */
static int clsid(const char *n);
static Jsi_RC c_fault(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    Jsi_Number n = 0, k = 0, a = 0; const char *c = Jsi_ValueArrayIndexToStr(ip, args, 0, NULL); int id = clsid(c);
    Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 1), &n); Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 2), &k);
    if (Jsi_ValueArrayIndex(ip, args, 3)) Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 3), &a);
    if (id < 0 || A->nfault >= MAX_FAULTS) { tr("SIMFAIL simfault"); sim_die(97); }
    SimFault *q = &A->fault[A->nfault++]; q->cls = id; q->nth = (int)(A->cnt[id] + n); q->kind = (int)k; q->arg = (long)a; q->fired = 0; return JSI_OK;
}
/* drop the faults that have not fired: "faults stop here" */
static Jsi_RC c_quiet(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    Jsi_Number d = 0; Jsi_GetNumberFromValue(ip, Jsi_ValueArrayIndex(ip, args, 0), &d); A->quiet = d != 0; return JSI_OK;
}
static Jsi_RC c_calm(Jsi_Interp *ip, Jsi_Value *args, Jsi_Value *th, Jsi_Value **ret, Jsi_Func *f) {
    for (int i = 0; i < A->nfault; i++) if ((uint64_t)A->fault[i].nth > A->cnt[A->fault[i].cls]) A->fault[i].nth = 0;
    A->disk_cap = 1u<<30; tr("CALM"); return JSI_OK;
}
int Jsi_InitSimExt(Jsi_Interp *ip, int release) {
    if (release) return JSI_OK;
    Jsi_CommandCreate(ip, "simlog", c_log, NULL); Jsi_CommandCreate(ip, "simbytes", c_bytes, NULL);
    Jsi_CommandCreate(ip, "simnow", c_now, NULL); Jsi_CommandCreate(ip, "simwall", c_wall, NULL);
    Jsi_CommandCreate(ip, "simtid", c_tid, NULL); Jsi_CommandCreate(ip, "simadv", c_adv, NULL);
    Jsi_CommandCreate(ip, "simjump", c_jump, NULL); Jsi_CommandCreate(ip, "simsig", c_sig, NULL);
    Jsi_CommandCreate(ip, "simyield", c_yield, NULL); Jsi_CommandCreate(ip, "simextput", c_extput, NULL);
    Jsi_CommandCreate(ip, "simpeer", c_peer, NULL); Jsi_CommandCreate(ip, "simdblock", c_extlock, NULL);
    Jsi_CommandCreate(ip, "simget", c_get, NULL); Jsi_CommandCreate(ip, "simsnap", c_snap, NULL); Jsi_CommandCreate(ip, "simtree", c_tree, NULL);
    Jsi_CommandCreate(ip, "simfault", c_fault, NULL); Jsi_CommandCreate(ip, "simcalm", c_calm, NULL); Jsi_CommandCreate(ip, "simquiet", c_quiet, NULL);
    return JSI_OK;
}
void sim_exit_hook(int code) { int on = sim_on; sim_on = 0; (void)on; }

/* ---- one phase = one process incarnation ---- */
static void run_phase(SimPhase *ph) {
    A->quiet = 0;
    sim_cov = (uint8_t*)(ARENA_ADDR + ARENA_SIZE);
    sim_stdio_init(); fs_start_phase(); sql_vfs_init();
    char *argv[40]; int argc = 0; argv[argc++] = "/w/jsish";
    for (char *s = strtok(ph->args, "\x01"); s && argc < 38; s = strtok(0, "\x01")) argv[argc++] = s;
    argv[argc] = 0;
    tr("PHASE %d start", A->phase_i);
    sim_on = 1;
    if (ph->kind == 3) { extern int jsi_main(int, char**); extern void __wrap_exit(int); int rc = jsi_main(argc, argv); tr("MAINBACK %d", rc); __wrap_exit(rc); } /* the program as it is */
    if (ph->kind == 2) { /* whole command line: Jsi_Main */
        Jsi_InterpOpts o = { .argc = argc, .argv = argv }; o.no_interactive = 1; o.auto_delete = 1;
        Jsi_Interp *ip = Jsi_Main(&o);
        sim_on = 0; fflush(stdout); fflush(stderr); sim_on = 1;
        tr("MAINRET %s exit=%d", ip ? "interp" : "null", o.exitCode);
        if (ip) Jsi_InterpDelete(ip);
    } else {
        Jsi_InterpOpts o = { .argc = argc, .argv = argv };
        Jsi_Interp *ip = Jsi_InterpNew(&o);
        if (!ip) { tr("RESULT nointerp"); }
        else {
            Jsi_RC rc = Jsi_EvalString(ip, ph->script, JSI_EVAL_ISMAIN);
            int gone = rc == JSI_EXIT;
            const char *ef = 0; int el = 0; 
            const char *em = rc == JSI_ERROR && !gone ? Jsi_InterpLastError(ip, &ef, &el) : "";
            char b[64]; snprintf(b, sizeof b, "RESULT rc=%d", rc); tr_esc(b, em ? em : "", em ? strlen(em) : 0);
            if (A->drain) sim_drain(A->drain*1000ULL);
            if (!gone && !(ph->opt & 1)) { Jsi_InterpDelete(ip); tr("DELETED held=%d", sim_mutex_held(sim_tid)); }
        }
    }
    sim_on = 0; fflush(0);
    int fds = 0; for (int i = 3; i < NFD; i++) if (sim_fds[i].kind) fds++;
    tr("FDS open=%d unreaped=%d", fds, sim_unreaped());
    sim_die(0);
}
/* ---- scenario parsing ---- */
static char *line(char **p) { char *s = *p, *e = strchr(s, '\n'); if (!e) { *p = s + strlen(s); return s; } *e = 0; *p = e+1; return s; }
static void unesc(char *s) { char *o = s; for (; *s; s++) { if (s[0] == '\\' && s[1] == 'x') { char h[3] = { s[2], s[3], 0 }; *o++ = (char)strtol(h, 0, 16); s += 3; } else *o++ = *s; } *o = 0; }
static int clsid(const char *n) { for (int i = 0; sim_class_names[i]; i++) if (!strcmp(n, sim_class_names[i])) return i; return -1; }
static int parse(char *p, char *end) {
    A->epoch_us = 1700000000000000ULL; A->tick_ns = 1000; A->edge_ns = 5; A->max_steps = 60000000; A->max_time_us = 3600ULL*1000000;
    A->disk_cap = 32u<<20; A->uid_root = 1; A->log_sys = 0; A->net_min_us = 100; A->net_sndbuf = 65536;
    while (p < end) {
        char *l = line(&p), k[64] = "", v[1024] = ""; long a = 0, b = 0, c = 0, d = 0;
        if (!*l) continue;
        sscanf(l, "%63s", k);
        if (!strcmp(k, "set")) {
            unsigned long long n = 0; sscanf(l, "set %1023s %llu", v, &n);
#define S(x) else if (!strcmp(v, #x)) A->x = n
            if (!strcmp(v, "seed")) { A->seed = n; uint64_t z = n; for (int i = 0; i < 8; i++) { z += 0x9e3779b97f4a7c15ULL; uint64_t t = z; t = (t^(t>>30))*0xbf58476d1ce4e5b9ULL; t = (t^(t>>27))*0x94d049bb133111ebULL; t ^= t>>31; if (i < 4) A->rng[i] = t; else A->rng_s[i-4] = t; } }
            S(epoch_us); S(tick_ns); S(edge_ns); S(jitter_us); S(p_edge); S(p_sync); S(max_steps); S(max_time_us); S(disk_cap);
            S(explicit_sched); S(log_sys); S(drain); S(io_yield); S(stdio_buf); S(fdlimit); S(uid_root); S(out_full);
            S(net_min_us); S(net_jit_us); S(net_loss); S(net_dup); S(net_chunk); S(net_reorder); S(net_sndbuf);
            else return -1;
        } else if (!strcmp(k, "cwd")) { sscanf(l, "cwd %255s", A->cwd0);
        } else if (!strcmp(k, "dump")) { sscanf(l, "dump %255s", A->dump); }
        else if (!strcmp(k, "fault")) { /* fault <class> <nth> <kind> <arg> */
            long kd; if (sscanf(l, "fault %1023s %ld %ld %ld", v, &a, &kd, &b) != 4 || clsid(v) < 0 || A->nfault >= MAX_FAULTS) return -2;
            SimFault *f = &A->fault[A->nfault++]; f->cls = clsid(v); f->nth = a; f->kind = kd; f->arg = b;
        } else if (!strcmp(k, "event")) { /* event <at_us> <kind> <a> <b> */
            if (sscanf(l, "event %ld %ld %ld %ld", &a, &b, &c, &d) != 4) return -3;
            sim_add_event(a, b, c, d);
        } else if (!strcmp(k, "pre")) { if (sscanf(l, "pre %ld %ld", &a, &b) != 2 || A->npre >= MAX_PREEMPT) return -4; A->pre[A->npre].sp = a; A->pre[A->npre++].tid = b; }
        else if (!strcmp(k, "file")) { /* file <path> <mode> <len>\n<bytes> */
            if (sscanf(l, "file %1023s %lo %ld", v, (unsigned long*)&a, &b) != 3 || p + b > end) return -5;
            unesc(v); if (fs_put(v, a, p, b)) return -6; p += b;
            if (p < end && *p == '\n') p++;
        } else if (!strcmp(k, "dir")) { sscanf(l, "dir %1023s %lo", v, (unsigned long*)&a); unesc(v); if (fs_mkdirs(v)) return -7; if (a) { inode *n = fs_lookup(v, 1, 0); if (n) n->mode = S_IFDIR|a; } }
        else if (!strcmp(k, "symlink")) { char w[1024]; sscanf(l, "symlink %1023s %1023s", v, w); unesc(v); unesc(w); if (fs_symlink(v, w)) return -8; }
        else if (!strcmp(k, "stdin")) { sscanf(l, "stdin %ld", &a); A->stdin_data = ar_alloc(a+1); memcpy(A->stdin_data, p, a); A->stdin_len = a; p += a; if (p < end && *p == '\n') p++; }
        else if (!strcmp(k, "proc")) { /* proc <status> <prefix> <delay> <chunk> <cmdlen> <outlen>\n cmd out */
            long cl, ol, il; if (sscanf(l, "proc %ld %ld %ld %ld %ld %ld %ld", &a, &b, &c, &d, &cl, &ol, &il) != 7 || A->nproc >= MAX_PROCS) return -9;
            SimProc *q = &A->proc[A->nproc++]; q->status = a; q->prefix = b; q->dly = c; q->chunk = d; q->inlim = il;
            snprintf(q->cmd, sizeof q->cmd, "%.*s", (int)cl, p); p += cl; q->out = ar_alloc(ol+1); memcpy(q->out, p, ol); q->len = ol; p += ol; if (p < end && *p == '\n') p++;
        } else if (!strcmp(k, "phase")) { /* phase <kind> <opt> <argslen> <scriptlen>\n args script; before: power loss mode if opt&0x100 */
            if (sscanf(l, "phase %ld %ld %ld %ld", &a, &b, &c, &d) != 4 || A->nphase >= MAX_PHASES) return -10;
            SimPhase *q = &A->phase[A->nphase++]; q->kind = a; q->opt = b; q->args = ar_alloc(c+1); memcpy(q->args, p, c); p += c;
            q->script = ar_alloc(d+1); memcpy(q->script, p, d); q->len = d; p += d; if (p < end && *p == '\n') p++;
        } else return -11;
    }
    return 0;
}
static void rd(char *b, size_t n) { while (n) { ssize_t r = read(0, b, n); if (r <= 0) _exit(0); b += r; n -= r; } }
static void wr(const char *b, size_t n) { while (n) { ssize_t r = write(1, b, n); if (r <= 0) _exit(0); b += r; n -= r; } }
int main(int argc, char **argv, char **envp) {
    if (!getenv("SIM_NOASLR")) {
        int p = personality(0xffffffff);
        setenv("SIM_NOASLR", "1", 1);
        if (p >= 0 && !(p & ADDR_NO_RANDOMIZE)) { personality(p | ADDR_NO_RANDOMIZE); execve("/proc/self/exe", argv, environ); }
    }
    setenv("TZ", "UTC", 1); tzset();
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    if (mmap(ARENA_ADDR, ARENA_SIZE + (1u<<20), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE, -1, 0) != ARENA_ADDR) { perror("arena"); return 3; }
    size_t hdr = (sizeof(Arena) + 4095) & ~4095UL;
    char *tracebuf = ARENA_ADDR + hdr, *heap = tracebuf + TRACE_MAX;
    int errfd = memfd_create("err", 0); 
    for (;;) {
        char h[17]; rd(h, 16); h[16] = 0; long n = atol(h);
        memset(A, 0, sizeof(Arena)); A->trace = tracebuf; A->brk = heap;
        char *sc = ar_alloc(n+1); rd(sc, n);
        A->disk_cap = 32u<<20; A->uid_root = 1; fs_init();
        int e = parse(sc, sc + n);
        char st[64] = "ok"; 
        (void)!ftruncate(errfd, 0); lseek(errfd, 0, SEEK_SET);
        uint64_t cov0 = 0;
        if (e) snprintf(st, sizeof st, "badscenario %d", e);
        else for (A->phase_i = 0; A->phase_i < A->nphase; A->phase_i++) {
            if (A->phase_i > 0 && (A->phase[A->phase_i].opt & 0x100)) { fs_powerfail((A->phase[A->phase_i].opt >> 9) & 3); tr("POWERLOSS mode=%ld", (A->phase[A->phase_i].opt >> 9) & 3); }
            A->phase_done = -1;
            pid_t pid = fork();
            if (pid == 0) { dup2(errfd, 2); run_phase(&A->phase[A->phase_i]); _exit(0); }
            int ws; struct timespec ts = { 0, 200000 }; time_t t0 = time(0); pid_t r;
            while ((r = waitpid(pid, &ws, 0)) < 0) ;
            (void)ts; (void)t0;
            int code = WIFEXITED(ws) ? WEXITSTATUS(ws) : 200 + WTERMSIG(ws);
            if (A->phase_done < 0 || (code != 0 && !(code >= 90 && code <= 96))) { snprintf(st, sizeof st, "died %d phase %d", code, A->phase_i); break; }
            if (code == 95 || code == 96) A->nfault = A->nfault; /* a crash: the next phase is the restart */
            else if (code >= 92) { snprintf(st, sizeof st, "stuck %d phase %d", code, A->phase_i); break; }
        }
        { uint8_t *cv = (uint8_t*)(ARENA_ADDR + ARENA_SIZE); for (uint32_t i = 1; i <= sim_ncov && i < (1u<<20); i++) cov0 += cv[i]; }
        if (!e) { A->mono_ns = A->mono_ns; fs_dump(); }
        char tail[16384]; int k = snprintf(tail, sizeof tail, "STATUS %s\nSTATS steps=%llu time_us=%llu switches=%llu sp=%llu sched=%llx cov=%llu over=%d decover=%d seq=%llu\n", st, (unsigned long long)A->steps, (unsigned long long)(A->mono_ns/1000),
            (unsigned long long)A->switches, (unsigned long long)A->sp, (unsigned long long)A->sched_hash, (unsigned long long)cov0, A->trace_over, A->dec_over, (unsigned long long)A->seq);
        k += snprintf(tail+k, sizeof tail-k, "COUNTS"); for (int i = 0; i < C_NCLASS; i++) if (A->cnt[i]) k += snprintf(tail+k, sizeof tail-k, " %s=%llu", sim_class_names[i], (unsigned long long)A->cnt[i]);
        k += snprintf(tail+k, sizeof tail-k, "\nFIRED"); for (int i = 0; i < A->nfault; i++) if (A->fault[i].fired && k < 8000) k += snprintf(tail+k, sizeof tail-k, " %s:%d", sim_class_names[A->fault[i].cls], A->fault[i].kind);
        k += snprintf(tail+k, sizeof tail-k, "\n");
        static char dec[MAX_DECIS*32]; int dk = snprintf(dec, sizeof dec, "DECISIONS"); for (int i = 0; i < A->ndec; i++) dk += snprintf(dec+dk, sizeof dec-dk, " %llu:%d", (unsigned long long)A->dec[i].sp, A->dec[i].tid);
        dk += snprintf(dec+dk, sizeof dec-dk, "\nSTDERRTEXT\n");
        static char er[24001]; lseek(errfd, 0, SEEK_SET); ssize_t en = read(errfd, er, 24000); if (en < 0) en = 0;
        char oh[20]; snprintf(oh, sizeof oh, "%015ld\n", (long)A->trace_len + k + dk + en); wr(oh, 16);
        wr(A->trace, A->trace_len); wr(tail, k); wr(dec, dk); wr(er, en);
    }
}
