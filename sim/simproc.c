/* Child processes, pipes, process identity, stdin/stdout. No process is ever started:
 * a table in the scenario says what each command prints and how it ends. */
#include "simfs.h"
#include <unistd.h>
#include <sys/wait.h>
#include <pwd.h>
#include <setjmp.h>
#include <fcntl.h>
#include <termios.h>

typedef struct { const char *data; int len, pos, status, pid, chunk, reaped, wr; long dly; char *cmd; char *in; int inlen; int inlim; } Child;
static Child kids[256]; static int nkid;
typedef struct { Child *c; int w; } PEnd;

static SimProc *find_proc(const char *cmd) {
    for (int i = 0; i < A->nproc; i++) if (!A->proc[i].prefix ? !strcmp(A->proc[i].cmd, cmd) : !strncmp(A->proc[i].cmd, cmd, strlen(A->proc[i].cmd))) return &A->proc[i];
    return 0;
}
static Child *start(const char *cmd, int wr) {
    char cw[1024]; fs_cwd(cw, sizeof cw); tr_esc("PROC", cw, strlen(cw));
    if (nkid >= 256) { tr("SIMFAIL kids"); sim_die(97); }
    Child *c = &kids[nkid]; memset(c, 0, sizeof *c); c->pid = 5000 + nkid++; c->cmd = strdup(cmd); c->wr = wr;
    SimProc *p = find_proc(cmd);
    if (p) { c->data = p->out; c->len = p->len; c->status = p->status; c->dly = p->dly; c->chunk = p->chunk; }
    else c->status = 127 << 8;
    c->inlim = p ? p->inlim : 0;
    return c;
}
long sim_pipe_read(SFd *s, char *b, long n) {
    Child *c = ((PEnd*)s->obj)->c;
    SimFault *f = sim_fault(C_PREAD);
    if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    if (f && f->kind == F_EINTR) { errno = EINTR; return -1; }
    if (!c) return 0;
    if (c->dly) sim_sleep_us(c->dly, 0);
    long r = c->len - c->pos; if (r > n) r = n;
    if (c->chunk && r > c->chunk) r = c->chunk;
    if (f && f->kind == F_SHORT && f->arg > 0 && r > f->arg) r = f->arg;
    if (r > 0) memcpy(b, c->data + c->pos, r);
    c->pos += r; return r;
}
long sim_pipe_write(SFd *s, const char *b, long n) {
    Child *c = ((PEnd*)s->obj)->c;
    SimFault *f = sim_fault(C_PWRITE);
    if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    if (!c) { errno = EPIPE; return -1; }
    if (f && f->kind == F_EINTR) { errno = EINTR; return -1; }
    if (f && f->kind == F_SHORT && f->arg > 0 && n > f->arg) n = f->arg;
    if (c->dly) sim_sleep_us(c->dly, 0);
    if (c->inlim >= 0 && c->inlen >= c->inlim) { tr("PIPEGONE"); sim_signal_deliver(13); errno = EPIPE; return -1; }
    if (c->inlim >= 0 && n > c->inlim - c->inlen) n = c->inlim - c->inlen;
    c->in = realloc(c->in, c->inlen + n + 1); memcpy(c->in + c->inlen, b, n); c->inlen += n; return n;
}
void sim_pipe_close(SFd *s) {
    PEnd *p = s->obj;
    if (p && p->c && p->w) { tr_esc("PSTDIN", p->c->in ? p->c->in : "", p->c->inlen); }
}
FILE *__wrap_popen(const char *cmd, const char *type) {
    SimFault *f = sim_fault(C_POPEN);
    tr_esc("EXEC popen", cmd, strlen(cmd));
    if (f && f->kind == F_ERR) { errno = f->arg; return 0; }
    Child *c = start(cmd, *type == 'w');
    PEnd *p = calloc(1, sizeof *p); p->c = c; p->w = *type == 'w';
    int fd = sim_fd_alloc(p->w ? FD_PIPEW : FD_PIPER, p, 0); if (fd < 0) return 0;
    return sim_fdopen_stream(fd, type);
}
int __wrap_fileno(FILE*);
int __wrap_pclose(FILE *fp) {
    SimFault *f = sim_fault(C_PCLOSE);
    int fd = __wrap_fileno(fp); if (fd < 0 || !sim_fds[fd].obj) { fclose(fp); errno = ECHILD; return -1; }
    Child *c = ((PEnd*)sim_fds[fd].obj)->c; fclose(fp); c->reaped = 1;
    if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    tr("PCLOSE status=%d", c->status);
    return c->status;
}
int __wrap_system(const char *cmd) {
    SimFault *f = sim_fault(C_SYSTEM);
    tr_esc("EXEC system", cmd ? cmd : "(null)", cmd ? strlen(cmd) : 6);
    if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    char cw[1024]; fs_cwd(cw, sizeof cw); tr_esc("PROC", cw, strlen(cw));
    SimProc *p = find_proc(cmd); return p ? p->status : 127 << 8;
}
int __wrap_pipe(int fd[2]) {
    SimFault *f = sim_fault(C_PIPE); if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    PEnd *a = calloc(1, sizeof *a), *b = calloc(1, sizeof *b);
    fd[0] = sim_fd_alloc(FD_PIPER, a, 0); if (fd[0] < 0) return -1;
    fd[1] = sim_fd_alloc(FD_PIPEW, b, 0); if (fd[1] < 0) { sim_fds[fd[0]].kind = 0; return -1; }
    b->w = 1; return 0;
}
/* fork(): the child branch runs in place (as after vfork) until it execs; see simpre.h */
jmp_buf sim_forkbuf; static int fork_pid, in_child; static SFd saved[NFD]; static int child_in = -1, child_out = -1;
int sim_fork_begin(void) {
    SimFault *f = sim_fault(C_FORK); if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    memcpy(saved, sim_fds, sizeof saved); in_child = 1; child_in = child_out = -1; fork_pid = 0;
    return 0;
}
int sim_fork_pid(void) { return fork_pid; }
int __wrap_fork(void) { errno = ENOSYS; return -1; }
int __wrap_dup2(int a, int b) {
    if (in_child && b == 0) child_in = a; else if (in_child && b == 1) child_out = a;
    return b;
}
static void child_done(const char *cmd) {
    memcpy(sim_fds, saved, sizeof saved); in_child = 0;
    Child *c = start(cmd, child_in >= 0); fork_pid = c->pid;
    /* hook the pipe ends: the parent keeps the other end of the pipe that was dup2'ed */
    int used = child_in >= 0 ? child_in : child_out;
    if (used >= 0) for (int i = 3; i < NFD; i++) if ((sim_fds[i].kind == FD_PIPER || sim_fds[i].kind == FD_PIPEW) && sim_fds[i].obj && !((PEnd*)sim_fds[i].obj)->c) ((PEnd*)sim_fds[i].obj)->c = c;
    longjmp(sim_forkbuf, 1);
}
int __wrap_execvp(const char *file, char *const argv[]) {
    SimFault *f = sim_fault(C_EXEC);
    char b[4096]; int n = 0; b[0] = 0;
    for (int i = 0; argv[i]; i++) n += snprintf(b+n, sizeof b-n, "%s%s", i ? "\x1f" : "", argv[i]);
    tr_esc("EXEC execvp", b, strlen(b)); for (char *q = b; *q; q++) if (*q == 0x1f) *q = ' ';
    if (!in_child) { errno = ENOSYS; return -1; }
    if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    child_done(b); return -1;
}
void __wrap__exit(int code) {
    if (in_child) { memcpy(sim_fds, saved, sizeof saved); in_child = 0; Child *c = start("", child_in >= 0); c->status = code << 8; fork_pid = c->pid;
        for (int i = 3; i < NFD; i++) if ((sim_fds[i].kind == FD_PIPER || sim_fds[i].kind == FD_PIPEW) && sim_fds[i].obj && !((PEnd*)sim_fds[i].obj)->c) ((PEnd*)sim_fds[i].obj)->c = c;
        longjmp(sim_forkbuf, 1); }
    tr("_EXIT %d", code); sim_die(90);
}
void sim_exit_hook(int code);
void __wrap_exit(int code) { tr("EXIT %d", code); fflush(stdout); fflush(stderr); sim_exit_hook(code); fflush(0); fs_dump(); tr("END exit"); sim_die(0); }
pid_t __wrap_waitpid(pid_t pid, int *st, int opt) {
    SimFault *f = sim_fault(C_WAIT);
    if (f && f->kind == F_EINTR) { errno = EINTR; return -1; }
    if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    for (int i = 0; i < nkid; i++) if (kids[i].pid == pid && !kids[i].reaped) { kids[i].reaped = 1; if (st) *st = kids[i].status; return pid; }
    errno = ECHILD; return -1;
}
int sim_unreaped(void) { int n = 0; for (int i = 0; i < nkid; i++) if (!kids[i].reaped) n++; return n; }
/* identity and terminal */
pid_t __wrap_getpid(void) { return 4242; }
pid_t __wrap_getppid(void) { return 4241; }
uid_t __wrap_getuid(void) { return A->uid_root ? 0 : 1000; } uid_t __wrap_geteuid(void) { return A->uid_root ? 0 : 1000; }
gid_t __wrap_getgid(void) { return A->uid_root ? 0 : 1000; } gid_t __wrap_getegid(void) { return A->uid_root ? 0 : 1000; }
char *__wrap_cuserid(char *b) { if (b) { strcpy(b, "sim"); return b; } return "sim"; }
int __wrap_getlogin_r(char *b, size_t n) { snprintf(b, n, "sim"); return 0; }
int __wrap_getpwuid_r(uid_t u, struct passwd *p, char *b, size_t n, struct passwd **r) {
    memset(p, 0, sizeof *p); p->pw_name = "sim"; p->pw_dir = "/home/u"; p->pw_shell = "/bin/sh"; p->pw_passwd = p->pw_gecos = ""; *r = p; return 0;
}
int __wrap_isatty(int fd) { return 0; }
int __wrap_tcgetattr(int fd, struct termios *t) { errno = ENOTTY; return -1; }
int __wrap_tcsetattr(int fd, int o, const struct termios *t) { errno = ENOTTY; return -1; }
void *__wrap_dlopen(const char *p, int f) { sim_fault(C_DLOPEN); tr_esc("DLOPEN", p ? p : "(null)", p ? strlen(p) : 6); return 0; }
char *__wrap_dlerror(void) { return "dlopen: not in the simulation"; }
/* stdio of the process itself */
static ssize_t in_read(void *c, char *b, size_t n) {
    SimFault *f = sim_fault(C_STDIN); if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    long r = A->stdin_len - A->stdin_pos; if (r > (long)n) r = n;
    if (f && f->kind == F_SHORT && f->arg > 0 && r > f->arg) r = f->arg;
    memcpy(b, A->stdin_data + A->stdin_pos, r); A->stdin_pos += r; return r;
}
static ssize_t out_write(void *c, const char *b, size_t n) {
    SimFault *f = sim_fault(C_STDOUT); if (f && f->kind == F_ERR) { errno = f->arg; return 0; }
    tr_esc(c ? "STDERR" : "STDOUT", b, n); return n;
}
void sim_stdio_init(void) {
    cookie_io_functions_t i = { in_read, 0, 0, 0 }, o = { 0, out_write, 0, 0 };
    stdin = fopencookie((void*)0, "r", i); stdout = fopencookie((void*)0, "w", o); stderr = fopencookie((void*)1, "w", o);
    static char ob[1<<16]; if (A->out_full) setvbuf(stdout, ob, _IOFBF, A->out_full < (int)sizeof ob ? A->out_full : (int)sizeof ob); else setvbuf(stdout, 0, _IOLBF, 0);
    setvbuf(stderr, 0, _IOLBF, 0);
}
