/* In-memory filesystem behind the libc file calls (linked with -Wl,--wrap). Nothing here
 * ever touches the real filesystem. */
#include "simfs.h"
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <sys/statvfs.h>
#include <utime.h>
#include <sys/time.h>

SFd sim_fds[NFD];
static char cwd[4096] = "/w";
static int cur_umask = 022;
static inode *allino;

inode *ino_new(int mode) {
    inode *n = ar_alloc(sizeof *n); n->ino = ++A->inoseq + 100; n->mode = mode; n->nlink = 1;
    n->mtime_us = n->atime_us = n->ctime_us = sim_wall_us(); n->allnext = allino; allino = n; return n;
}
static void buf_reserve(char **d, long *cap, long need, long keep) {
    if (need <= *cap) return;
    long nc = *cap ? *cap : 64; while (nc < need) nc *= 2;
    char *p = ar_alloc(nc); if (keep) memcpy(p, *d, keep);
    if (*d) ar_free(*d, *cap);
    *d = p; *cap = nc;
}
long ino_read(inode *n, long off, char *b, long len) {
    if (off >= n->size) return 0;
    if (off + len > n->size) len = n->size - off;
    memcpy(b, n->data + off, len); return len;
}
static void log_write(inode *n, long off, const char *b, long len, int trunc) {
    wlog *w = ar_alloc(sizeof *w); w->off = off; w->len = len; w->trunc = trunc;
    if (len > 0 && b) { w->data = ar_alloc(len); memcpy(w->data, b, len); }
    if (n->wltail) n->wltail->next = w; else n->wl = w;
    n->wltail = w;
}
int ino_trunc(inode *n, long size) {
    if (size > n->size) {
        if (A->disk_used + (size - n->size) > A->disk_cap) return -1;
        buf_reserve(&n->data, &n->cap, size, n->size); memset(n->data + n->size, 0, size - n->size);
    }
    A->disk_used += size - n->size; n->size = size; n->mtime_us = sim_wall_us();
    if (n->track) log_write(n, size, 0, 0, 1);
    return 0;
}
long ino_write(inode *n, long off, const char *b, long len) {
    long end = off + len;
    if (end > n->size) {
        long grow = end - n->size;
        if (A->disk_used + grow > A->disk_cap) {
            long room = A->disk_cap - A->disk_used; end = n->size + room; if (end <= off) return -1;
            len = end - off; grow = room; if (len <= 0) return -1;
        }
        buf_reserve(&n->data, &n->cap, end, n->size);
        if (off > n->size) memset(n->data + n->size, 0, off - n->size);
        A->disk_used += grow; n->size = end;
    }
    memcpy(n->data + off, b, len); n->mtime_us = sim_wall_us();
    if (n->track) log_write(n, off, b, len, 0);
    return len;
}
static inode *dir_find(inode *d, const char *nm) {
    for (int i = 0; i < d->nent; i++) if (!strcmp(d->ents[i].name, nm)) return d->ents[i].ino;
    return 0;
}
static void dir_add(inode *d, const char *nm, inode *n) {
    if (d->nent == d->cent) {
        int nc = d->cent ? d->cent*2 : 8; dent *e = ar_alloc(nc*sizeof *e);
        if (d->nent) memcpy(e, d->ents, d->nent*sizeof *e);
        d->ents = e; d->cent = nc;
    }
    char *s = ar_alloc(strlen(nm)+1); strcpy(s, nm);
    d->ents[d->nent].name = s; d->ents[d->nent++].ino = n;
    if (S_ISDIR(n->mode)) { n->parent = d; snprintf(n->name, sizeof n->name, "%s", nm); }
    d->mtime_us = sim_wall_us();
}
static void dir_del(inode *d, const char *nm) {
    for (int i = 0; i < d->nent; i++) if (!strcmp(d->ents[i].name, nm)) {
        memmove(d->ents+i, d->ents+i+1, (d->nent-i-1)*sizeof(dent)); d->nent--; d->mtime_us = sim_wall_us(); return;
    }
}
static int perm(inode *n, int want) { /* want: r=4 w=2 x=1 */
    if (A->uid_root) return 1;
    return ((n->mode >> 6) & want) == want;
}
static void canon_of(inode *d, char *out, int n) {
    if (!d->parent || d == A->root) { snprintf(out, n, "/"); return; }
    canon_of(d->parent, out, n); int l = strlen(out);
    snprintf(out+l, n-l, "%s%s", l > 1 ? "/" : "", d->name);
}
static int walk_rec(inode *base, const char *path, int follow, walk_t *w, int depth) {
    inode *d = base; const char *p = path;
    if (depth > 20) return ELOOP;
    if (*p == '/') { d = A->root; while (*p == '/') p++; }
    w->parent = d; w->ino = d; w->name[0] = 0; w->trail = 0;
    while (*p) {
        char nm[256]; int l = 0; 
        while (*p && *p != '/') { if (l < 255) nm[l++] = *p; else return ENAMETOOLONG; p++; }
        nm[l] = 0; int slash = 0; while (*p == '/') { p++; slash = 1; }
        if (!S_ISDIR(d->mode)) return ENOTDIR;
        if (!perm(d, 1)) return EACCES;
        inode *n;
        if (!strcmp(nm, ".")) { n = d; strcpy(w->name, "."); }
        else if (!strcmp(nm, "..")) { n = d->parent ? d->parent : d; strcpy(w->name, ".."); }
        else { n = dir_find(d, nm); strcpy(w->name, nm); }
        w->parent = d; w->ino = n; w->trail = slash;
        if (!n) return *p ? ENOENT : 0;
        if (S_ISLNK(n->mode) && (*p || (slash && follow >= 0) || follow > 0)) {
            char t[4096]; snprintf(t, sizeof t, "%.*s", (int)n->size, n->data);
            int e = walk_rec(d, t, 1, w, depth+1); if (e) return e;
            w->trail |= slash;
            if (!w->ino) return *p ? ENOENT : 0;
            n = w->ino;
        }
        if (*p) { if (!S_ISDIR(n->mode)) return ENOTDIR; d = n; }
    }
    return 0;
}
int fs_walk(const char *path, int follow, walk_t *w) {
    w->canon[0] = 0; w->ino = w->parent = 0; w->name[0] = 0;
    if (!path || !*path) return ENOENT;
    if (strlen(path) >= 4096) return ENAMETOOLONG;
    inode *base = A->root;
    if (*path != '/') { walk_t c; int e = walk_rec(A->root, cwd, 1, &c, 0); if (e || !c.ino) return ENOENT; base = c.ino; }
    int e = walk_rec(base, path, follow, w, 0);
    if (e) return e;
    if (w->ino && S_ISDIR(w->ino->mode)) canon_of(w->ino, w->canon, sizeof w->canon);
    else {
        canon_of(w->parent, w->canon, sizeof w->canon); int l = strlen(w->canon);
        snprintf(w->canon+l, sizeof w->canon-l, "%s%s", l > 1 ? "/" : "", w->name);
    }
    if (w->ino && w->trail && !S_ISDIR(w->ino->mode)) return ENOTDIR;
    return 0;
}
int fs_create(walk_t *w, int mode) {
    if (!strcmp(w->name, ".") || !strcmp(w->name, "..") || !w->name[0]) return EEXIST;
    if (!perm(w->parent, 3)) return EACCES;
    if (A->disk_used + 64 > A->disk_cap) return ENOSPC;
    inode *n = ino_new(mode); dir_add(w->parent, w->name, n); w->ino = n;
    return 0;
}
void fs_unlink_at(walk_t *w) {
    inode *n = w->ino; dir_del(w->parent, w->name);
    n->nlink--; n->ctime_us = sim_wall_us();
    if (n->nlink <= 0 && !n->opens) A->disk_used -= n->size;
}
struct inode *fs_lookup(const char *path, int follow, int *err) { walk_t w; int e = fs_walk(path, follow, &w); if (err) *err = e; return e ? 0 : w.ino; }
int fs_mkdirs(const char *path) {
    char b[4096]; snprintf(b, sizeof b, "%s", path);
    for (char *p = b+1; ; p++) if (*p == '/' || !*p) {
        char c = *p; *p = 0; walk_t w; int e = fs_walk(b, 1, &w); if (e) return e;
        if (!w.ino) { if ((e = fs_create(&w, S_IFDIR|0755))) return e; w.ino->nlink = 2; }
        *p = c; if (!c) break;
    }
    return 0;
}
int fs_put(const char *path, int mode, const char *data, long len) {
    char b[4096]; snprintf(b, sizeof b, "%s", path); char *s = strrchr(b, '/'); if (s && s != b) { *s = 0; fs_mkdirs(b); }
    walk_t w; int e = fs_walk(path, 0, &w); if (e) return e;
    if (!w.ino && (e = fs_create(&w, S_IFREG|mode))) return e;
    ino_trunc(w.ino, 0); if (len) ino_write(w.ino, 0, data, len); return 0;
}
int fs_symlink(const char *tgt, const char *path) {
    walk_t w; int e = fs_walk(path, 0, &w); if (e) return e; if (w.ino) return EEXIST;
    if ((e = fs_create(&w, S_IFLNK|0777))) return e;
    ino_write(w.ino, 0, tgt, strlen(tgt)); return 0;
}
void fs_init(void) {
    allino = 0; A->root = ino_new(S_IFDIR|0755); A->root->parent = 0; A->root->nlink = 2;
    fs_mkdirs("/w"); fs_mkdirs("/tmp"); fs_mkdirs("/etc"); fs_mkdirs("/dev"); fs_mkdirs("/home/u");
}
static void dump_rec(inode *d, char *path) {
    int l = strlen(path);
    for (int i = 0; i < d->nent; i++) {
        inode *n = d->ents[i].ino; snprintf(path+l, 4096-l, "%s%s", l > 1 ? "/" : "", d->ents[i].name);
        char h[4600];
        const char *ty = S_ISDIR(n->mode) ? "d" : S_ISLNK(n->mode) ? "l" : S_ISREG(n->mode) ? "f" : "s";
        snprintf(h, sizeof h, "FS %s %o %ld %d", ty, n->mode & 07777, S_ISDIR(n->mode) ? 0 : n->size, n->nlink);
        char pb[8200]; int k = 0;
        static const char hx[] = "0123456789abcdef";
        for (char *q = path; *q && k < 8000; q++) if (*q <= 32 || *q > 126 || *q == '\\') { pb[k++]='\\';pb[k++]='x';pb[k++]=hx[(unsigned char)*q>>4];pb[k++]=hx[*q&15]; } else pb[k++] = *q;
        pb[k] = 0; strncat(h, " ", sizeof h-strlen(h)-1); strncat(h, pb, sizeof h-strlen(h)-1);
        if (S_ISDIR(n->mode)) { tr("%s", h); dump_rec(n, path); }
        else if (n->size <= 65536) tr_esc(h, n->data, n->size);
        else { uint64_t f = 1469598103934665603ULL; for (long j = 0; j < n->size; j++) f = (f ^ (unsigned char)n->data[j])*1099511628211ULL; tr("%s #%llx", h, (unsigned long long)f); }
        path[l] = 0;
    }
}
void fs_dump(void) {
    char *p = A->dump[0] ? A->dump : "/w"; char path[4200]; walk_t w;
    char list[256]; snprintf(list, sizeof list, "%s", p);
    for (char *s = strtok(list, ","); s; s = strtok(0, ",")) {
        if (fs_walk(s, 1, &w) || !w.ino) continue;
        snprintf(path, sizeof path, "%s", strcmp(s, "/") ? s : "/"); if (!strcmp(path, "/")) strcpy(path, "/");
        dump_rec(w.ino, path);
    }
}
void fs_cwd(char *b, int n) { snprintf(b, n, "%s", cwd); }
void fs_start_phase(void) { memset(sim_fds, 0, sizeof sim_fds); strcpy(cwd, A->cwd0[0] ? A->cwd0 : "/w"); }

#define LOG(...) do { if (A->log_sys & 1) tr("SYS " __VA_ARGS__); } while (0)
#define ENTER(cls) SimFault *f_ = sim_fault(cls); if (A->io_yield) sim_yield(1); if (f_ && f_->kind == F_ERR) { errno = f_->arg; LOG("%s FAULT %ld", sim_class_names[cls], f_->arg); return -1; }
#define FAIL(e) do { errno = (e); return -1; } while (0)

int sim_fd_alloc(int kind, void *obj, int flags) {
    int used = 0;
    for (int i = 3; i < NFD; i++) { if (sim_fds[i].kind) used++; }
    if (A->fdlimit && used >= A->fdlimit) { errno = EMFILE; return -1; }
    for (int i = 3; i < NFD; i++) if (!sim_fds[i].kind) {
        memset(&sim_fds[i], 0, sizeof(SFd)); sim_fds[i].kind = kind; sim_fds[i].obj = obj; sim_fds[i].flags = flags; return i;
    }
    errno = EMFILE; return -1;
}
int sim_open(const char *path, int fl, int mode) {
    ENTER(C_OPEN);
    walk_t w; int acc = fl & O_ACCMODE, e;
    if ((fl & O_CREAT) && (fl & O_EXCL)) e = fs_walk(path, 0, &w); else e = fs_walk(path, 1, &w);
    if (e) { LOG("open %s fl=%x err=%d", path, fl, e); FAIL(e); }
    LOG("open %s fl=%x canon=%s %s", path, fl, w.canon, w.ino ? "exists" : "absent");
    if (!w.ino) {
        if (!(fl & O_CREAT)) FAIL(ENOENT);
        if (w.trail) FAIL(EISDIR);
        if ((e = fs_create(&w, S_IFREG | (mode & ~cur_umask)))) FAIL(e);
    } else {
        if ((fl & O_CREAT) && (fl & O_EXCL)) FAIL(EEXIST);
        if (S_ISDIR(w.ino->mode) && acc != O_RDONLY) FAIL(EISDIR);
        if (S_ISCHR(w.ino->mode) || S_ISBLK(w.ino->mode)) FAIL(ENXIO);
        if (acc != O_WRONLY && !perm(w.ino, 4)) FAIL(EACCES);
        if (acc != O_RDONLY && !perm(w.ino, 2)) FAIL(EACCES);
    }
    int fd = sim_fd_alloc(FD_FILE, 0, fl); if (fd < 0) return -1;
    if ((fl & O_TRUNC) && acc != O_RDONLY && S_ISREG(w.ino->mode)) ino_trunc(w.ino, 0);
    sim_fds[fd].ino = w.ino; w.ino->opens++; sim_fds[fd].append = !!(fl & O_APPEND);
    return fd;
}
long sim_pipe_read(SFd *s, char *b, long n); long sim_pipe_write(SFd *s, const char *b, long n); void sim_pipe_close(SFd *s);
long sim_sock_read(int fd, char *b, long n); long sim_sock_write(int fd, const char *b, long n); void sim_sock_close(int fd);
long sim_read(int fd, char *b, long n) {
    if (fd < 0 || fd >= NFD || !sim_fds[fd].kind) FAIL(EBADF);
    SFd *s = &sim_fds[fd];
    if (s->kind == FD_PIPER) return sim_pipe_read(s, b, n);
    if (s->kind == FD_SOCK) return sim_sock_read(fd, b, n);
    SimFault *f = sim_fault(C_READ);
    if (A->io_yield) sim_yield(1);
    if (s->kind != FD_FILE || (s->flags & O_ACCMODE) == O_WRONLY) FAIL(EBADF);
    if (f && f->kind == F_ERR) FAIL(f->arg);
    if (S_ISDIR(s->ino->mode)) FAIL(EISDIR);
    if (f && f->kind == F_ZERO) return 0;
    if (f && f->kind == F_SHORT && n > f->arg && f->arg > 0) n = f->arg;
    long r = ino_read(s->ino, s->off, b, n); s->off += r; s->ino->atime_us = sim_wall_us();
    if (f && f->kind == F_FLIP && r > 0) b[f->arg % r] ^= 1 << (f->arg % 7);
    return r;
}
long sim_write(int fd, const char *b, long n) {
    if (fd < 0 || fd >= NFD || !sim_fds[fd].kind) FAIL(EBADF);
    SFd *s = &sim_fds[fd];
    if (s->kind == FD_PIPEW) return sim_pipe_write(s, b, n);
    if (s->kind == FD_SOCK) return sim_sock_write(fd, b, n);
    SimFault *f = sim_fault(C_WRITE);
    if (A->io_yield) sim_yield(1);
    if (s->kind != FD_FILE || (s->flags & O_ACCMODE) == O_RDONLY) FAIL(EBADF);
    if (f && f->kind == F_ERR) FAIL(f->arg);
    if (f && f->kind == F_SHORT && n > f->arg && f->arg > 0) n = f->arg;
    if (f && f->kind == F_FULL) { if (f->arg > 0 && n > f->arg) n = f->arg; else FAIL(ENOSPC); }
    if (n == 0) return 0;
    if (s->append) s->off = s->ino->size;
    if (s->ino->mode == (S_IFCHR|0666)) return n;
    long r = ino_write(s->ino, s->off, b, n); if (r < 0) FAIL(ENOSPC);
    s->off += r;
    if (f && f->kind == F_FULL) { A->fault[f - A->fault].nth++; A->fault[f - A->fault].arg = 0; } /* the disk stays full for the next attempt */
    return r;
}
int sim_close(int fd) {
    if (fd < 0 || fd >= NFD || !sim_fds[fd].kind) FAIL(EBADF);
    SFd *s = &sim_fds[fd]; int kind = s->kind;
    SimFault *f = kind == FD_FILE ? sim_fault(C_CLOSE) : 0;
    if (kind == FD_FILE) { s->ino->opens--; if (s->ino->nlink <= 0 && !s->ino->opens) A->disk_used -= s->ino->size; }
    else if (kind == FD_SOCK) sim_sock_close(fd);
    else if (kind == FD_PIPER || kind == FD_PIPEW) sim_pipe_close(s);
    s->kind = FD_FREE;
    if (f && f->kind == F_ERR) FAIL(f->arg);
    return 0;
}
long sim_seek(int fd, long off, int wh) {
    ENTER(C_SEEK);
    SFd *s = &sim_fds[fd]; if (s->kind != FD_FILE) FAIL(ESPIPE);
    long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? s->off : s->ino->size;
    if (b + off < 0) FAIL(EINVAL);
    return s->off = b + off;
}
/* ---------- stdio streams over sim fds ---------- */
typedef struct fmap { FILE *fp; int fd; char *buf; struct fmap *next; } fmap;
static fmap *fmaps;
static ssize_t ck_read(void *c, char *b, size_t n) {
    return sim_read((int)(intptr_t)c, b, n);
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t o = 0;
    while (o < n) { long r = sim_write((int)(intptr_t)c, b+o, n-o); if (r <= 0) { return o ? (ssize_t)o : 0; } o += r; }
    return o;
}
static int ck_seek(void *c, off64_t *o, int wh) { long r = sim_seek((int)(intptr_t)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) {
    int fd = (int)(intptr_t)c;
    for (fmap **p = &fmaps; *p; p = &(*p)->next) if ((*p)->fd == fd) { fmap *d = *p; *p = d->next; free(d); break; }
    return sim_close(fd);
}
FILE *sim_fdopen_stream(int fd, const char *mode) {
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    if (sim_fds[fd].kind != FD_FILE) io.seek = 0;
    FILE *fp = fopencookie((void*)(intptr_t)fd, mode, io); if (!fp) return 0;
    fmap *m = calloc(1, sizeof *m); m->fp = fp; m->fd = fd; m->next = fmaps; fmaps = m;
    if (A->stdio_buf > 0) { static char *pool[NFD]; if (!pool[fd]) pool[fd] = malloc(65536); setvbuf(fp, pool[fd], _IOFBF, A->stdio_buf); }
    return fp;
}
FILE *__wrap_fopen(const char *path, const char *mode) {
    int fl; const char *m = mode; int plus = strchr(mode, '+') != 0;
    switch (*m) { case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
        case 'w': fl = (plus ? O_RDWR : O_WRONLY)|O_CREAT|O_TRUNC; break;
        case 'a': fl = (plus ? O_RDWR : O_WRONLY)|O_CREAT|O_APPEND; break;
        default: errno = EINVAL; return 0; }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = sim_open(path, fl, 0666); if (fd < 0) return 0;
    return sim_fdopen_stream(fd, mode);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *mode) {
    if (fd < 3 || fd >= NFD || !sim_fds[fd].kind) { errno = EBADF; return 0; }
    if (*mode == 'a') sim_fds[fd].append = 1;
    return sim_fdopen_stream(fd, mode);
}
FILE *__wrap_freopen(const char *path, const char *mode, FILE *fp) {
    tr("FREOPEN %s", path ? path : "-");
    if (fp) fclose(fp);
    return path ? __wrap_fopen(path, mode) : 0;
}
int __wrap_fileno(FILE *fp) {
    for (fmap *m = fmaps; m; m = m->next) if (m->fp == fp) return m->fd;
    if (fp == stdin) return 0; if (fp == stdout) return 1; if (fp == stderr) return 2;
    errno = EBADF; return -1;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return sim_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (fd == 1 || fd == 2) { tr_esc(fd == 1 ? "STDOUT" : "STDERR", b, n); return n; } return sim_write(fd, b, n); }
int __wrap_open(const char *p, int fl, ...) { va_list va; va_start(va, fl); int m = va_arg(va, int); va_end(va); return sim_open(p, fl, m); }
int __wrap_creat(const char *p, int m) { return sim_open(p, O_CREAT|O_WRONLY|O_TRUNC, m); }
int __wrap_close(int fd) { return sim_close(fd); }
off_t __wrap_lseek(int fd, off_t o, int wh) { return sim_seek(fd, o, wh); }
int __wrap_fsync(int fd) { return 0; }
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list va; va_start(va, cmd); long a = va_arg(va, long); va_end(va);
    if (fd < 0 || fd >= NFD || !sim_fds[fd].kind) FAIL(EBADF);
    if (cmd == F_GETFL) return sim_fds[fd].nonblock ? O_NONBLOCK : 0;
    if (cmd == F_SETFL) { sim_fds[fd].nonblock = !!(a & O_NONBLOCK); return 0; }
    if (cmd == F_SETFD) sim_fds[fd].cloexec = a & 1;
    return 0;
}
int __wrap_ftruncate(int fd, off_t len) {
    ENTER(C_TRUNC);
    if (fd < 0 || fd >= NFD || sim_fds[fd].kind != FD_FILE) FAIL(EBADF);
    if ((sim_fds[fd].flags & O_ACCMODE) == O_RDONLY || len < 0 || !S_ISREG(sim_fds[fd].ino->mode)) FAIL(EINVAL);
    if (ino_trunc(sim_fds[fd].ino, len)) FAIL(ENOSPC);
    return 0;
}
int __wrap_ftruncate64(int fd, off_t len) { return __wrap_ftruncate(fd, len); }
int __wrap_truncate(const char *p, off_t len) {
    ENTER(C_TRUNC);
    walk_t w; int e = fs_walk(p, 1, &w); if (e) FAIL(e); if (!w.ino) FAIL(ENOENT);
    LOG("truncate %s canon=%s", p, w.canon);
    if (S_ISDIR(w.ino->mode)) FAIL(EISDIR);
    if (!perm(w.ino, 2)) FAIL(EACCES);
    if (len < 0) FAIL(EINVAL);
    if (ino_trunc(w.ino, len)) FAIL(ENOSPC);
    return 0;
}
/* ---------- metadata ---------- */
static void fill(inode *n, struct stat *sb) {
    memset(sb, 0, sizeof *sb); sb->st_dev = 77; sb->st_ino = n->ino; sb->st_mode = n->mode; sb->st_nlink = n->nlink; sb->st_rdev = n->rdev; sb->st_uid = sb->st_gid = A->uid_root ? 0 : 1000;
    sb->st_size = S_ISDIR(n->mode) ? 4096 : n->size; sb->st_blksize = 4096; sb->st_blocks = (n->size+511)/512;
    sb->st_mtim.tv_sec = n->mtime_us/1000000; sb->st_mtim.tv_nsec = (n->mtime_us%1000000)*1000;
    sb->st_atim.tv_sec = n->atime_us/1000000; sb->st_ctim.tv_sec = n->ctime_us/1000000;
}
static int do_stat(const char *p, struct stat *sb, int follow) {
    ENTER(follow ? C_STAT : C_LSTAT);
    walk_t w; int e = fs_walk(p, follow, &w);
    LOG("%s %s canon=%s", follow ? "stat" : "lstat", p ? p : "(null)", e ? "?" : w.canon);
    if (e) FAIL(e); if (!w.ino) FAIL(ENOENT);
    fill(w.ino, sb); return 0;
}
int __wrap_stat(const char *p, struct stat *sb) { return do_stat(p, sb, 1); }
int __wrap_lstat(const char *p, struct stat *sb) { return do_stat(p, sb, 0); }
int __wrap_stat64(const char *p, struct stat *sb) { return do_stat(p, sb, 1); }
int __wrap_lstat64(const char *p, struct stat *sb) { return do_stat(p, sb, 0); }
int __wrap_fstat(int fd, struct stat *sb) { ENTER(C_STAT); if (fd < 0 || fd >= NFD || sim_fds[fd].kind != FD_FILE) { memset(sb, 0, sizeof *sb); if (fd >= 0 && fd < 3) { sb->st_mode = S_IFIFO|0600; return 0; } FAIL(EBADF); } fill(sim_fds[fd].ino, sb); return 0; }
int __wrap_fstat64(int fd, struct stat *sb) { return __wrap_fstat(fd, sb); }
int __wrap_statvfs(const char *p, struct statvfs *v) { ENTER(C_STAT); memset(v, 0, sizeof *v); v->f_bsize = 4096; return 0; }
int __wrap_access(const char *p, int mode) {
    ENTER(C_ACCESS);
    walk_t w; int e = fs_walk(p, 1, &w);
    LOG("access %s canon=%s", p ? p : "(null)", e ? "?" : w.canon);
    if (e) FAIL(e); if (!w.ino) FAIL(ENOENT);
    if (mode & X_OK && A->uid_root && !S_ISDIR(w.ino->mode) && !(w.ino->mode & 0111)) FAIL(EACCES);
    if (!perm(w.ino, mode & 7)) FAIL(EACCES);
    return 0;
}
#define NEED(p,fo) walk_t w; int e = fs_walk(p, fo, &w); LOG("%s %s canon=%s", __func__+7, p ? p : "(null)", e ? "?" : w.canon); if (e) FAIL(e); if (!w.ino) FAIL(ENOENT)
int __wrap_chmod(const char *p, mode_t m) { ENTER(C_CHMOD); NEED(p,1); w.ino->mode = (w.ino->mode & S_IFMT) | (m & 07777); return 0; }
int __wrap_fchmod(int fd, mode_t m) { ENTER(C_CHMOD); if (fd < 0 || fd >= NFD || sim_fds[fd].kind != FD_FILE) FAIL(EBADF); inode *n = sim_fds[fd].ino; n->mode = (n->mode & S_IFMT) | (m & 07777); return 0; }
int __wrap_chown(const char *p, uid_t u, gid_t g) { ENTER(C_CHMOD); NEED(p,1); return 0; }
int __wrap_utime(const char *p, const struct utimbuf *t) { ENTER(C_UTIME); NEED(p,1); w.ino->mtime_us = t ? (uint64_t)t->modtime*1000000 : sim_wall_us(); return 0; }
int __wrap_utimes(const char *p, const struct timeval *t) { ENTER(C_UTIME); NEED(p,1); w.ino->mtime_us = t ? (uint64_t)t[1].tv_sec*1000000+t[1].tv_usec : sim_wall_us(); return 0; }
mode_t __wrap_umask(mode_t m) { mode_t o = cur_umask; cur_umask = m & 0777; return o; }
int __wrap_mkdir(const char *p, mode_t m) {
    ENTER(C_MKDIR);
    char b[4096]; snprintf(b, sizeof b, "%s", p); int l = strlen(b); while (l > 1 && b[l-1] == '/') b[--l] = 0;
    walk_t w; int e = fs_walk(b, 0, &w); LOG("mkdir %s canon=%s", p, e ? "?" : w.canon);
    if (e) FAIL(e); if (w.ino) FAIL(EEXIST);
    if ((e = fs_create(&w, S_IFDIR | (m & ~cur_umask & 07777)))) FAIL(e);
    w.ino->nlink = 2; w.parent->nlink++; return 0;
}
int __wrap_mknod(const char *p, mode_t m, dev_t d) {
    ENTER(C_MKNOD);
    walk_t w; int e = fs_walk(p, -1, &w); LOG("mknod %s canon=%s", p, e ? "?" : w.canon); if (e) FAIL(e); if (w.ino) FAIL(EEXIST); if (w.trail) FAIL(ENOENT);
    if (!(m & S_IFMT)) m |= S_IFREG;
    if ((e = fs_create(&w, m & ~cur_umask))) FAIL(e); w.ino->rdev = S_ISCHR(m) || S_ISBLK(m) ? d : 0; return 0;
}
int __wrap_mkfifo(const char *p, mode_t m) { return __wrap_mknod(p, S_IFIFO|m, 0); }
int __wrap_rmdir(const char *p) {
    ENTER(C_RMDIR); NEED(p,-1);
    if (!S_ISDIR(w.ino->mode)) FAIL(ENOTDIR);
    if (!strcmp(w.name, ".")) FAIL(EINVAL);
    if (!strcmp(w.name, "..") || w.ino->nent) FAIL(ENOTEMPTY);
    if (w.ino == A->root) FAIL(EBUSY);
    if (!perm(w.parent, 3)) FAIL(EACCES);
    dir_del(w.parent, w.name); w.parent->nlink--; w.ino->nlink = 0; return 0;
}
int __wrap_unlink(const char *p) {
    ENTER(C_UNLINK); NEED(p,-1);
    if (S_ISDIR(w.ino->mode)) FAIL(EISDIR);
    if (!perm(w.parent, 3)) FAIL(EACCES);
    fs_unlink_at(&w); return 0;
}
int __wrap_remove(const char *p) {
    walk_t w; if (!fs_walk(p, -1, &w) && w.ino && S_ISDIR(w.ino->mode)) return __wrap_rmdir(p);
    return __wrap_unlink(p);
}
static int is_anc(inode *a, inode *d) { for (; d; d = d->parent) if (d == a) return 1; return 0; }
int __wrap_rename(const char *p, const char *q) {
    ENTER(C_RENAME); NEED(p,-1);
    walk_t t; int e2 = fs_walk(q, -1, &t); LOG("rename_to %s canon=%s", q, e2 ? "?" : t.canon); if (e2) FAIL(e2);
    if (t.ino == w.ino) return 0;
    if (!S_ISDIR(w.ino->mode) && t.trail) FAIL(ENOTDIR);
    if (S_ISDIR(w.ino->mode) && is_anc(w.ino, t.parent)) FAIL(EINVAL);
    if (!perm(w.parent, 3) || !perm(t.parent, 3)) FAIL(EACCES);
    if (t.ino) {
        if (S_ISDIR(t.ino->mode)) { if (!S_ISDIR(w.ino->mode)) FAIL(EISDIR); if (t.ino->nent) FAIL(ENOTEMPTY); dir_del(t.parent, t.name); t.parent->nlink--; }
        else { if (S_ISDIR(w.ino->mode)) FAIL(ENOTDIR); fs_unlink_at(&t); }
    }
    inode *n = w.ino; dir_del(w.parent, w.name); 
    if (S_ISDIR(n->mode)) { w.parent->nlink--; t.parent->nlink++; }
    dir_add(t.parent, t.name, n); return 0;
}
int __wrap_link(const char *p, const char *q) {
    ENTER(C_LINK); NEED(p,0); if (S_ISDIR(w.ino->mode)) FAIL(EPERM);
    walk_t t; if ((e = fs_walk(q, -1, &t))) FAIL(e); LOG("link_to %s canon=%s", q, t.canon); if (t.ino) FAIL(EEXIST); if (t.trail) FAIL(ENOENT);
    if (!perm(t.parent, 3)) FAIL(EACCES);
    dir_add(t.parent, t.name, w.ino); w.ino->nlink++; return 0;
}
int __wrap_symlink(const char *tg, const char *q) {
    ENTER(C_SYMLINK); walk_t w; int e = fs_walk(q, -1, &w); LOG("symlink %s canon=%s", q, e ? "?" : w.canon); if (e) FAIL(e); if (w.ino) FAIL(EEXIST); if (w.trail) FAIL(ENOENT);
    if ((e = fs_create(&w, S_IFLNK|0777))) FAIL(e);
    ino_write(w.ino, 0, tg, strlen(tg)); return 0;
}
ssize_t __wrap_readlink(const char *p, char *b, size_t n) {
    ENTER(C_READLINK);
    if (!strcmp(p, "/proc/self/exe")) { const char *x = "/w/jsish"; size_t l = strlen(x); if (l > n) l = n; memcpy(b, x, l); return l; }
    NEED(p,0); if (!S_ISLNK(w.ino->mode)) FAIL(EINVAL);
    size_t l = w.ino->size; if (l > n) l = n; memcpy(b, w.ino->data, l); return l;
}
char *__wrap_realpath(const char *p, char *out) {
    SimFault *f = sim_fault(C_REALPATH); if (f && f->kind == F_ERR) { errno = f->arg; return 0; }
    walk_t w; int e = fs_walk(p, 1, &w); if (!e && !w.ino) e = ENOENT;
    LOG("realpath %s canon=%s", p ? p : "(null)", e ? "?" : w.canon);
    if (e) { errno = e; return 0; }
    if (!out) out = malloc(4096);
    strcpy(out, w.canon); return out;
}
char *__wrap_getcwd(char *b, size_t n) {
    SimFault *f = sim_fault(C_GETCWD); if (f && f->kind == F_ERR) { errno = f->arg; return 0; }
    walk_t w; if (fs_walk(cwd, 1, &w) || !w.ino) { errno = ENOENT; return 0; }
    if (!b) { b = malloc(4096); n = 4096; }
    if (strlen(cwd)+1 > n) { errno = ERANGE; return 0; }
    strcpy(b, cwd); return b;
}
int __wrap_chdir(const char *p) { ENTER(C_CHDIR); NEED(p,1); if (!S_ISDIR(w.ino->mode)) FAIL(ENOTDIR); if (!perm(w.ino,1)) FAIL(EACCES); strcpy(cwd, w.canon); return 0; }
int __wrap_mkstemp(char *t) {
    ENTER(C_MKSTEMP);
    int l = strlen(t); if (l < 6 || strcmp(t+l-6, "XXXXXX")) FAIL(EINVAL);
    static const char cs[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    for (int k = 0; k < 100; k++) {
        for (int i = 0; i < 6; i++) t[l-6+i] = cs[sim_rnd(36)];
        walk_t w; int e = fs_walk(t, 0, &w); if (e) { LOG("mkstemp %s err=%d", t, e); FAIL(e); }
        if (w.ino) continue;
        LOG("mkstemp %s canon=%s", t, w.canon);
        if ((e = fs_create(&w, S_IFREG|0600))) FAIL(e);
        int fd = sim_fd_alloc(FD_FILE, 0, O_RDWR); if (fd < 0) return -1;
        sim_fds[fd].ino = w.ino; w.ino->opens++; return fd;
    }
    FAIL(EEXIST);
}
int __wrap_mkstemp64(char *t) { return __wrap_mkstemp(t); }
/* ---------- directories ---------- */
typedef struct { inode *d; int pos, n; struct dirent de; char (*names)[256]; unsigned char *types; uint64_t *inos; int magic; } SDir;
DIR *__wrap_opendir(const char *p) {
    SimFault *f = sim_fault(C_OPENDIR); if (f && f->kind == F_ERR) { errno = f->arg; return 0; }
    walk_t w; int e = fs_walk(p, 1, &w); LOG("opendir %s canon=%s", p, e ? "?" : w.canon); if (!e && !w.ino) e = ENOENT; if (!e && !S_ISDIR(w.ino->mode)) e = ENOTDIR;
    if (!e && !perm(w.ino, 4)) e = EACCES;
    if (e) { errno = e; return 0; }
    SDir *d = calloc(1, sizeof *d); d->d = w.ino; d->n = w.ino->nent + 2; d->magic = 0x51d1;
    d->names = calloc(d->n, 256); d->types = calloc(d->n, 1); d->inos = calloc(d->n, 8);
    strcpy(d->names[0], "."); strcpy(d->names[1], ".."); d->types[0] = d->types[1] = DT_DIR; d->inos[0] = w.ino->ino; d->inos[1] = 2;
    for (int i = 0; i < w.ino->nent; i++) {
        inode *n = w.ino->ents[i].ino; snprintf(d->names[i+2], 256, "%s", w.ino->ents[i].name);
        d->types[i+2] = S_ISDIR(n->mode) ? DT_DIR : S_ISLNK(n->mode) ? DT_LNK : S_ISREG(n->mode) ? DT_REG : S_ISFIFO(n->mode) ? DT_FIFO : S_ISCHR(n->mode) ? DT_CHR : S_ISBLK(n->mode) ? DT_BLK : DT_UNKNOWN; d->inos[i+2] = n->ino;
    }
    return (DIR*)d;
}
struct dirent *__wrap_readdir(DIR *dp) {
    SDir *d = (SDir*)dp;
    SimFault *f = sim_fault(C_READDIR); if (f && f->kind == F_ERR) { errno = f->arg; return 0; }
    if (d->pos >= d->n) return 0;
    int i = d->pos++; memset(&d->de, 0, sizeof d->de); strcpy(d->de.d_name, d->names[i]); d->de.d_type = d->types[i]; d->de.d_ino = d->inos[i];
    if (f && f->kind == F_ZERO) d->de.d_type = DT_UNKNOWN; /* file systems that do not fill d_type */
    return &d->de;
}
struct dirent *__wrap_readdir64(DIR *dp) { return __wrap_readdir(dp); }
int __wrap_closedir(DIR *dp) { SDir *d = (SDir*)dp; free(d->names); free(d->types); free(d->inos); free(d); return 0; }
int __wrap_scandir(const char *p, struct dirent ***out, int (*filt)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) {
    DIR *d = __wrap_opendir(p); if (!d) return -1;
    struct dirent **l = 0, *e; int n = 0, cap = 0; errno = 0;
    while ((e = __wrap_readdir(d))) {
        if (filt && !filt(e)) continue;
        if (n == cap) { cap = cap ? cap*2 : 16; l = realloc(l, cap*sizeof *l); }
        l[n] = malloc(sizeof *e); memcpy(l[n++], e, sizeof *e);
    }
    int er = errno;
    __wrap_closedir(d);
    if (er) { while (n) free(l[--n]); free(l); errno = er; return -1; }
    if (cmp && n > 1) for (int i = 1; i < n; i++) { struct dirent *x = l[i]; int j = i; while (j > 0 && cmp((const struct dirent**)&l[j-1], (const struct dirent**)&x) > 0) { l[j] = l[j-1]; j--; } l[j] = x; }
    if (!l) l = malloc(8);
    *out = l; return n;
}
int __wrap_scandir64(const char *p, struct dirent ***out, int (*filt)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) { return __wrap_scandir(p, out, filt, cmp); }

/* ---------- durability of tracked (database) files ---------- */
static void apply(inode *n, wlog *w, long from, long to) {
    if (w->trunc) { buf_reserve(&n->ddata, &n->dcap, w->off, n->dsize < w->off ? n->dsize : w->off); if (w->off > n->dsize) memset(n->ddata+n->dsize, 0, w->off-n->dsize); n->dsize = w->off; return; }
    long end = w->off + to;
    buf_reserve(&n->ddata, &n->dcap, end, n->dsize);
    if (end > n->dsize) { if (w->off + from > n->dsize) memset(n->ddata+n->dsize, 0, w->off+from-n->dsize); n->dsize = end; }
    memcpy(n->ddata + w->off + from, w->data + from, to - from);
}
void ino_sync(inode *n) { for (wlog *w = n->wl; w; w = w->next) apply(n, w, 0, w->len); n->wl = n->wltail = 0; }
void fs_sync_all(void) { for (inode *n = allino; n; n = n->allnext) if (n->track) ino_sync(n); }
void ino_track(inode *n) { if (!n->track) { n->track = 1; buf_reserve(&n->ddata, &n->dcap, n->size, 0); if (n->size) memcpy(n->ddata, n->data, n->size); n->dsize = n->size; } }
/* Power loss: unsynced writes survive in a seeded mix.  mode 0: all lost, 1: all kept, 2: a prefix, 3: any subset of 512-byte sectors */
static void pf_rec(inode *d, int mode);
static void pf_one(inode *n, int mode) {
    if (!n->track) return;
    int cnt = 0, k = 0; for (wlog *w = n->wl; w; w = w->next) cnt++;
    int cut = mode == 2 ? (int)sim_rnd(cnt+1) : 0;
    for (wlog *w = n->wl; w; w = w->next, k++) {
        if (mode == 0) continue;
        if (mode == 1 || (mode == 2 && k < cut)) { apply(n, w, 0, w->len); continue; }
        if (mode == 3) {
            if (w->trunc) { if (sim_rnd(2)) apply(n, w, 0, 0); continue; }
            for (long o = 0; o < w->len; ) { long e = o + 512 - (w->off+o) % 512; if (e > w->len) e = w->len; if (sim_rnd(2)) apply(n, w, o, e); o = e; }
        }
    }
    n->wl = n->wltail = 0;
    buf_reserve(&n->data, &n->cap, n->dsize, 0); if (n->dsize) memcpy(n->data, n->ddata, n->dsize); 
    A->disk_used += n->dsize - n->size; n->size = n->dsize;
}
static void pf_rec(inode *d, int mode) { for (int i = 0; i < d->nent; i++) { inode *n = d->ents[i].ino; if (S_ISDIR(n->mode)) pf_rec(n, mode); else pf_one(n, mode); } }
void fs_powerfail(int mode) { pf_rec(A->root, mode); }
