/* SQLite VFS over the simulated disk: the system libsqlite3 does all its I/O, locking,
 * time and randomness through this. */
#include "simfs.h"
#include <sqlite3.h>
#include <sys/stat.h>

typedef struct { sqlite3_file base; inode *ino; int lock, delclose, ro; char path[1024]; } VF;
static int inode_fresh(inode *n) {
    uint32_t ph = A->phase_i + 1;
    if (n->lk_phase != ph) { n->lk_phase = ph; n->lk_shared = n->lk_reserved = n->lk_pending = n->lk_excl = 0; }
    return 0;
}
#define LG(...) do { if (A->log_sys & 4) tr("DB " __VA_ARGS__); } while (0)
static int v_close(sqlite3_file *f);
static int v_read(sqlite3_file *f, void *b, int n, sqlite3_int64 off) {
    VF *v = (VF*)f; SimFault *q = sim_fault(C_DBREAD);
    if (q && q->kind == F_ERR) return SQLITE_IOERR_READ;
    long r = ino_read(v->ino, off, b, n);
    if (r < n) { memset((char*)b + r, 0, n - r); return SQLITE_IOERR_SHORT_READ; }
    return SQLITE_OK;
}
static int v_write(sqlite3_file *f, const void *b, int n, sqlite3_int64 off) {
    VF *v = (VF*)f; SimFault *q = sim_fault(C_DBWRITE);
    LG("write %s off=%lld n=%d", v->path, off, n);
    if (q && q->kind == F_ERR) return SQLITE_IOERR_WRITE;
    if (q && q->kind == F_FULL) return SQLITE_FULL;
    if (q && q->kind == F_SHORT) { if (q->arg > 0 && q->arg < n) ino_write(v->ino, off, b, q->arg); return SQLITE_IOERR_WRITE; }
    long r = ino_write(v->ino, off, b, n);
    return r == n ? SQLITE_OK : SQLITE_FULL;
}
static int v_trunc(sqlite3_file *f, sqlite3_int64 n) {
    VF *v = (VF*)f; SimFault *q = sim_fault(C_DBTRUNC); if (q && q->kind == F_ERR) return SQLITE_IOERR_TRUNCATE;
    return ino_trunc(v->ino, n) ? SQLITE_FULL : SQLITE_OK;
}
static int v_sync(sqlite3_file *f, int fl) {
    VF *v = (VF*)f; SimFault *q = sim_fault(C_DBSYNC); LG("sync %s", v->path); if (q && q->kind == F_ERR) return SQLITE_IOERR_FSYNC;
    ino_sync(v->ino); return SQLITE_OK;
}
static int v_size(sqlite3_file *f, sqlite3_int64 *n) { SimFault *q = sim_fault(C_DBSIZE); if (q && q->kind == F_ERR) return SQLITE_IOERR_FSTAT; *n = ((VF*)f)->ino->size; return SQLITE_OK; }
/* one owner each for reserved/pending/exclusive: the handle's address */
typedef struct Own { inode *n; VF *res, *pend, *excl; struct Own *next; } Own;
static Own *owns;
static Own *own(inode *n) { inode_fresh(n); for (Own *o = owns; o; o = o->next) if (o->n == n) return o; Own *o = calloc(1, sizeof *o); o->n = n; o->next = owns; owns = o; return o; }
static int v_unlock(sqlite3_file *f, int lv) {
    VF *v = (VF*)f; if (v->lock <= lv) return SQLITE_OK; Own *o = own(v->ino);
    if (o->res == v) o->res = 0; if (o->pend == v) o->pend = 0; if (o->excl == v) o->excl = 0;
    if (v->lock >= 1 && lv == 0) v->ino->lk_shared--;
    v->lock = lv; return SQLITE_OK;
}
static int v_lock(sqlite3_file *f, int lv) {
    VF *v = (VF*)f; if (v->lock >= lv) return SQLITE_OK;
    SimFault *q = sim_fault(C_DBLOCK);
    if (q && q->kind == F_ERR) return q->arg == 1 ? SQLITE_IOERR_LOCK : SQLITE_BUSY;
    Own *o = own(v->ino); inode *n = v->ino;
    /* n->lk_reserved / lk_excl: locks of another (simulated) process, with expiry time in us */
    uint64_t now = sim_now_us();
    if (!A->quiet && n->lk_ext && now < n->lk_ext_until) { if (n->lk_ext >= 4 || lv >= 2) { LG("busy ext %s", v->path); return SQLITE_BUSY; } }
    if (v->lock == 0) {
        if ((o->pend && o->pend != v) || (o->excl && o->excl != v)) return SQLITE_BUSY;
        n->lk_shared++; v->lock = 1; if (lv == 1) return SQLITE_OK;
    }
    if (lv == 2) { if (o->res && o->res != v) return SQLITE_BUSY; o->res = v; v->lock = 2; return SQLITE_OK; }
    if (lv >= 3) {
        if (o->res && o->res != v) return SQLITE_BUSY;
        if (o->pend && o->pend != v) return SQLITE_BUSY;
        o->pend = v; if (v->lock < 3) v->lock = 3;
        if (lv == 4) {
            if (n->lk_shared > 1) return SQLITE_BUSY;
            if (!A->quiet && n->lk_ext && now < n->lk_ext_until) return SQLITE_BUSY;
            o->excl = v; v->lock = 4;
        }
    }
    return SQLITE_OK;
}
static int v_ckres(sqlite3_file *f, int *r) { VF *v = (VF*)f; Own *o = own(v->ino); *r = o->res || o->pend || o->excl || (v->ino->lk_ext && sim_now_us() < v->ino->lk_ext_until && v->ino->lk_ext >= 2); return SQLITE_OK; }
static int v_ctl(sqlite3_file *f, int op, void *p) { return SQLITE_NOTFOUND; }
static int v_sect(sqlite3_file *f) { return 512; }
static int v_dev(sqlite3_file *f) { return 0; }
static const sqlite3_io_methods IOM = { 1, v_close, v_read, v_write, v_trunc, v_sync, v_size, v_lock, v_unlock, v_ckres, v_ctl, v_sect, v_dev };
static int v_close(sqlite3_file *f) {
    VF *v = (VF*)f; v_unlock(f, 0);
    tr("DBCLOSE %s", v->path);
    if (v->delclose) { walk_t w; if (!fs_walk(v->path, 0, &w) && w.ino) fs_unlink_at(&w); }
    v->ino->opens--; return SQLITE_OK;
}
static int ntemp;
static int v_open(sqlite3_vfs *vf, const char *name, sqlite3_file *f, int fl, int *out) {
    VF *v = (VF*)f; memset(v, 0, sizeof *v);
    SimFault *q = sim_fault(C_DBOPEN); if (q && q->kind == F_ERR) return SQLITE_CANTOPEN;
    if (name) snprintf(v->path, sizeof v->path, "%s", name);
    else { snprintf(v->path, sizeof v->path, "/tmp/.sqltmp%d", ++ntemp); fl |= SQLITE_OPEN_DELETEONCLOSE; }
    walk_t w; int e = fs_walk(v->path, 1, &w);
    tr("DBOPEN %s canon=%s fl=%x e=%d %s", v->path, e ? "?" : w.canon, fl, e, e ? "err" : w.ino ? "exists" : "absent");
    if (e) return SQLITE_CANTOPEN;
    if (!w.ino) { if (!(fl & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN; if (fs_create(&w, S_IFREG|0644)) return SQLITE_CANTOPEN; }
    if (!S_ISREG(w.ino->mode)) return SQLITE_CANTOPEN;
    if (!A->uid_root && (fl & SQLITE_OPEN_READWRITE) && !(w.ino->mode & 0200)) { if (!(w.ino->mode & 0400)) return SQLITE_CANTOPEN; fl = (fl & ~SQLITE_OPEN_READWRITE) | SQLITE_OPEN_READONLY; }
    v->ino = w.ino; v->ino->opens++; v->delclose = !!(fl & SQLITE_OPEN_DELETEONCLOSE);
    if (fl & (SQLITE_OPEN_MAIN_DB|SQLITE_OPEN_MAIN_JOURNAL)) ino_track(v->ino);
    v->base.pMethods = &IOM; if (out) *out = fl; own(v->ino);
    return SQLITE_OK;
}
static int v_delete(sqlite3_vfs *vf, const char *name, int sync) {
    SimFault *q = sim_fault(C_DBDEL); LG("delete %s", name); if (q && q->kind == F_ERR) return SQLITE_IOERR_DELETE;
    walk_t w; if (fs_walk(name, 0, &w) || !w.ino) return SQLITE_IOERR_DELETE_NOENT;
    fs_unlink_at(&w); return SQLITE_OK;
}
static int v_access(sqlite3_vfs *vf, const char *name, int fl, int *res) {
    walk_t w; *res = !fs_walk(name, 1, &w) && w.ino;
    if (*res && fl == SQLITE_ACCESS_EXISTS && w.ino->size == 0 && 0) *res = 0;
    return SQLITE_OK;
}
static int v_full(sqlite3_vfs *vf, const char *name, int n, char *out) {
    walk_t w;
    if (!fs_walk(name, 1, &w)) { snprintf(out, n, "%s", w.canon); return SQLITE_OK; }
    if (*name == '/') snprintf(out, n, "%s", name); else snprintf(out, n, "/w/%s", name);
    return SQLITE_OK;
}
static void *v_dlopen(sqlite3_vfs *v, const char *p) { tr_esc("DLOPEN", p, strlen(p)); return 0; }
static void v_dlerr(sqlite3_vfs *v, int n, char *b) { snprintf(b, n, "not in the simulation"); }
static void (*v_dlsym(sqlite3_vfs *v, void *p, const char *s))(void) { return 0; }
static void v_dlclose(sqlite3_vfs *v, void *p) { }
static int v_rand(sqlite3_vfs *v, int n, char *b) { for (int i = 0; i < n; i++) b[i] = (char)sim_rand(); return n; }
static int v_sleep(sqlite3_vfs *v, int us) { sim_sleep_us(us, 0); return us; }
static int v_time64(sqlite3_vfs *v, sqlite3_int64 *t) { *t = 210866760000000LL + (sqlite3_int64)(sim_wall_us()/1000); return SQLITE_OK; }
static int v_time(sqlite3_vfs *v, double *t) { sqlite3_int64 x; v_time64(v, &x); *t = x/86400000.0; return SQLITE_OK; }
static int v_lasterr(sqlite3_vfs *v, int n, char *b) { return 0; }
static sqlite3_vfs VFS = { .iVersion = 2, .szOsFile = sizeof(VF), .mxPathname = 1000, .zName = "sim", .xOpen = v_open, .xDelete = v_delete, .xAccess = v_access,
    .xFullPathname = v_full, .xDlOpen = v_dlopen, .xDlError = v_dlerr, .xDlSym = v_dlsym, .xDlClose = v_dlclose, .xRandomness = v_rand, .xSleep = v_sleep,
    .xCurrentTime = v_time, .xGetLastError = v_lasterr, .xCurrentTimeInt64 = v_time64 };
void sql_vfs_init(void) { sqlite3_vfs_register(&VFS, 1); }
/* another process takes a lock on a database file for some time: level 2 reserved, 4 exclusive */
void sim_db_extlock(const char *path, int level, uint64_t us) { walk_t w; if (!fs_walk(path, 1, &w) && w.ino) { w.ino->lk_ext = level; w.ino->lk_ext_until = sim_now_us() + us; tr("DBEXTLOCK %s %d %llu", path, level, (unsigned long long)us); } }
