#ifndef SIMFS_H
#define SIMFS_H
#include "sim.h"
typedef struct inode inode;
typedef struct dent { char *name; inode *ino; } dent;
typedef struct wlog { long off, len; char *data; struct wlog *next; int trunc; } wlog;
struct inode {
    uint64_t ino, rdev; int mode, nlink, opens; long size, cap; char *data;
    uint64_t mtime_us, atime_us, ctime_us;
    dent *ents; int nent, cent; inode *parent; char name[256];
    /* durability (database files) */
    int track; char *ddata; long dsize, dcap; wlog *wl, *wltail;
    /* sqlite locks: process-local lifetime, reset at phase start */
    int lk_shared, lk_reserved, lk_pending, lk_excl, lk_ext; uint32_t lk_phase; uint64_t lk_ext_until;
    inode *allnext;
};
enum { FD_FREE=0, FD_FILE, FD_PIPER, FD_PIPEW, FD_SOCK, FD_STD };
typedef struct { int kind, flags, append; inode *ino; long off; void *obj; int nonblock, cloexec; } SFd;
#define NFD 512
extern SFd sim_fds[NFD];
typedef struct { inode *parent, *ino; char name[256]; char canon[4096]; int trail; } walk_t;
int fs_walk(const char *path, int follow, walk_t *w);
long ino_read(inode *n, long off, char *buf, long len);
long ino_write(inode *n, long off, const char *buf, long len); /* -1: ENOSPC */
int ino_trunc(inode *n, long size);
inode *ino_new(int mode);
int fs_create(walk_t *w, int mode);
void fs_unlink_at(walk_t *w);
void ino_sync(inode *n); void ino_track(inode *n);
void fs_cwd(char *b, int n);
#endif
