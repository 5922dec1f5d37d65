/* Deterministic simulation kernel for jsish: shared declarations.
 * Everything that outlives one simulated process incarnation (disk, trace, fault
 * plan, clock) sits in one shared arena at a fixed address. */
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE 1
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/stat.h>

#define ARENA_ADDR   ((char*)0x200000000000ULL)
#define ARENA_SIZE   (192u<<20)
#define TRACE_MAX    (24u<<20)
#define MAX_FAULTS   256
#define MAX_EVENTS   256
#define MAX_PREEMPT  4096
#define MAX_DECIS    4096
#define MAX_CLASSES  64
#define MAX_PROCS    64
#define MAX_PHASES   16

enum { /* call classes: every seam call is counted under one of these */
    C_OPEN, C_READ, C_WRITE, C_CLOSE, C_SEEK, C_STAT, C_LSTAT, C_ACCESS, C_CHMOD, C_MKDIR,
    C_MKNOD, C_UNLINK, C_RMDIR, C_RENAME, C_LINK, C_SYMLINK, C_READLINK, C_REALPATH,
    C_OPENDIR, C_READDIR, C_TRUNC, C_CHDIR, C_GETCWD, C_MKSTEMP, C_UTIME,
    C_DBOPEN, C_DBREAD, C_DBWRITE, C_DBSYNC, C_DBTRUNC, C_DBDEL, C_DBLOCK, C_DBSIZE,
    C_POPEN, C_PREAD, C_PWRITE, C_PCLOSE, C_SYSTEM, C_FORK, C_EXEC, C_WAIT, C_PIPE, C_KILL,
    C_SOCKET, C_BIND, C_LISTEN, C_ACCEPT, C_CONNECT, C_SEND, C_RECV, C_SELECT, C_SOCKOPT, C_GAI,
    C_TIME, C_SLEEP, C_LOCK, C_UNLOCK, C_TCREATE, C_DLOPEN, C_STDIN, C_STDOUT, C_SIGACT, C_NCLASS
};
extern const char *sim_class_names[];

/* fault kinds */
enum { F_ERR=1, F_SHORT, F_ZERO, F_FLIP, F_CRASH, F_KILL, F_EINTR, F_FULL, F_DELAY };

typedef struct { int cls, nth, kind; long arg; int fired; } SimFault;

enum { EV_SIGNAL=1, EV_CLOCK, EV_NET, EV_KILL, EV_STOPT };
typedef struct { uint64_t at; uint64_t seq; int kind; long a, b; int used; } SimEvent;

typedef struct { uint64_t sp; int tid; } SimPre;

typedef struct { char cmd[256]; int status; int len; char *out; int prefix; long dly; int chunk, inlim; } SimProc;
typedef struct { char *script; int len; int kind; long opt; char *args; } SimPhase;

typedef struct {
    char *brk;                       /* arena allocator */
    void *freel[40];
    /* configuration */
    uint64_t seed, rng[4], rng_s[4];
    uint64_t epoch_us;               /* wall clock at start */
    int64_t  wall_off;               /* accumulated clock jumps */
    uint64_t mono_ns;
    uint32_t tick_ns;                /* per clock read */
    uint32_t edge_ns;                /* per executed edge */
    uint32_t jitter_us;              /* extra sleep latency */
    uint32_t p_edge, p_sync;         /* 1/p preemption probability, 0=off */
    uint64_t max_steps;              /* total edges */
    uint64_t max_time_us;
    uint64_t disk_cap;
    int      explicit_sched, log_sys, drain, io_yield, stdio_buf, fdlimit, quiet;
    int      uid_root;
    int      out_full;             /* stdout is a file or pipe: fully buffered, this many bytes */
    /* runtime */
    uint64_t steps, sp, seq, switches;
    uint64_t cnt[MAX_CLASSES];
    uint64_t disk_used;
    int nfault; SimFault fault[MAX_FAULTS];
    int nevent; SimEvent event[MAX_EVENTS]; uint64_t evseq;
    int npre;   SimPre pre[MAX_PREEMPT];
    int ndec;   SimPre dec[MAX_DECIS]; int dec_over;
    int nproc;  SimProc proc[MAX_PROCS];
    int nphase; SimPhase phase[MAX_PHASES];
    int phase_i, phase_done, crashed;
    uint64_t sched_hash;
    struct inode *root; uint64_t inoseq;
    char *stdin_data; int stdin_len, stdin_pos;
    uint32_t trace_len; int trace_over;
    /* network config */
    uint32_t net_min_us, net_jit_us, net_loss, net_dup, net_chunk, net_reorder, net_sndbuf;
    char dump[256], cwd0[256];
    char *trace;
} Arena;
#define A ((Arena*)ARENA_ADDR)

void *ar_alloc(size_t n); void ar_free(void *p, size_t n);
uint64_t sim_rand(void); uint32_t sim_rnd(uint32_t n);
void tr(const char *fmt, ...) __attribute__((format(printf,1,2)));
void tr_esc(const char *pfx, const char *s, long n);
uint64_t sim_now_us(void);      /* monotonic virtual */
uint64_t sim_wall_us(void);
void sim_edge_slow(void);
void sim_die(int code) __attribute__((noreturn));
void sim_crash(const char *why) __attribute__((noreturn));
SimFault *sim_fault(int cls);   /* counts the call and returns the fault to apply, if any */
void sim_sleep_us(uint64_t us, int intr);
int  sim_yield(int sync);
extern __thread int sim_tid; extern int sim_on;
int  sim_self(void);
/* block until pred(arg) or deadline (mono us, UINT64_MAX none); returns 1 if pred true */
int  sim_block(int (*pred)(void*), void *arg, uint64_t deadline, int intr);
void sim_add_event(uint64_t at, int kind, long a, long b);
void sim_signal_deliver(int sig);
void sim_net_event(long a, long b);
void sim_poll_events(void);

/* simfs */
void fs_init(void);
int  fs_put(const char *path, int mode, const char *data, long len);
int  fs_mkdirs(const char *path);
int  fs_symlink(const char *tgt, const char *path);
void fs_dump(void);
void fs_sync_all(void);
void fs_powerfail(int mode);
void fs_start_phase(void);
struct inode *fs_lookup(const char *path, int follow, int *err);

void sql_vfs_init(void);
void sim_stdio_init(void);
FILE *sim_fdopen_stream(int fd, const char *mode);
int sim_fd_alloc(int kind, void *obj, int flags);
#endif
