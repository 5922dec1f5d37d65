/* Simulation kernel: arena, trace, PRNG, virtual clock, event queue, thread scheduler,
 * simulated mutexes and signals.  Compiled without coverage instrumentation. */
#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/mman.h>

const char *sim_class_names[] = {
 "open","read","write","close","seek","stat","lstat","access","chmod","mkdir","mknod","unlink","rmdir",
 "rename","link","symlink","readlink","realpath","opendir","readdir","trunc","chdir","getcwd","mkstemp","utime",
 "dbopen","dbread","dbwrite","dbsync","dbtrunc","dbdel","dblock","dbsize",
 "popen","pread","pwrite","pclose","system","fork","exec","wait","pipe","kill",
 "socket","bind","listen","accept","connect","send","recv","select","sockopt","gai",
 "time","sleep","lock","unlock","tcreate","dlopen","stdin","stdout","sigact",0};

int sim_on = 0;
__thread int sim_tid = 0;
static int64_t countdown = 1000, countdown_start = 1000;
uint8_t *sim_cov; uint32_t sim_ncov;

/* ---------- arena ---------- */
static int szclass(size_t n) { int c = 4; while (((size_t)1<<c) < n) c++; return c; }
void *ar_alloc(size_t n) {
    int c = szclass(n ? n : 1); void *p = A->freel[c];
    if (p) A->freel[c] = *(void**)p;
    else {
        p = A->brk; A->brk += (size_t)1<<c;
        if (A->brk > ARENA_ADDR + ARENA_SIZE) { tr("SIMFAIL arena exhausted"); sim_die(97); }
    }
    memset(p, 0, n); return p;
}
void ar_free(void *p, size_t n) { if (!p) return; int c = szclass(n ? n : 1); *(void**)p = A->freel[c]; A->freel[c] = p; }

/* ---------- PRNG (xoshiro256**) ---------- */
static uint64_t rotl(uint64_t x, int k) { return (x<<k)|(x>>(64-k)); }
static uint64_t xrand(uint64_t *s) {
    uint64_t r = rotl(s[1]*5,7)*9, t = s[1]<<17;
    s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45); return r;
}
uint64_t sim_rand(void) { return xrand(A->rng); }
/* scheduling draws come from their own stream, so that an explicit replay of the
 * recorded decisions sees the same values everywhere else */
static uint32_t sched_rnd(uint32_t n) { return n ? (uint32_t)((xrand(A->rng_s)>>11) % n) : 0; }
uint32_t sim_rnd(uint32_t n) { return n ? (uint32_t)((sim_rand()>>11) % n) : 0; }

/* ---------- trace ---------- */
static void tr_raw(const char *s, size_t n) {
    if (A->trace_len + n + 64 > TRACE_MAX) { A->trace_over = 1; return; }
    memcpy(A->trace + A->trace_len, s, n); A->trace_len += n;
}
static void tr_head(void) {
    char b[80]; int n = snprintf(b, sizeof b, "%llu %llu %d ", (unsigned long long)++A->seq, (unsigned long long)sim_now_us(), sim_tid);
    tr_raw(b, n);
}
void tr(const char *fmt, ...) {
    char b[4096]; va_list va; va_start(va, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, va); va_end(va);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    tr_head(); tr_raw(b, n); tr_raw("\n", 1);
}
void tr_esc(const char *pfx, const char *s, long n) {
    static const char hx[] = "0123456789abcdef";
    tr_head(); tr_raw(pfx, strlen(pfx)); tr_raw(" ", 1);
    for (long i = 0; i < n; i++) {
        unsigned char c = s[i]; char o[4];
        if (c < 32 || c > 126 || c == '\\') { o[0]='\\'; o[1]='x'; o[2]=hx[c>>4]; o[3]=hx[c&15]; tr_raw(o,4); }
        else tr_raw((char*)&c, 1);
    }
    tr_raw("\n", 1);
}

/* ---------- clock ---------- */
static int64_t slice; /* edges until the running thread is preempted */
static void flush_steps(void) {
    int64_t used = countdown_start - countdown;
    if (used > 0) { A->steps += used; A->mono_ns += used * (uint64_t)A->edge_ns; A->sp += used; slice -= used; }
    countdown_start = countdown;
}
uint64_t sim_now_us(void) { flush_steps(); return A->mono_ns/1000; }
uint64_t sim_wall_us(void) { return A->epoch_us + sim_now_us() + A->wall_off; }

void sim_add_event(uint64_t at, int kind, long a, long b) {
    if (A->nevent >= MAX_EVENTS) { /* compact */
        int j = 0; for (int i = 0; i < A->nevent; i++) if (!A->event[i].used) A->event[j++] = A->event[i];
        A->nevent = j;
        if (j >= MAX_EVENTS) { tr("SIMFAIL event overflow"); sim_die(97); }
    }
    SimEvent *e = &A->event[A->nevent++];
    e->at = at; e->seq = ++A->evseq; e->kind = kind; e->a = a; e->b = b; e->used = 0;
}
static SimEvent *next_event(void) {
    SimEvent *b = 0;
    for (int i = 0; i < A->nevent; i++) {
        SimEvent *e = &A->event[i];
        if (!e->used && (!b || e->at < b->at || (e->at == b->at && e->seq < b->seq))) b = e;
    }
    return b;
}

/* ---------- signals ---------- */
static struct { void (*h)(int); int flags; int set; } sigtab[65];
static int sig_intr;      /* a handler ran since the last blocking call began */
static uint64_t alarm_seq, alarm_at; 
void sim_signal_deliver(int sig) {
    tr("SIG %d %s", sig, sigtab[sig].set ? (sigtab[sig].h == SIG_IGN ? "ign" : "handled") : "default");
    if (!sigtab[sig].set) {
        if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT) return;
        tr("KILLED %d", sig); sim_die(96);
    }
    if (sigtab[sig].h == SIG_IGN) return;
    int on = sim_on; sim_on = 0; sigtab[sig].h(sig); sim_on = on;
    sig_intr = 1;
}
void sim_poll_events(void) {
    static int busy; if (busy) return; 
    flush_steps();
    SimEvent *e;
    busy = 1;
    while ((e = next_event()) && e->at <= A->mono_ns/1000) {
        e->used = 1;
        switch (e->kind) {
        case EV_SIGNAL: if (e->b && (uint64_t)e->b != alarm_seq) break; sim_signal_deliver((int)e->a); break;
        case EV_CLOCK: A->wall_off += e->a; tr("CLOCKJUMP %ld", e->a); break;
        case EV_NET: sim_net_event(e->a, e->b); break;
        case EV_KILL: busy = 0; sim_crash("kill");
        }
    }
    busy = 0;
}
void sim_die(int code) { sim_on = 0; A->phase_done = code; _exit(code); }
void sim_crash(const char *why) { tr("CRASH %s", why); A->crashed++; sim_die(95); }

/* ---------- faults ---------- */
SimFault *sim_fault(int cls) {
    if (A->quiet) return 0;
    uint64_t n = ++A->cnt[cls];
    for (int i = 0; i < A->nfault; i++) {
        SimFault *f = &A->fault[i];
        if (f->cls == cls && (uint64_t)f->nth == n) {
            f->fired++;
            tr("FAULT %s %llu kind=%d arg=%ld", sim_class_names[cls], (unsigned long long)n, f->kind, f->arg);
            if (f->kind == F_CRASH) sim_crash("fault");
            if (f->kind == F_DELAY) { A->mono_ns += (uint64_t)f->arg*1000; return 0; }
            return f;
        }
    }
    return 0;
}

/* ---------- threads ---------- */
#define MAXT 256
typedef struct { sem_t sem; int used, done, blocked; int (*pred)(void*); void *arg; uint64_t deadline; int intr;
    void *(*fn)(void*); void *farg; } ST;
static ST T[MAXT] = {{ .used = 1 }}; static int nT = 1, cur = 0, nalive = 1;
int sim_self(void) { return sim_tid; }
static uint64_t pre_pos;

/* Slices are spread over three orders of magnitude, so that one thread can do a lot while the other is held up at some point. */
static void new_slice(void) {
    static const int f[6] = {1, 10, 10, 10, 100, 1000};
    slice = A->p_edge ? 1 + (int64_t)sched_rnd(2*A->p_edge) * f[sched_rnd(6)] / 10 : 0;
}
static void set_countdown(void) {
    /* next slow-path visit */
    int64_t c = 4096;
    if (nalive > 1) {
        if (A->explicit_sched) {
            while (pre_pos < (uint64_t)A->npre && A->pre[pre_pos].sp <= A->sp) pre_pos++;
            if (pre_pos < (uint64_t)A->npre) { int64_t d = A->pre[pre_pos].sp - A->sp; if (d < c) c = d; }
        } else if (A->p_edge) { if (slice < c) c = slice; }
    }
    SimEvent *e = next_event();
    if (e) {
        uint64_t now = A->mono_ns; int64_t d = e->at*1000 > now ? (int64_t)((e->at*1000-now)/(A->edge_ns?A->edge_ns:1))+1 : 1;
        if (d < c) c = d;
    }
    if (c < 1) c = 1;
    countdown = countdown_start = c;
}

static int runnable(int t) {
    ST *s = &T[t];
    if (!s->used || s->done) return 0;
    if (!s->blocked) return 1;
    if (s->deadline <= A->mono_ns/1000) return 1;
    if (s->intr && t == 0 && sig_intr) return 1;
    return s->pred && s->pred(s->arg);
}
static void decide(int to, int deflt) {
    if (to != sim_tid) A->sched_hash = (A->sched_hash ^ (A->sp*31 + to)) * 0x100000001b3ULL;
    if (to != deflt) {
        if (A->ndec < MAX_DECIS) { A->dec[A->ndec].sp = A->sp; A->dec[A->ndec++].tid = to; }
        else A->dec_over = 1;
    }
}
static void switch_to(int to) {
    int me = sim_tid;
    cur = to; A->switches++;
    if (to == me) return;
    int dead = T[me].done;
    sem_post(&T[to].sem);
    if (!dead) { while (sem_wait(&T[me].sem) != 0) ; }
}
/* Pick the next thread. `voluntary`: the caller could go on. */
static void schedule(int voluntary, int maypre, int edge) {
    int me = sim_tid, list[MAXT], n;
    for (;;) {
        sim_poll_events();
        n = 0;
        for (int k = 0; k < nT; k++) { int t = (me + k) % nT; if ((t != me || voluntary || T[me].blocked) && runnable(t)) list[n++] = t; }
        if (n) break;
        uint64_t best = UINT64_MAX;
        for (int t = 0; t < nT; t++) if (T[t].used && !T[t].done && T[t].blocked && T[t].deadline < best) best = T[t].deadline;
        SimEvent *e = next_event(); if (e && e->at < best) best = e->at;
        if (best == UINT64_MAX) {
            tr("DEADLOCK"); sim_die(94);
        }
        flush_steps();
        if (best > A->max_time_us) { tr("TIMECAP"); sim_die(93); }
        if (best*1000 > A->mono_ns) A->mono_ns = best*1000;
    }
    if (!edge) A->sp++;
    int deflt = list[0], to = deflt;
    if (n > 1) {
        if (A->explicit_sched) {
            for (int i = pre_pos; i < A->npre && A->pre[i].sp <= A->sp; i++)
                if (A->pre[i].sp == A->sp) for (int k = 0; k < n; k++) if (list[k] == A->pre[i].tid) to = list[k];
        } else if (!voluntary || maypre) to = list[sched_rnd(n)];
    }
    decide(to, deflt);
    if (edge || to != me) new_slice();
    set_countdown();
    switch_to(to);
}
int sim_block(int (*pred)(void*), void *arg, uint64_t deadline, int intr) {
    ST *s = &T[sim_tid];
    flush_steps();
    for (;;) {
        if (pred && pred(arg)) return 1;
        if (deadline <= A->mono_ns/1000) return 0;
        if (intr && sim_tid == 0 && sig_intr) { sig_intr = 0; return -1; }
        s->pred = pred; s->arg = arg; s->deadline = deadline; s->intr = intr; s->blocked = 1;
        schedule(0, 0, 0);
        s->blocked = 0;
        flush_steps();
    }
}
int sim_yield(int sync) {
    if (!sim_on) return 0;
    sim_poll_events();
    if (nalive <= 1) return 0;
    flush_steps();
    if (A->explicit_sched) { schedule(1, 0, 0); return 1; }
    if (sync && A->p_sync && sched_rnd(A->p_sync) == 0) schedule(1, 1, 0); else { A->sp++; decide(sim_tid, sim_tid); set_countdown(); }
    return 1;
}
void sim_edge_slow(void) {
    flush_steps();
    if (A->steps > A->max_steps) { tr("STEPCAP"); sim_die(92); }
    if (A->mono_ns/1000 > A->max_time_us) { tr("TIMECAP"); sim_die(93); }
    int on = sim_on; sim_on = 0;
    sim_poll_events();
    sim_on = on;
    if (nalive > 1) {
        if (A->explicit_sched ? (pre_pos < (uint64_t)A->npre && A->pre[pre_pos].sp <= A->sp) : A->p_edge != 0 && slice <= 0) { schedule(1, 1, 1); return; }
    }
    set_countdown();
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++sim_ncov;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!sim_on) return;
    if (sim_cov) sim_cov[*g] = 1;
    if (--countdown <= 0) sim_edge_slow();
}
static sem_t up;
static void *tramp(void *v) {
    ST *s = v; sim_tid = (int)(s - T);
    sem_post(&up); /* the creator goes on only now: what the C library does for a new thread is not concurrent with it */
    while (sem_wait(&s->sem) != 0) ;
    void *r = s->fn(s->farg);
    tr("THREAD_END");
    s->done = 1; nalive--;
    schedule(0, 0, 0);
    for (;;) pause(); /* nor is what it does for an ending one */
    return r;
}
int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void*), void *arg) {
    SimFault *f = sim_fault(C_TCREATE);
    if (f && f->kind == F_ERR) return f->arg ? f->arg : EAGAIN;
    if (nT >= MAXT) { tr("SIMFAIL threads"); sim_die(97); }
    ST *s = &T[nT]; memset(s, 0, sizeof *s); sem_init(&s->sem, 0, 0);
    s->used = 1; s->fn = fn; s->farg = arg; s->deadline = UINT64_MAX;
    pthread_attr_t a2; pthread_attr_init(&a2); pthread_attr_setstacksize(&a2, 64u<<20);
    sem_init(&up, 0, 0);
    int rc = pthread_create(th, &a2, tramp, s);
    pthread_attr_destroy(&a2);
    if (rc) return rc;
    while (sem_wait(&up) != 0) ;
    tr("THREAD_NEW %d", nT);
    nT++; nalive++;
    set_countdown();
    sim_yield(1);
    return 0;
}
/* let other threads finish (bounded by max_time) */
static int pred_alone(void *x) { return nalive == 1; }
void sim_drain(uint64_t us) { sim_block(pred_alone, 0, sim_now_us()+us, 0); }

/* ---------- mutexes ---------- */
typedef struct SM { pthread_mutex_t *m; int type, owner, depth; struct SM *next; } SM;
static SM *mtab[1024];
static SM *mget(pthread_mutex_t *m, int create) {
    unsigned h = ((uintptr_t)m >> 4) & 1023;
    for (SM *s = mtab[h]; s; s = s->next) if (s->m == m) return s;
    if (!create) return 0;
    SM *s = calloc(1, sizeof *s); s->m = m; s->owner = -1; s->type = PTHREAD_MUTEX_DEFAULT; s->next = mtab[h]; mtab[h] = s; return s;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    SM *s = mget(m, 1); s->owner = -1; s->depth = 0; s->type = PTHREAD_MUTEX_DEFAULT;
    if (a) pthread_mutexattr_gettype(a, &s->type);
    return pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    unsigned h = ((uintptr_t)m >> 4) & 1023;
    for (SM **p = &mtab[h]; *p; p = &(*p)->next) if ((*p)->m == m) {
        if ((*p)->owner >= 0 && (*p)->owner != sim_tid) tr("MUTEX_DESTROY_BUSY owner=%d", (*p)->owner);
        SM *d = *p; *p = d->next; free(d); break;
    }
    return pthread_mutex_destroy(m);
}
/* the record may be destroyed and freed while a waiter is parked: look it up each time */
static int pred_mtx(void *m) { SM *s = mget(m, 1); return s->owner < 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!sim_on) return 0;
    A->cnt[C_LOCK]++;
    sim_yield(1);
    SM *s = mget(m, 1);
    if (s->owner == sim_tid) {
        if (s->type == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
        if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        tr("SELF_DEADLOCK");
    }
    sim_block(pred_mtx, m, UINT64_MAX, 0);
    s = mget(m, 1); s->owner = sim_tid; s->depth = 1;
    return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    if (!sim_on) return 0;
    A->cnt[C_LOCK]++;
    sim_yield(1);
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;
    SM *s = mget(m, 1);
    if (s->owner == sim_tid && s->type == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
    int64_t us = (int64_t)ts->tv_sec*1000000 + ts->tv_nsec/1000 - (int64_t)A->epoch_us - A->wall_off;
    if (sim_block(pred_mtx, m, us < 0 ? 0 : (uint64_t)us, 0) != 1) { tr("LOCK_TIMEOUT"); return ETIMEDOUT; }
    s = mget(m, 1); s->owner = sim_tid; s->depth = 1;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    SM *s = mget(m, 1); sim_yield(1);
    if (s->owner == sim_tid && s->type == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
    if (s->owner >= 0) return EBUSY;
    s->owner = sim_tid; s->depth = 1; return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!sim_on) return 0;
    A->cnt[C_UNLOCK]++;
    SM *s = mget(m, 0);
    if (!s || s->owner != sim_tid) { tr("BAD_UNLOCK owner=%d", s ? s->owner : -2); return EPERM; }
    if (--s->depth == 0) s->owner = -1;
    sim_yield(1);
    return 0;
}
int sim_mutex_held(int tid) { int n = 0; for (int i = 0; i < 1024; i++) for (SM *s = mtab[i]; s; s = s->next) if (s->owner == tid) n++; return n; }

/* ---------- time wraps ---------- */
static void clk_tick(void) {
    sim_fault(C_TIME);
    if (sim_on) { sim_poll_events(); sim_yield(1); }
    flush_steps(); A->mono_ns += A->tick_ns;
    if (A->mono_ns/1000 > A->max_time_us) { tr("TIMECAP"); sim_die(93); }
}
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
    clk_tick(); uint64_t w = sim_wall_us(); tv->tv_sec = w/1000000; tv->tv_usec = w%1000000; return 0;
}
time_t __wrap_time(time_t *t) { clk_tick(); time_t r = sim_wall_us()/1000000; if (t) *t = r; return r; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    clk_tick();
    uint64_t w = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? sim_wall_us() : 1000000000ULL + A->epoch_us%1000000 + sim_now_us();
    ts->tv_sec = w/1000000; ts->tv_nsec = (w%1000000)*1000; return 0;
}
clock_t __wrap_times(struct tms *b) { clk_tick(); if (b) memset(b, 0, sizeof *b); return sim_now_us()/10000; }
clock_t __wrap_clock(void) { clk_tick(); return sim_now_us(); }
void sim_sleep_us(uint64_t us, int intr) {
    uint64_t d = sim_now_us() + us + (A->jitter_us ? sim_rnd(A->jitter_us) : 0);
    if (intr && sim_tid == 0) sig_intr = 0;
    sim_block(0, 0, d, intr);
}
static int sleep_common(uint64_t us) {
    SimFault *f = sim_fault(C_SLEEP);
    uint64_t t0 = sim_now_us();
    if (f && f->kind == F_EINTR) us = us/2;
    if (sim_tid == 0) sig_intr = 0;
    int rc = sim_block(0, 0, t0 + us + (A->jitter_us ? sim_rnd(A->jitter_us) : 0), 1);
    if (A->log_sys & 2) tr("SLEEP %llu -> %llu", (unsigned long long)us, (unsigned long long)(sim_now_us()-t0));
    if (rc < 0 || (f && f->kind == F_EINTR)) { errno = EINTR; return -1; }
    return 0;
}
int __wrap_usleep(useconds_t us) { return sleep_common(us); }
unsigned __wrap_sleep(unsigned s) {
    uint64_t t0 = sim_now_us();
    if (sleep_common((uint64_t)s*1000000) == 0) return 0;
    uint64_t el = sim_now_us()-t0; return el >= (uint64_t)s*1000000 ? 0 : (unsigned)(s - el/1000000);
}
int __wrap_nanosleep(const struct timespec *r, struct timespec *rem) {
    uint64_t us = (uint64_t)r->tv_sec*1000000 + (r->tv_nsec+999)/1000, t0 = sim_now_us();
    if (r->tv_nsec < 0 || r->tv_nsec > 999999999 || r->tv_sec < 0) { errno = EINVAL; return -1; }
    int rc = sleep_common(us);
    if (rc && rem) { uint64_t el = sim_now_us()-t0, l = us > el ? us-el : 0; rem->tv_sec = l/1000000; rem->tv_nsec = (l%1000000)*1000; }
    return rc;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *rem) {
    if (!(flags & 1)) return __wrap_nanosleep(r, rem) ? errno : 0;
    int64_t tgt = (int64_t)r->tv_sec*1000000 + (r->tv_nsec+999)/1000, now = c == CLOCK_REALTIME ? (int64_t)sim_wall_us() : (int64_t)(1000000000ULL+sim_now_us());
    if (tgt <= now) return 0;
    return sleep_common(tgt-now) ? errno : 0;
}
/* ---------- signal wraps ---------- */
int __wrap_sigaction(int sig, const struct sigaction *sa, struct sigaction *old) {
    if (sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP) { errno = EINVAL; return -1; }
    SimFault *f = sim_fault(C_SIGACT);
    if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    if (old) { memset(old, 0, sizeof *old); old->sa_handler = sigtab[sig].set ? sigtab[sig].h : SIG_DFL; }
    if (sa) {
        if (sa->sa_handler == SIG_DFL) sigtab[sig].set = 0; else { sigtab[sig].set = 1; sigtab[sig].h = sa->sa_handler; sigtab[sig].flags = sa->sa_flags; }
        tr("SIGACTION %d %s", sig, sa->sa_handler == SIG_DFL ? "dfl" : sa->sa_handler == SIG_IGN ? "ign" : "fn");
    }
    return 0;
}
void (*__wrap_signal(int sig, void (*h)(int)))(int) {
    struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = h;
    if (__wrap_sigaction(sig, &sa, &old)) return SIG_ERR;
    return old.sa_handler;
}
static uint64_t do_alarm(uint64_t us) {
    uint64_t now = sim_now_us(), left = alarm_at > now ? alarm_at - now : 0;
    alarm_seq++; alarm_at = 0;
    tr("ALARM %llu", (unsigned long long)us);
    if (us) { alarm_at = now + us; sim_add_event(alarm_at, EV_SIGNAL, SIGALRM, (long)alarm_seq); set_countdown(); }
    return left;
}
unsigned __wrap_alarm(unsigned s) { return (unsigned)((do_alarm((uint64_t)s*1000000)+999999)/1000000); }
useconds_t __wrap_ualarm(useconds_t us, useconds_t iv) { if (us > 999999999u) { errno = EINVAL; return -1; } return (useconds_t)do_alarm(us); }
int __wrap_setitimer(int which, const struct itimerval *nv, struct itimerval *ov) {
    if (which != ITIMER_REAL || nv->it_value.tv_usec < 0 || nv->it_value.tv_usec > 999999 || nv->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    uint64_t left = do_alarm((uint64_t)nv->it_value.tv_sec*1000000+nv->it_value.tv_usec);
    if (ov) { memset(ov, 0, sizeof *ov); ov->it_value.tv_sec = left/1000000; ov->it_value.tv_usec = left%1000000; }
    return 0;
}
int __wrap_getitimer(int which, struct itimerval *ov) {
    uint64_t now = sim_now_us(), left = alarm_at > now ? alarm_at - now : 0;
    if (which != ITIMER_REAL) { errno = EINVAL; return -1; }
    memset(ov, 0, sizeof *ov); ov->it_value.tv_sec = left/1000000; ov->it_value.tv_usec = left%1000000;
    return 0;
}
int __wrap_kill(pid_t pid, int sig) {
    SimFault *f = sim_fault(C_KILL);
    tr("KILL pid=%d sig=%d", (int)pid, sig);
    if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    if (pid == 4242) { if (sig > 0 && sig < 65) sim_signal_deliver(sig); return 0; }
    errno = ESRCH; return -1;
}
