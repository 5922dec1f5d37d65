/* Simulated network: TCP streams and UDP datagrams between simulated sockets, plus stub
 * peers driven from scripts (simpeer).  Delay, segmentation, loss, duplication and
 * reordering of datagrams, resets and connection failures come from the scenario's seed. */
#include "simfs.h"
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>

typedef struct Seg { struct Seg *next; uint64_t at; int len, off, fin, rst; struct sockaddr_in from; char data[]; } Seg;
typedef struct Sock {
    int type, state, port, cport, refs, closed, id; struct sockaddr_in addr;
    struct Sock *peer, *acc[64]; int nacc, backlog; uint64_t acc_at[64];
    Seg *rq, *rtail; uint64_t last_at; long rbytes;   /* receive queue */
    int rst, wrfail; uint64_t rto, sto; struct Sock *all; int stub;
} Sock;
enum { ST_NEW, ST_LISTEN, ST_CONN };
static Sock *socks; static int nsock; static int eph = 40000;
static Sock *peers[64]; static int npeers;

static Sock *mk(int type) { Sock *s = calloc(1, sizeof *s); s->type = type; s->all = socks; socks = s; s->id = ++nsock; return s; }
static Sock *getsk(int fd) { if (fd < 3 || fd >= NFD || sim_fds[fd].kind != FD_SOCK) { errno = EBADF; return 0; } return sim_fds[fd].obj; }
/* one pending wake-up stands for everything in flight; when it fires, the next one is found */
static uint64_t armed = UINT64_MAX;
static void wake_at(uint64_t t) { if (t >= armed) return; armed = t; sim_add_event(t, EV_NET, 0, 0); }
void sim_net_event(long a, long b) {
    uint64_t now = sim_now_us(), m = UINT64_MAX; armed = UINT64_MAX;
    for (Sock *s = socks; s; s = s->all) {
        if (s->closed) continue;
        for (Seg *g = s->rq; g; g = g->next) if (g->at > now) { if (g->at < m) m = g->at; break; }
        for (int i = 0; i < s->nacc; i++) if (s->acc_at[i] > now && s->acc_at[i] < m) m = s->acc_at[i];
    }
    if (m != UINT64_MAX) wake_at(m);
}
static uint64_t latency(void) { return A->net_min_us + (A->net_jit_us ? sim_rnd(A->net_jit_us) : 0); }
static void enq(Sock *d, Seg *g, int ordered) {
    if (ordered) { if (g->at < d->last_at) g->at = d->last_at; d->last_at = g->at; }
    Seg **p = &d->rq; while (*p && (*p)->at <= g->at) p = &(*p)->next;
    g->next = *p; *p = g; d->rbytes += g->len; wake_at(g->at);
}
static Seg *mkseg(const char *b, int n) { Seg *g = calloc(1, sizeof *g + n + 1); if (n) memcpy(g->data, b, n); g->len = n; return g; }
static Sock *bound(int type, int port, uint32_t ip) {
    for (Sock *s = socks; s; s = s->all) if (!s->closed && s->type == type && s->port == port && s->port && (type == SOCK_DGRAM || s->state == ST_LISTEN)) return s;
    return 0;
}
static int has_data(Sock *s) { return s->rq && s->rq->at <= sim_now_us(); }
static int acc_ready(Sock *s) { return s->nacc && s->acc_at[0] <= sim_now_us(); }
static int readable(Sock *s) {
    if (s->state == ST_LISTEN) return acc_ready(s);
    if (s->rst) return 1;
    return has_data(s);
}
static int writable(Sock *s) {
    if (s->type == SOCK_DGRAM) return 1;
    if (s->state != ST_CONN) return 1;
    if (!s->peer || s->peer->closed || s->rst) return 1;
    return s->peer->rbytes < (long)A->net_sndbuf;
}
static int pr_read(void *v) { return readable(v); }
static int pr_write(void *v) { return writable(v); }

#define NF(cls) SimFault *f = sim_fault(cls); if (A->io_yield) sim_yield(1); if (f && f->kind == F_ERR) { errno = f->arg; return -1; } if (f && f->kind == F_EINTR) { errno = EINTR; return -1; }
int __wrap_socket(int dom, int type, int proto) {
    NF(C_SOCKET);
    Sock *s = mk(type & 0xf);
    int fd = sim_fd_alloc(FD_SOCK, s, 0); if (fd >= 0) tr("NET socket fd=%d id=%d %s", fd, s->id, s->type == SOCK_DGRAM ? "udp" : "tcp");
    return fd;
}
static int isany(uint32_t ip) { return ip == 0 || (ntohl(ip) >> 24) == 127; }
int __wrap_bind(int fd, const struct sockaddr *sa, socklen_t l) {
    NF(C_BIND); Sock *s = getsk(fd); if (!s) return -1;
    const struct sockaddr_in *in = (void*)sa; int port = ntohs(in->sin_port);
    if (in->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    if (!isany(in->sin_addr.s_addr)) { errno = EADDRNOTAVAIL; return -1; }
    if (!port) port = ++eph;
    else for (Sock *o = socks; o; o = o->all) if (!o->closed && o != s && o->type == s->type && o->port == port && (o->type == SOCK_DGRAM || o->state == ST_LISTEN)) { errno = EADDRINUSE; return -1; }
    s->port = port; s->addr = *in; s->addr.sin_port = htons(port); return 0;
}
int __wrap_listen(int fd, int bl) { NF(C_LISTEN); Sock *s = getsk(fd); if (!s) return -1; if (!s->port) s->port = ++eph; s->state = ST_LISTEN; s->backlog = bl < 1 ? 1 : bl > 60 ? 60 : bl; return 0; }
int __wrap_getsockname(int fd, struct sockaddr *sa, socklen_t *l) {
    Sock *s = getsk(fd); if (!s) return -1; struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(s->port); in.sin_addr = s->addr.sin_addr;
    if (*l > sizeof in) *l = sizeof in; memcpy(sa, &in, *l); return 0;
}
static Sock *do_connect(Sock *s, int port, uint32_t ip) {
    Sock *ls = bound(SOCK_STREAM, port, ip);
    if (!ls || !isany(ip)) { errno = ECONNREFUSED; return 0; }
    if (ls->nacc > ls->backlog) { errno = ETIMEDOUT; return 0; }
    Sock *p = mk(SOCK_STREAM); p->state = s->state = ST_CONN; p->peer = s; s->peer = p; p->port = port; if (!s->port) s->port = ++eph;
    p->addr.sin_addr.s_addr = htonl(0x7f000001);
    uint64_t at = sim_now_us() + latency();
    ls->acc_at[ls->nacc] = at; ls->acc[ls->nacc++] = p; wake_at(at);
    return p;
}
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t l) {
    SimFault *f = sim_fault(C_CONNECT); Sock *s = getsk(fd); if (!s) return -1;
    if (f && f->kind == F_ERR) { errno = f->arg; tr("NET connect err=%ld", f->arg); return -1; }
    const struct sockaddr_in *in = (void*)sa;
    sim_sleep_us(latency(), 0);
    if (s->type == SOCK_DGRAM) { s->cport = ntohs(in->sin_port); return 0; }
    Sock *p = do_connect(s, ntohs(in->sin_port), in->sin_addr.s_addr);
    tr("NET connect id=%d port=%d %s", s->id, ntohs(in->sin_port), p ? "ok" : "refused");
    return p ? 0 : -1;
}
int __wrap_accept(int fd, struct sockaddr *sa, socklen_t *l) {
    NF(C_ACCEPT); Sock *s = getsk(fd); if (!s) return -1;
    if (s->state != ST_LISTEN) { errno = EINVAL; return -1; }
    if (!acc_ready(s)) { if (sim_fds[fd].nonblock) { errno = EAGAIN; return -1; } sim_block(pr_read, s, UINT64_MAX, 1); }
    if (!acc_ready(s)) { errno = EINTR; return -1; }
    Sock *p = s->acc[0]; int n = sim_fd_alloc(FD_SOCK, p, 0); if (n < 0) return -1;
    p->rto = s->rto; p->sto = s->sto;   /* inherited, as on Linux */
    memmove(s->acc, s->acc+1, --s->nacc * sizeof *s->acc); memmove(s->acc_at, s->acc_at+1, s->nacc * sizeof *s->acc_at);
    if (sa) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(p->peer ? p->peer->port : 0); in.sin_addr.s_addr = htonl(0x7f000001); memcpy(sa, &in, *l < sizeof in ? *l : sizeof in); *l = sizeof in; }
    tr("NET accept fd=%d id=%d peer=%d", n, p->id, p->peer ? p->peer->id : -1);
    return n;
}
/* put n bytes on the wire towards s->peer in seeded segments */
static void wire(Sock *s, const char *b, long n) {
    long o = 0;
    while (o < n) {
        long k = n - o; if (A->net_chunk) { long m = n/24 > (long)A->net_chunk ? n/24 : (long)A->net_chunk, c = 1 + sim_rnd(m); if (c < k) k = c; }
        Seg *g = mkseg(b+o, k); g->at = sim_now_us() + latency(); enq(s->peer, g, 1); o += k;
    }
}
static long tcp_send(Sock *s, const char *b, long n, int flags, SimFault *f, int nonblock) {
    if (s->state != ST_CONN) { errno = ENOTCONN; goto pipe; }
    if (s->rst || s->wrfail || !s->peer) { errno = EPIPE; goto pipe; }
    if (s->peer->closed) { /* first write after the peer went away provokes a reset */
        s->wrfail = 1; s->rst = 1; return n; }
    long sent = 0;
    if (f && f->kind == F_SHORT && f->arg > 0 && n > f->arg) n = f->arg;
    while (sent < n) {
        if (!writable(s)) {     /* a blocking send waits until everything is queued */
            if (nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; break; }
            int r = sim_block(pr_write, s, s->sto ? sim_now_us() + s->sto : UINT64_MAX, 1);
            if (r <= 0) { errno = r < 0 ? EINTR : EAGAIN; break; }
            if (s->peer->closed) { errno = ECONNRESET; s->rst = 1; break; }
        }
        long room = A->net_sndbuf - s->peer->rbytes; if (room < 1) room = 1;
        if (room > n - sent) room = n - sent;
        wire(s, b + sent, room); sent += room;
    }
    return sent ? sent : -1;
pipe:
    if (errno == EPIPE && !(flags & MSG_NOSIGNAL)) { sim_signal_deliver(13); errno = EPIPE; }
    return -1;
}
static long udp_send(Sock *s, const char *b, long n, int port, SimFault *f) {
    if (!s->port) s->port = ++eph;
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    int copies = 1;
    if (A->net_loss && sim_rnd(1000) < A->net_loss) copies = 0;
    else if (A->net_dup && sim_rnd(1000) < A->net_dup) copies = 2;
    Sock *d = bound(SOCK_DGRAM, port, 0);
    tr("NET dgram from=%d to=%d len=%ld copies=%d %s", s->port, port, n, copies, d ? "" : "noroute");
    if (d) for (int i = 0; i < copies; i++) {
        Seg *g = mkseg(b, n); g->from.sin_family = AF_INET; g->from.sin_port = htons(s->port); g->from.sin_addr.s_addr = htonl(0x7f000001);
        g->at = sim_now_us() + latency() + (A->net_reorder && sim_rnd(1000) < A->net_reorder ? sim_rnd(20000) : 0);
        enq(d, g, 0);
    }
    return n;
}
static long do_send(int fd, const char *b, long n, int flags, const struct sockaddr *to, int tl) {
    SimFault *f = sim_fault(C_SEND); if (A->io_yield) sim_yield(1);
    Sock *s = getsk(fd); if (!s) return -1;
    if (f && f->kind == F_ERR) { errno = f->arg; if (f->arg == EPIPE && !(flags & MSG_NOSIGNAL)) sim_signal_deliver(13); if (f->arg == ECONNRESET) s->rst = 1; tr("NETSENDERR %d errno=%ld", s->id, f->arg); errno = f->arg; return -1; }
    if (f && f->kind == F_EINTR) { tr("NETSENDERR %d errno=%d", s->id, EINTR); errno = EINTR; return -1; }
    long r;
    if (s->type == SOCK_DGRAM) { int port = to ? ntohs(((struct sockaddr_in*)to)->sin_port) : s->cport; if (!port) { errno = EDESTADDRREQ; return -1; } r = udp_send(s, b, n, port, f); }
    else r = tcp_send(s, b, n, flags, f, sim_fds[fd].nonblock);
    if (r > 0) { char h[64]; snprintf(h, sizeof h, "NETSEND %d %ld", s->id, r); tr_esc(h, b, r); }
    else { int e = errno; tr("NETSENDERR %d errno=%d", s->id, e); errno = e; }
    return r;
}
static long do_recv1(int fd, char *b, long n, int flags, struct sockaddr *from, socklen_t *fl) {
    SimFault *f = sim_fault(C_RECV); if (A->io_yield) sim_yield(1);
    Sock *s = getsk(fd); if (!s) return -1;
    if (f && f->kind == F_ERR) { errno = f->arg; if (f->arg == ECONNRESET) { s->rst = 1; } return -1; }
    if (f && f->kind == F_EINTR) { errno = EINTR; return -1; }
    if (s->type == SOCK_STREAM && s->state != ST_CONN) { errno = ENOTCONN; return -1; }
    if (!readable(s)) {
        if (sim_fds[fd].nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        int r = sim_block(pr_read, s, s->rto ? sim_now_us() + s->rto : UINT64_MAX, 1);
        if (r <= 0) { errno = r < 0 ? EINTR : EAGAIN; return -1; }
    }
    long got = 0; uint64_t now = sim_now_us();
    if (s->type == SOCK_DGRAM) {
        Seg *g = s->rq; got = g->len < n ? g->len : n; memcpy(b, g->data, got); s->rq = g->next; s->rbytes -= g->len;
        if (from && fl) { memcpy(from, &g->from, *fl < sizeof g->from ? *fl : sizeof g->from); *fl = sizeof g->from; }
        free(g);
    } else {
        if (s->rst && !(s->rq && s->rq->at <= now)) { errno = ECONNRESET; return -1; }
        if (f && f->kind == F_SHORT && f->arg > 0 && n > f->arg) n = f->arg;
        while (s->rq && s->rq->at <= now && got < n) {
            Seg *g = s->rq;
            if (g->rst) { if (!got) { s->rst = 1; errno = ECONNRESET; return -1; } break; }
            if (g->fin) break; /* stays queued: every later read sees end of stream */
            long k = g->len - g->off; if (k > n - got) k = n - got;
            memcpy(b+got, g->data+g->off, k); got += k; g->off += k; s->rbytes -= k;
            if (g->off == g->len) { s->rq = g->next; free(g); }
        }
    }
    char h[64]; snprintf(h, sizeof h, "NETRECV %d %ld", s->id, got); tr_esc(h, b, got);
    return got;
}
static long do_recv(int fd, char *b, long n, int flags, struct sockaddr *from, socklen_t *fl) {
    long r = do_recv1(fd, b, n, flags, from, fl);
    if (r < 0) { int e = errno; Sock *s = getsk(fd); tr("NETRECVERR %d errno=%d", s ? s->id : -1, e); errno = e; }
    return r;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return do_send(fd, b, n, fl, 0, 0); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *t, socklen_t l) { return do_send(fd, b, n, fl, t, l); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { return do_recv(fd, b, n, fl, 0, 0); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *f, socklen_t *l) { return do_recv(fd, b, n, fl, f, l); }
long sim_sock_read(int fd, char *b, long n) { return do_recv(fd, b, n, 0, 0, 0); }
long sim_sock_write(int fd, const char *b, long n) { return do_send(fd, b, n, 0, 0, 0); }
static void sk_close(Sock *s, int reset) {
    if (s->closed) return;
    s->closed = 1; tr("NETGONE %d %s", s->id, reset || (s->rq && !s->rq->fin) ? "rst" : "fin");
    if (s->state == ST_LISTEN) for (int i = 0; i < s->nacc; i++) { Sock *p = s->acc[i]; p->closed = 1; if (p->peer) p->peer->rst = 1; }
    if (s->peer && !s->peer->closed) {
        if (reset || (s->rq && !s->rq->fin)) { Seg *g = mkseg(0, 0); g->rst = 1; g->at = sim_now_us() + latency(); enq(s->peer, g, 1); }
        else { Seg *g = mkseg(0, 0); g->fin = 1; g->at = sim_now_us() + latency(); enq(s->peer, g, 1); }
    }
}
void sim_sock_close(int fd) { Sock *s = sim_fds[fd].obj; tr("NET close fd=%d id=%d", fd, s->id); sk_close(s, 0); }
int __wrap_shutdown(int fd, int how) { Sock *s = getsk(fd); if (!s) return -1; if (how != 0 && s->peer && !s->peer->closed) { Seg *g = mkseg(0, 0); g->fin = 1; g->at = sim_now_us() + latency(); enq(s->peer, g, 1); } return 0; }
int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t l) {
    NF(C_SOCKOPT); Sock *s = getsk(fd); if (!s) return -1;
    if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) { const struct timeval *tv = v; uint64_t us = (uint64_t)tv->tv_sec*1000000 + tv->tv_usec; if (o == SO_RCVTIMEO) s->rto = us; else s->sto = us; }
    return 0;
}
int __wrap_getaddrinfo(const char *h, const char *sv, const struct addrinfo *hint, struct addrinfo **res) {
    SimFault *f = sim_fault(C_GAI); if (f && f->kind == F_ERR) return f->arg == 4 ? EAI_FAIL : EAI_AGAIN;
    struct in_addr a;
    if (!inet_aton(h, &a)) { if (!strcmp(h, "localhost")) a.s_addr = htonl(0x7f000001); else return EAI_NONAME; }
    struct addrinfo *r = calloc(1, sizeof *r + sizeof(struct sockaddr_in)); struct sockaddr_in *in = (void*)(r+1);
    in->sin_family = AF_INET; in->sin_addr = a; r->ai_family = AF_INET; r->ai_addrlen = sizeof *in; r->ai_addr = (void*)in; *res = r; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *r) { free(r); }
int __wrap_ioctl(int fd, unsigned long rq, ...) { errno = ENOTTY; return -1; }
/* select */
typedef struct { int n; fd_set *r, *w; } Sel;
static int sel_count(void *v) {
    Sel *s = v; int c = 0;
    for (int i = 0; i < s->n && i < FD_SETSIZE; i++) {
        int r = s->r && FD_ISSET(i, s->r), w = s->w && FD_ISSET(i, s->w); if (!r && !w) continue;
        if (i >= NFD || sim_fds[i].kind == FD_FREE) return -1;
        if (sim_fds[i].kind != FD_SOCK) { c++; continue; }
        Sock *k = sim_fds[i].obj; if (r && readable(k)) c++; if (w && writable(k)) c++;
    }
    return c;
}
static int pr_sel(void *v) { return sel_count(v) != 0; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    SimFault *f = sim_fault(C_SELECT);
    sim_yield(1);
    if (f && (f->kind == F_EINTR)) { errno = EINTR; return -1; }
    if (f && f->kind == F_ERR) { errno = f->arg; return -1; }
    uint64_t dl = tv ? sim_now_us() + (uint64_t)tv->tv_sec*1000000 + tv->tv_usec : UINT64_MAX;
    Sel s = { n, r, w };
    int k = sel_count(&s);
    if (k < 0) { errno = EBADF; return -1; }
    if (k == 0) { int b = sim_block(pr_sel, &s, dl, 1); if (b < 0) { errno = EINTR; return -1; } }
    int c = 0;
    for (int i = 0; i < n && i < FD_SETSIZE; i++) {
        Sock *q = i < NFD && sim_fds[i].kind == FD_SOCK ? sim_fds[i].obj : 0;
        if (r && FD_ISSET(i, r)) { if (q && readable(q)) c++; else FD_CLR(i, r); }
        if (w && FD_ISSET(i, w)) { if (q && writable(q)) c++; else FD_CLR(i, w); }
    }
    if (e) FD_ZERO(e);
    return c;
}
int __wrap_poll(void *p, unsigned long n, int t) { errno = ENOSYS; return -1; }
int __wrap_getpeername(int fd, struct sockaddr *sa, socklen_t *l) { errno = ENOTCONN; return -1; }
int __wrap_getsockopt(int fd, int a, int b, void *v, socklen_t *l) { errno = ENOPROTOOPT; return -1; }

/* ---- stub peers: remote ends outside the program under test ---- */
int sim_peer_connect(int port) {
    if (npeers >= 64) return -1;
    Sock *s = mk(SOCK_STREAM); s->stub = 1; if (!do_connect(s, port, 0)) return -1; peers[npeers] = s; tr("PEERCONN %d id=%d", npeers, s->id); return npeers++;
}
int sim_peer_udp(int port) { if (npeers >= 64) return -1; Sock *s = mk(SOCK_DGRAM); s->stub = 1; s->port = port ? port : ++eph; peers[npeers] = s; return npeers++; }
int sim_peer_listen(int port) { if (npeers >= 64) return -1; Sock *s = mk(SOCK_STREAM); s->stub = 1; s->port = port; s->state = ST_LISTEN; s->backlog = 16; peers[npeers] = s; return npeers++; }
int sim_peer_accept(int p) { Sock *s = p >= 0 && p < npeers ? peers[p] : 0; if (!s || !acc_ready(s) || npeers >= 64) return -1; Sock *c = s->acc[0]; memmove(s->acc, s->acc+1, --s->nacc * sizeof *s->acc); memmove(s->acc_at, s->acc_at+1, s->nacc * sizeof *s->acc_at); peers[npeers] = c; tr("PEERACC %d id=%d peer=%d", npeers, c->id, c->peer ? c->peer->id : -1); return npeers++; }
int sim_peer_port(int p) { return p >= 0 && p < npeers ? peers[p]->port : -1; }
long sim_peer_send(int p, const char *b, long n, int port) {
    Sock *s = p >= 0 && p < npeers ? peers[p] : 0; if (!s || s->closed) return -1;
    if (s->type == SOCK_DGRAM) return udp_send(s, b, n, port ? port : s->cport, 0); /* port 0: answer the last sender */
    if (!s->peer || s->peer->closed || s->rst) return -1; wire(s, b, n); return n;
}
/* returns bytes read into b; -2 end of stream, -3 reset, 0 nothing yet */
long sim_peer_recv(int p, char *b, long n) {
    Sock *s = p >= 0 && p < npeers ? peers[p] : 0; if (!s) return -4; uint64_t now = sim_now_us(); long got = 0;
    while (s->rq && s->rq->at <= now && got < n) {
        Seg *g = s->rq; if (g->fin) return got ? got : -2; if (g->rst) return got ? got : -3;
        if (s->type == SOCK_DGRAM) { got = g->len < n ? g->len : n; memcpy(b, g->data, got); s->rq = g->next; s->rbytes -= g->len; s->cport = ntohs(g->from.sin_port); free(g); return got; }
        long k = g->len - g->off; if (k > n-got) k = n-got; memcpy(b+got, g->data+g->off, k); got += k; g->off += k; s->rbytes -= k;
        if (g->off == g->len) { s->rq = g->next; free(g); }
    }
    if (!got && s->rst) return -3;
    return got;
}
void sim_peer_close(int p, int reset) { Sock *s = p >= 0 && p < npeers ? peers[p] : 0; if (s) sk_close(s, reset); }
