// Deterministic in-process world for librmc: a fake network (multicast with scripted loss, duplication and
// reordering; TCP streams with scripted segmentation), a fake clock, and a script interpreter that drives real
// rmc_pub_context_t / rmc_sub_context_t objects through their public API. Everything the library does that a user
// or a peer could observe (callbacks, bytes on the wire, descriptors, results) is written out as one JSON record
// per API call. Nothing here looks inside the library's structures.
//
// The library objects are linked with -Wl,--wrap for the system calls below.
#define _GNU_SOURCE 1
#include "reliable_multicast.h"
#include "rmc_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

// hook: lets a publisher start with a large packet number
extern void rmc_pub_verification_set_next_pid(rmc_pub_context_t* ctx, packet_id_t next_pid) __attribute__((weak));

#define IDX_MCAST 0x7FFE
#define IDX_LISTEN 0x7FFD
#define MAXN 48
#define NW 2              // worlds: networks that know nothing of each other, in one process
#define MAXFD 4096         // per world
#define MAXCONN 1024       // per world
#define MAXPEND 8192
#define FD0 1000
#define HDR 20
#define QCAP 65399     // bytes a connection's queue can hold
// the harness's own memory is not part of the accounts
#define malloc __real_malloc
#define realloc __real_realloc
#define free __real_free
extern void* __real_malloc(size_t); extern void* __real_calloc(size_t, size_t); extern void* __real_realloc(void*, size_t); extern void __real_free(void*);

// The wire format, restated here on purpose (PROTOCOL is what peers rely on).
typedef struct __attribute__((packed)) {
    uint64_t pid; uint32_t node; uint16_t plen; uint32_t ip; uint16_t port;
} whdr_t;

// ---------------------------------------------------------------------------------------------- output buffer
static char* ob; static size_t ol, oc;
static void O(const char* fmt, ...)
{
    va_list ap; int n;
    for (;;) {
        va_start(ap, fmt); n = vsnprintf(ob + ol, oc - ol, fmt, ap); va_end(ap);
        if (ol + n < oc) { ol += n; return; }
        oc = oc ? oc * 2 : 1 << 16; ob = realloc(ob, oc);
        if (oc < (size_t) n + ol) { oc = n + ol + 1024; ob = realloc(ob, oc); }
    }
}
static int outfd = 1;
static void flush_out(void)
{
    size_t p = 0;
    extern ssize_t __real_write(int, const void*, size_t);
    while (p < ol) { ssize_t r = __real_write(outfd, ob + p, ol - p); if (r <= 0) _exit(97); p += r; }
    ol = 0;
}

// ---------------------------------------------------------------------------------------------- virtual clock
static int64_t vbase = 0, vnow = 1000000, unit = 1;    // unit: microseconds per unit of the times in the log
// Packet numbers in scripts and traces are logical; on the wire they are shifted by pidbase, and from jump_k + 2 on
// also by jump (number jump_k + 1 is never used with a jump, so that the gap stays a gap).
static uint64_t pidbase = 0, jump_k = 0, jump = 0;

static uint64_t wpid(uint64_t n) { return n ? n + pidbase + (jump && n > jump_k + 1 ? jump : 0) : 0; }
static long lpid(uint64_t pid)
{
    uint64_t d = pid - pidbase;
    if (!pid) return 0;
    if (pid <= pidbase) return -7;
    if (jump && d > jump_k + 1) { if (d <= jump_k + 1 + jump) return -8; d -= jump; }
    if (d > 1000000000ULL) return -7;
    return (long) d;
}
// the bounds of a scripted peer's acknowledgement may be any number; what counts is which logical numbers lie between them
static long apid(uint64_t pid, int hi)
{
    uint64_t d = pid - pidbase;
    if (pid <= pidbase) return 0;
    if (jump && d > jump_k + 1) { if (d <= jump_k + 1 + jump) return jump_k + (hi ? 1 : 2); d -= jump; }
    return d > 1000000000ULL ? 1000000000L : (long) d;
}
static const char* ips(uint32_t h)
{
    static char b[8][20]; static int k; char* r = b[k++ & 7];
    snprintf(r, 20, "%u.%u.%u.%u", h >> 24, (h >> 16) & 255, (h >> 8) & 255, h & 255);
    return r;
}
static uint32_t hash(const uint8_t* d, uint32_t n)
{
    uint32_t h = 2166136261u, i;
    for (i = 0; i < n; ++i) { h ^= d[i]; h *= 16777619u; h ^= h >> 15; }
    h ^= h >> 13; h *= 0x5bd1e995; h ^= h >> 15;
    return h & 0x3fffffff;
}
static int W = 0;      // the scenario's current world
static void fill(uint8_t* d, uint32_t n, uint32_t seed)
{
    uint32_t x = (seed + W * 777777u) * 2654435761u + 0x9E3779B9u, i;
    for (i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; d[i] = x >> 11; }
}

// ---------------------------------------------------------------------------------------------- world
enum { T_NONE, T_UDP, T_TCP };
typedef struct { long end; uint8_t t; long pid; uint32_t node; uint32_t ip; uint16_t port; uint32_t len, h; long hi; } cmd_t;
typedef struct {
    uint8_t* b; long n, cap, rd;            // bytes written, bytes consumed by the reader
    cmd_t* c; int nc, cc, wi, ri;           // decoded commands; next to report as written / as read
    long pstart; int bad; int tosub, raw;   // parser state; raw: written by a scripted peer
} stream_t;
typedef struct {
    int cid, used, a, b;                    // connector and listener owner (node numbers)
    int fda, fdb; uint32_t aip, bip; uint16_t aport, bport;
    int aclosed, bclosed, refused, backlog;
    stream_t ab, ba;
} conn_t;
typedef struct { int type, open, owner, nonblock, bound, listening; uint32_t bip; uint16_t bport; conn_t* c; int side; int soerr; int mcast_member, estab; } sock_t;

// Descriptors, connections, datagrams, faults and names belong to a world; the clock is common.
static sock_t fds[NW * MAXFD]; static int wnfd[NW], wnconn[NW], wndg[NW], wnn[NW];
#define nfd wnfd[W]
#define nconn wnconn[W]
#define ndg wndg[W]
static conn_t wconns[NW * MAXCONN];
#define conns (wconns + W * MAXCONN)

typedef struct { uint8_t* d; uint32_t len, src; int id; int from; } dg_t;
static dg_t wdgs[NW * MAXPEND];
#define dgs (wdgs + W * MAXPEND)

typedef struct { int fd, idx, act, live; } poll_t;
typedef struct { uint8_t* p; uint32_t len; int id, live; uint32_t h; uint64_t ud; } buf_t;

enum { N_NONE, N_PUB, N_SUB, N_RAW };
typedef struct {
    int kind, num, w, wnum; char nm[8]; uint32_t ip;
    rmc_pub_context_t* p; rmc_sub_context_t* s;
    uint64_t ud; int alive;
    poll_t poll[512]; int np;
    int has_pmod, has_prem, nores; long mem;        // mem: allocations of the library on behalf of this context that are still live
    // pub
    int acb_on, acb_ret; uint32_t acb_len, acb_seed; int ccb_ret; int has_free;
    buf_t* bufs; int nb, cb;
    // sub
    int ann_ret; int auto_disp; int has_alloc;
    int pend[MAXPEND]; int npend; int rxq[MAXPEND]; int nrx;    // datagrams in the network / in the socket buffer
    int max, lport;
    struct { char ev[6]; int skip; char line[100]; } hooks[24]; int nh;      // calls to make from within callbacks
    // raw
    uint16_t rport; int rlisten, anyport;
} node_t;
static node_t nodes[MAXN]; static int nn = 0;
static node_t* cur = 0;           // whose API call is running
static char opk[16];

// A call that opens, sends or reports without end is reported like a crash.
static void runaway(const char* what)
{
    ol = 0; O("\n{\"e\":\"crash\",\"w\":\"runaway: %s\",\"k\":\"%s\"}\n", what, opk); flush_out(); _exit(0);
}

static struct { char name[16]; int nth, err, seen; } wfaults[NW][8]; static int wnfaults[NW];
#define faults wfaults[W]
#define nfaults wnfaults[W]
static void fault_ev(const char* name, int err);
static int fault(const char* name)
{
    int i;
    for (i = 0; i < nfaults; ++i)
        if (!strcmp(faults[i].name, name) && ++faults[i].seen == faults[i].nth) { fault_ev(name, faults[i].err); errno = faults[i].err; return 1; }
    return 0;
}
// bytes the next writes / reads may move; -1: no limit; -2, -3, -4: one more than, exactly, one less than the first segment; -5: all but one
static long wcap = -1, rcap = -1;
static long relcap(long cap, const struct iovec* iov, int n, long tot)
{
    long f = n > 0 ? (long) iov[0].iov_len : 0, k = cap == -2 ? f + 1 : cap == -3 ? f : cap == -4 ? f - 1 : tot - 1;
    if (cap >= -1) return cap;
    return k < 1 ? 1 : k;
}
static int evn = 0;
#define EV(...) do { if (evn > 100000) runaway("events"); O(evn++ ? ",{" : "{"); O(__VA_ARGS__); O("}"); } while (0)

static void fault_ev(const char* name, int err) { EV("\"e\":\"flt\",\"w\":\"%s\",\"er\":%d", name, err); }
static int isf(int fd) { int i = fd - FD0; return i >= 0 && i < NW * MAXFD && i % MAXFD < wnfd[i / MAXFD]; }
static sock_t* F(int fd) { return isf(fd) && fds[fd - FD0].open ? &fds[fd - FD0] : 0; }
static stream_t* txs(sock_t* s) { return s->side == 0 ? &s->c->ab : &s->c->ba; }
static stream_t* rxs(sock_t* s) { return s->side == 0 ? &s->c->ba : &s->c->ab; }
static int peer_closed(sock_t* s) { return s->side == 0 ? s->c->bclosed : s->c->aclosed; }

static uint16_t rd16(const uint8_t* p) { uint16_t v; memcpy(&v, p, 2); return v; }
static void parse(stream_t* s)
{
    for (;;) {
        long av = s->n - s->pstart; uint8_t* p = s->b + s->pstart; long need; cmd_t c; memset(&c, 0, sizeof c);
        if (s->bad || av < 1) return;
        if (s->tosub && p[0] == 1) {
            whdr_t h;
            if (av < 1 + HDR) return;
            memcpy(&h, p + 1, HDR); need = 1 + HDR + h.plen;
            if (need > QCAP) { need = 1 + HDR; s->bad = 1; c.len = p[0]; goto put; }     // can never be complete
            if (av < need) return;
            c.t = 1; c.pid = lpid(h.pid); c.node = h.node; c.ip = h.ip; c.port = h.port; c.len = h.plen; c.h = hash(p + 1 + HDR, h.plen);
        } else if (!s->tosub && p[0] == 2) {
            uint64_t lo, hi; need = 17;
            if (av < need) return;
            memcpy(&lo, p + 1, 8); memcpy(&hi, p + 9, 8); c.t = 2; c.pid = s->raw ? apid(lo, 0) : lpid(lo); c.hi = s->raw ? apid(hi, 1) : lpid(hi);
            if (s->raw && lo > hi) { c.pid = 1; c.hi = 0; }
        } else if (!s->tosub && p[0] == 3) {
            if (av < 3) return;
            need = 3 + rd16(p + 1);
            if (need > QCAP) { need = 3; s->bad = 1; c.len = p[0]; goto put; }
            if (av < need) return;
            c.t = 3; c.len = need - 3; c.h = hash(p + 3, c.len);
        } else { c.t = 0; c.len = p[0]; need = 1; s->bad = 1; }
    put:
        c.end = s->pstart + need; s->pstart = c.end;
        if (s->nc == s->cc) { s->cc = s->cc ? s->cc * 2 : 16; s->c = realloc(s->c, s->cc * sizeof(cmd_t)); }
        s->c[s->nc++] = c;
    }
}
static void sput(stream_t* s, const uint8_t* d, long n)
{
    if (s->n + n > s->cap) { s->cap = (s->n + n) * 2 + 1024; s->b = realloc(s->b, s->cap); }
    memcpy(s->b + s->n, d, n); s->n += n; parse(s);
}
static void ocmds(stream_t* s, int* ix, long upto)
{
    int k = 0;
    O("\"cm\":[");
    while (*ix < s->nc && s->c[*ix].end <= upto) {
        cmd_t* c = &s->c[(*ix)++];
        O(k++ ? "," : "");
        switch (c->t) {
        case 1: O("{\"t\":1,\"pid\":%ld,\"len\":%u,\"h\":%u,\"node\":\"%x\",\"ip\":\"%s\",\"port\":%u}", c->pid, c->len, c->h, c->node, ips(c->ip), c->port); break;
        case 2: O("{\"t\":2,\"lo\":%ld,\"hi\":%ld}", c->pid, c->hi); break;
        case 3: O("{\"t\":3,\"len\":%u,\"h\":%u}", c->len, c->h); break;
        default: O("{\"t\":0,\"b\":%u}", c->len);
        }
    }
    O("]");
}

// ---------------------------------------------------------------------------------------------- system calls
#define R(ret, name, args) extern ret __real_##name args
R(int, close, (int)); R(ssize_t, read, (int, void*, size_t)); R(ssize_t, write, (int, const void*, size_t));
R(int, fcntl, (int, int, ...)); R(ssize_t, readv, (int, const struct iovec*, int)); R(ssize_t, writev, (int, const struct iovec*, int));
R(int, clock_gettime, (clockid_t, struct timespec*)); R(int, ioctl, (int, unsigned long, ...));

static int newfd(int type)
{
    int i = W * MAXFD + nfd++;
    if (nfd >= MAXFD) runaway("descriptors");
    memset(&fds[i], 0, sizeof(sock_t)); fds[i].type = type; fds[i].open = 1; fds[i].owner = cur ? cur->num : -1; fds[i].bport = 0;
    return FD0 + i;
}
int __wrap_socket(int dom, int type, int proto)
{
    int fd;
    if (fault("socket")) return -1;
    fd = newfd((type & 0xf) == SOCK_DGRAM ? T_UDP : T_TCP);
    if (type & SOCK_NONBLOCK) F(fd)->nonblock = 1;
    EV("\"e\":\"so\",\"fd\":%d,\"t\":\"%s\"", fd, F(fd)->type == T_UDP ? "u" : "t");
    return fd;
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l)
{
    sock_t* s = F(fd); const struct sockaddr_in* i = (const struct sockaddr_in*) a;
    if (!s) { errno = EBADF; return -1; }
    if (fault("bind")) return -1;
    s->bound = 1; s->bip = ntohl(i->sin_addr.s_addr); s->bport = ntohs(i->sin_port);
    if (!s->bport) s->bport = 40000 + fd;
    EV("\"e\":\"bind\",\"fd\":%d,\"ip\":\"%s\",\"port\":%u,\"ap\":%u", fd, ips(s->bip), ntohs(i->sin_port), s->bport);
    return 0;
}
int __wrap_listen(int fd, int n)
{
    sock_t* s = F(fd);
    if (!s) { errno = EBADF; return -1; }
    if (fault("listen")) return -1;
    s->listening = 1;
    EV("\"e\":\"lst\",\"fd\":%d", fd);
    return 0;
}
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l)
{
    sock_t* s = F(fd); struct sockaddr_in* i = (struct sockaddr_in*) a;
    if (!s) { errno = EBADF; return -1; }
    if (fault("getsockname")) return -1;
    memset(i, 0, sizeof *i); i->sin_family = AF_INET; i->sin_port = htons(s->bport); i->sin_addr.s_addr = htonl(s->bip); *l = sizeof *i;
    return 0;
}
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* l)
{
    sock_t* s = F(fd); struct sockaddr_in* i = (struct sockaddr_in*) a;
    if (!s || !s->c) { errno = ENOTCONN; return -1; }
    memset(i, 0, sizeof *i); i->sin_family = AF_INET;
    i->sin_port = htons(s->side ? s->c->aport : s->c->bport); i->sin_addr.s_addr = htonl(s->side ? s->c->aip : s->c->bip); *l = sizeof *i;
    return 0;
}
int __wrap_setsockopt(int fd, int lev, int opt, const void* v, socklen_t l)
{
    sock_t* s = F(fd);
    if (!s) { errno = EBADF; return -1; }
    /* only the options that the library cannot do without: a failure to set another one may well be ignored */
    if (((lev == SOL_SOCKET && (opt == SO_REUSEADDR || opt == SO_REUSEPORT || opt == SO_RCVBUF)) || lev == IPPROTO_IP ||
         (lev == IPPROTO_TCP && opt == TCP_NODELAY)) && fault("setsockopt")) return -1;
    if (lev == IPPROTO_IP && opt == IP_ADD_MEMBERSHIP) {
        const struct ip_mreq* m = v;
        s->mcast_member = 1;
        EV("\"e\":\"mem\",\"fd\":%d,\"grp\":\"%s\",\"if\":\"%s\"", fd, ips(ntohl(m->imr_multiaddr.s_addr)), ips(ntohl(m->imr_interface.s_addr)));
    } else if (lev == IPPROTO_IP && opt == IP_MULTICAST_IF) {
        const struct in_addr* m = v;
        EV("\"e\":\"mif\",\"fd\":%d,\"if\":\"%s\"", fd, ips(ntohl(m->s_addr)));
    } else if (lev == IPPROTO_IP && opt == IP_MULTICAST_TTL)
        EV("\"e\":\"ttl\",\"fd\":%d,\"v\":%d", fd, *(const int*) v);
    return 0;
}
int __wrap_getsockopt(int fd, int lev, int opt, void* v, socklen_t* l)
{
    sock_t* s = F(fd);
    if (!s) { errno = EBADF; return -1; }
    if (fault("getsockopt")) return -1;
    if (lev == SOL_SOCKET && opt == SO_ERROR) {
        int e = s->soerr; s->soerr = 0; if (!e) s->estab = 1; memcpy(v, &e, sizeof e); *l = sizeof e;
        EV("\"e\":\"soe\",\"fd\":%d,\"v\":%d", fd, e);
        return 0;
    }
    memset(v, 0, *l); return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap; long a; sock_t* s = F(fd);
    va_start(ap, cmd); a = va_arg(ap, long); va_end(ap);
    if (!isf(fd)) return __real_fcntl(fd, cmd, a);
    if (!s) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return s->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
    if (cmd == F_SETFL) s->nonblock = (a & O_NONBLOCK) != 0;
    return 0;
}
int __wrap_ioctl(int fd, unsigned long rq, ...)
{
    va_list ap; void* a; sock_t* s = F(fd);
    va_start(ap, rq); a = va_arg(ap, void*); va_end(ap);
    if (!isf(fd)) return __real_ioctl(fd, rq, a);
    if (!s) { errno = EBADF; return -1; }
    if (rq == FIONBIO) s->nonblock = *(int*) a != 0;
    return 0;
}
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l)
{
    sock_t* s = F(fd); const struct sockaddr_in* i = (const struct sockaddr_in*) a; conn_t* c; int k, f, now = 0, was = errno;
    uint32_t ip = ntohl(i->sin_addr.s_addr); uint16_t port = ntohs(i->sin_port);
    if (!s) { errno = EBADF; return -1; }
    if (nconn >= MAXCONN) runaway("connections");
    c = &conns[nconn]; memset(c, 0, sizeof *c); c->cid = W * MAXCONN + ++nconn; c->used = 1;
    c->a = cur->num; c->fda = fd; c->fdb = -1; c->b = -1; c->aip = cur->ip; c->aport = 50000 + c->cid; c->bip = ip; c->bport = port; c->ba.tosub = 1;
    s->c = c; s->side = 0;
    if (fault("connect")) {
        int e = errno;
        EV("\"e\":\"con\",\"fd\":%d,\"c\":%d,\"ip\":\"%s\",\"port\":%u,\"r\":%d", fd, c->cid, ips(ip), port, e);
        if (!e) { now = 1; errno = was; }
        else if (e != EINPROGRESS) { c->used = 0; errno = e; return -1; }
    } else {
        EV("\"e\":\"con\",\"fd\":%d,\"c\":%d,\"ip\":\"%s\",\"port\":%u,\"r\":0", fd, c->cid, ips(ip), port);
    }
    // who listens there?
    for (k = 0; k < nn; ++k) {
        node_t* n = &nodes[k];
        if (n->w != W) continue;
        if (n->kind == N_RAW && n->rlisten && n->ip == ip && (n->anyport || n->rport == port)) { c->b = k; c->backlog = 0; c->fdb = -2; break; }
        if (n->kind != N_PUB || n->ip != ip) continue;
        for (f = W * MAXFD; f < W * MAXFD + nfd; ++f)
            if (fds[f].open && fds[f].listening && fds[f].owner == k && fds[f].bport == port && (fds[f].bip == 0 || fds[f].bip == ip)) { c->b = k; c->backlog = FD0 + f; break; }
        if (c->b >= 0) break;
    }
    if (c->b < 0) { c->refused = 1; s->soerr = ECONNREFUSED; }
    if (!s->nonblock) EV("\"e\":\"blk\",\"w\":\"connect\"");
    if (now && !c->refused) return 0;   // established at once; errno stays what it was
    errno = EINPROGRESS; return -1;
}
static int do_accept(int fd, struct sockaddr* a, socklen_t* l, int flags)
{
    sock_t* s = F(fd); int k, nf; conn_t* c = 0; struct sockaddr_in* i = (struct sockaddr_in*) a;
    if (!s) { errno = EBADF; return -1; }
    if (fault("accept")) { EV("\"e\":\"acc\",\"fd\":-1,\"c\":0,\"r\":%d", errno); return -1; }
    for (k = 0; k < nconn; ++k) if (conns[k].used && conns[k].backlog == fd && conns[k].fdb == -1) { c = &conns[k]; break; }
    if (!c) {
        if (!s->nonblock) EV("\"e\":\"blk\",\"w\":\"accept\"");
        EV("\"e\":\"acc\",\"fd\":-1,\"c\":0,\"r\":%d", EAGAIN);
        errno = EAGAIN; return -1;
    }
    nf = newfd(T_TCP); c->fdb = nf; s = F(nf); s->c = c; s->side = 1;
    if (flags & SOCK_NONBLOCK) s->nonblock = 1;
    if (i) { memset(i, 0, sizeof *i); i->sin_family = AF_INET; i->sin_port = htons(c->aport); i->sin_addr.s_addr = htonl(c->aip); if (l) *l = sizeof *i; }
    EV("\"e\":\"acc\",\"fd\":%d,\"c\":%d,\"ip\":\"%s\",\"port\":%u,\"r\":0", nf, c->cid, ips(c->aip), c->aport);
    return nf;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) { return do_accept(fd, a, l, 0); }
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) { return do_accept(fd, a, l, fl); }
int __wrap_shutdown(int fd, int how) { if (!F(fd)) { errno = EBADF; return -1; } return 0; }
int __wrap_close(int fd)
{
    sock_t* s = F(fd);
    if (!isf(fd)) {
        if (cur) { EV("\"e\":\"cl\",\"fd\":%d", fd); if (fd < 3) { errno = EBADF; return -1; } }
        return cur ? (errno = EBADF, -1) : __real_close(fd);
    }
    EV("\"e\":\"cl\",\"fd\":%d", fd);
    if (!s) { errno = EBADF; return -1; }
    s->open = 0;
    if (cur && !cur->has_prem) { int k; for (k = 0; k < cur->np; ++k) if (cur->poll[k].live && cur->poll[k].fd == fd) { memmove(&cur->poll[k], &cur->poll[k + 1], (cur->np - k - 1) * sizeof(poll_t)); --cur->np; break; } }
    if (s->c) { if (s->side == 0) s->c->aclosed = 1; else s->c->bclosed = 1; }
    return 0;
}

// datagrams and streams
static ssize_t dg_send(int fd, const struct iovec* iov, int n, const struct sockaddr_in* to)
{
    sock_t* s = F(fd); size_t tot = 0; int i, k; uint8_t* d; whdr_t h; dg_t* g; int err = 0;
    if (!s) { errno = EBADF; return -1; }
    for (i = 0; i < n; ++i) tot += iov[i].iov_len;
    d = malloc(tot + 1); tot = 0;
    for (i = 0; i < n; ++i) { memcpy(d + tot, iov[i].iov_base, iov[i].iov_len); tot += iov[i].iov_len; }
    memset(&h, 0, sizeof h); if (tot >= HDR) memcpy(&h, d, HDR);
    if (fault("sendmsg")) err = errno;
    if (!err && tot > 65507) err = EMSGSIZE;
    EV("\"e\":\"mtx\",\"d\":%d,\"sz\":%zu,\"pid\":%ld,\"node\":\"%x\",\"plen\":%u,\"ip\":\"%s\",\"port\":%u,\"len\":%ld,\"h\":%u,\"gip\":\"%s\",\"gport\":%u,\"r\":%d",
       err ? 0 : ndg + 1, tot, lpid(h.pid), h.node, h.plen, ips(h.ip), h.port, (long) tot - HDR, tot >= HDR ? hash(d + HDR, tot - HDR) : 0,
       to ? ips(ntohl(to->sin_addr.s_addr)) : "", to ? ntohs(to->sin_port) : 0, err);
    if (err) { free(d); errno = err; return -1; }
    if (ndg >= MAXPEND) runaway("datagrams");
    g = &dgs[ndg++]; g->d = d; g->len = tot; g->src = cur->ip; g->id = ndg; g->from = cur->num;
    for (k = 0; k < nn; ++k) if (nodes[k].w == W && nodes[k].kind == N_SUB && nodes[k].npend < MAXPEND) nodes[k].pend[nodes[k].npend++] = ndg - 1;
    return tot;
}
static ssize_t st_write(int fd, const struct iovec* iov, int n)
{
    sock_t* s = F(fd); long tot = 0, k; int i; stream_t* t; uint8_t* d; int idx = -1, j;
    if (!s || !s->c) { errno = EBADF; return -1; }
    for (i = 0; i < n; ++i) tot += iov[i].iov_len;
    EV("\"e\":\"wtry\",\"fd\":%d", fd);
    if (fault("writev")) return -1;
    if (s->c->refused || (s->side == 0 ? s->c->aclosed : s->c->bclosed)) { errno = ENOTCONN; return -1; }
    if (peer_closed(s)) { EV("\"e\":\"ttx\",\"fd\":%d,\"c\":%d,\"n\":0,\"cm\":[]", fd, s->c->cid); errno = EPIPE; return -1; }
    k = tot; wcap = relcap(wcap, iov, n, tot); if (wcap >= 0 && k > wcap) k = wcap;
    if (k == 0 && tot) { if (!s->nonblock) EV("\"e\":\"blk\",\"w\":\"write\""); errno = EAGAIN; return -1; }
    if (wcap >= 0) wcap -= k;
    d = malloc(tot + 1); tot = 0;
    for (i = 0; i < n; ++i) { memcpy(d + tot, iov[i].iov_base, iov[i].iov_len); tot += iov[i].iov_len; }
    t = txs(s); sput(t, d, k); free(d);
    for (j = 0; j < cur->np; ++j) if (cur->poll[j].live && cur->poll[j].fd == fd) idx = cur->poll[j].idx;
    O(evn++ ? ",{" : "{"); O("\"e\":\"ttx\",\"i\":%d,\"fd\":%d,\"c\":%d,\"n\":%ld,", idx, fd, s->c->cid, k); ocmds(t, &t->wi, t->n); O("}");
    return k;
}
static ssize_t st_read(int fd, const struct iovec* iov, int n)
{
    sock_t* s = F(fd); long want = 0, k; int i; stream_t* r; int idx = -1, j;
    if (!s || !s->c) { errno = EBADF; return -1; }
    for (i = 0; i < n; ++i) want += iov[i].iov_len;
    for (j = 0; j < cur->np; ++j) if (cur->poll[j].live && cur->poll[j].fd == fd) idx = cur->poll[j].idx;
    if (fault("readv")) { int e = errno; EV("\"e\":\"trx\",\"i\":%d,\"fd\":%d,\"c\":%d,\"n\":-1,\"er\":%d,\"w\":%ld,\"cm\":[]", idx, fd, s->c->cid, e, want); errno = e; return -1; }
    r = rxs(s);
    k = r->n - r->rd;
    if (k == 0) {
        if (peer_closed(s)) { EV("\"e\":\"trx\",\"i\":%d,\"fd\":%d,\"c\":%d,\"n\":0,\"er\":0,\"w\":%ld,\"cm\":[]", idx, fd, s->c->cid, want); return 0; }
        if (!s->nonblock) EV("\"e\":\"blk\",\"w\":\"read\"");
        EV("\"e\":\"trx\",\"i\":%d,\"fd\":%d,\"c\":%d,\"n\":-1,\"er\":%d,\"w\":%ld,\"cm\":[]", idx, fd, s->c->cid, EAGAIN, want);
        errno = EAGAIN; return -1;
    }
    if (k > want) k = want;
    rcap = relcap(rcap, iov, n, k);
    if (rcap >= 0) { if (k > rcap) k = rcap;
        if (k == 0) { EV("\"e\":\"trx\",\"i\":%d,\"fd\":%d,\"c\":%d,\"n\":-1,\"er\":%d,\"w\":%ld,\"cm\":[]", idx, fd, s->c->cid, EAGAIN, want); errno = EAGAIN; return -1; }
        rcap -= k;
    }
    want = k;
    for (i = 0; i < n && want; ++i) {
        long m = iov[i].iov_len < (size_t) want ? (long) iov[i].iov_len : want;
        memcpy(iov[i].iov_base, r->b + r->rd, m); r->rd += m; want -= m;
    }
    O(evn++ ? ",{" : "{"); O("\"e\":\"trx\",\"i\":%d,\"fd\":%d,\"c\":%d,\"n\":%ld,\"er\":0,", idx, fd, s->c->cid, k); ocmds(r, &r->ri, r->rd); O("}");
    return k;
}
static ssize_t dg_recv(int fd, void* b, size_t l, struct sockaddr_in* from, socklen_t* fl)
{
    sock_t* s = F(fd); node_t* n; dg_t* g; whdr_t h; size_t k; uint32_t pl;
    if (!s) { errno = EBADF; return -1; }
    n = &nodes[s->owner];
    if (n->kind == N_PUB) { if (fault("recvfrom")) return -1; errno = EAGAIN; return -1; }
    if (fault("recvfrom")) { int e = errno; EV("\"e\":\"mrx\",\"d\":0,\"sz\":-1,\"er\":%d", e); errno = e; return -1; }
    if (!n->nrx) { errno = EAGAIN; return -1; }
    g = &dgs[n->rxq[0]]; memmove(n->rxq, n->rxq + 1, --n->nrx * sizeof(int));
    k = g->len < l ? g->len : l; memcpy(b, g->d, k);
    if (from) { memset(from, 0, sizeof *from); from->sin_family = AF_INET; from->sin_addr.s_addr = htonl(g->src); from->sin_port = htons(6000); if (fl) *fl = sizeof *from; }
    memset(&h, 0, sizeof h); if (g->len >= HDR) memcpy(&h, g->d, HDR);
    pl = g->len >= HDR ? g->len - HDR : 0; if (pl > h.plen) pl = h.plen;
    EV("\"e\":\"mrx\",\"d\":%d,\"sz\":%u,\"er\":0,\"pid\":%ld,\"node\":\"%x\",\"plen\":%u,\"ip\":\"%s\",\"port\":%u,\"h\":%u,\"src\":\"%s\",\"cut\":%d",
       g->id, g->len, lpid(h.pid), h.node, h.plen, ips(h.ip), h.port, g->len >= HDR ? hash(g->d + HDR, pl) : 0, ips(g->src), g->len > l);
    return k;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int fl)
{
    sock_t* s = F(fd);
    if (s && s->type == T_TCP) return st_write(fd, m->msg_iov, m->msg_iovlen);
    return dg_send(fd, m->msg_iov, m->msg_iovlen, m->msg_name);
}
ssize_t __wrap_sendto(int fd, const void* b, size_t l, int fl, const struct sockaddr* a, socklen_t al)
{
    struct iovec v = { (void*) b, l }; sock_t* s = F(fd);
    if (s && s->type == T_TCP) return st_write(fd, &v, 1);
    return dg_send(fd, &v, 1, (const struct sockaddr_in*) a);
}
ssize_t __wrap_send(int fd, const void* b, size_t l, int fl) { return __wrap_sendto(fd, b, l, fl, 0, 0); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { if (!isf(fd)) return __real_writev(fd, v, n); return st_write(fd, v, n); }
ssize_t __wrap_write(int fd, const void* b, size_t l) { struct iovec v = { (void*) b, l }; if (!isf(fd)) return __real_write(fd, b, l); return st_write(fd, &v, 1); }
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int fl)
{
    sock_t* s = F(fd); ssize_t r;
    if (s && s->type == T_TCP) return st_read(fd, m->msg_iov, m->msg_iovlen);
    { static uint8_t tmp[70000]; size_t p = 0, i; socklen_t al = sizeof(struct sockaddr_in), cap = 0;
      for (i = 0; i < m->msg_iovlen; ++i) cap += m->msg_iov[i].iov_len;
      r = dg_recv(fd, tmp, cap, m->msg_name, &al);
      for (i = 0; r > 0 && i < m->msg_iovlen && p < (size_t) r; ++i) { size_t k = m->msg_iov[i].iov_len; if (k > r - p) k = r - p; memcpy(m->msg_iov[i].iov_base, tmp + p, k); p += k; }
      return r; }
}
ssize_t __wrap_recvfrom(int fd, void* b, size_t l, int fl, struct sockaddr* a, socklen_t* al)
{
    sock_t* s = F(fd); struct iovec v = { b, l };
    if (s && s->type == T_TCP) return st_read(fd, &v, 1);
    return dg_recv(fd, b, l, (struct sockaddr_in*) a, al);
}
ssize_t __wrap_recv(int fd, void* b, size_t l, int fl) { return __wrap_recvfrom(fd, b, l, fl, 0, 0); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { if (!isf(fd)) return __real_readv(fd, v, n); return st_read(fd, v, n); }
ssize_t __wrap_read(int fd, void* b, size_t l) { struct iovec v = { b, l }; if (!isf(fd)) return __real_read(fd, b, l); return st_read(fd, &v, 1); }

// The system's time, which somebody sets now and then.
static unsigned nops;
static int64_t wall(void) { return vbase + vnow + 86400000000LL - nops / 6 % 3 * 7200000000LL; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t)
{
    static unsigned k; int steady = c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME;
    int64_t v = steady ? vbase + vnow : wall();
    t->tv_sec = v / 1000000; t->tv_nsec = (v % 1000000) * 1000 + k++ * 7919u % 1000;
    return 0;
}
int __wrap_gettimeofday(struct timeval* t, void* z) { int64_t v = wall(); t->tv_sec = v / 1000000; t->tv_usec = v % 1000000; return 0; }
time_t __wrap_time(time_t* t) { time_t v = wall() / 1000000; if (t) *t = v; return v; }

// payload release through plain free()
static void pub_release(node_t* n, void* p, long len, uint64_t ud, int hasud);
#define MEMN (1 << 18)
static struct { void* p; int n; } mems[MEMN]; static int nmem = 0; static long membytes = 0;      // p == 0: never used, p == (void*) 1: removed
static unsigned mslot(void* p) { return ((uintptr_t) p >> 4) * 2654435761u >> 7 & (MEMN - 1); }
static void mem_add(void* p)
{
    unsigned k = mslot(p);
    if (!p) return;
    membytes += malloc_usable_size(p);
    if (++nmem > MEMN / 2 || membytes > 1L << 30) runaway("memory");
    while (mems[k].p && mems[k].p != (void*) 1) k = (k + 1) & (MEMN - 1);
    mems[k].p = p; mems[k].n = cur ? cur->num : -1;
    if (cur) ++cur->mem;
}
static int mem_del(void* p)
{
    unsigned k = mslot(p); int i;
    for (i = 0; i < MEMN && mems[k].p; ++i, k = (k + 1) & (MEMN - 1))
        if (mems[k].p == p) { membytes -= malloc_usable_size(p); mems[k].p = (void*) 1; if (mems[k].n >= 0) --nodes[mems[k].n].mem; return 1; }
    return 0;
}
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) memset(p, 0x5a, n); mem_add(p); return p; }   /* nobody may rely on what fresh memory holds */
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); mem_add(p); return p; }
void* __wrap_realloc(void* o, size_t n) { void* p; if (o) mem_del(o); p = __real_realloc(o, n); mem_add(p); return p; }
void __wrap_free(void* p)
{
    int k, j;
    if (p) mem_del(p);
    if (p && cur && cur->kind == N_PUB && !cur->has_free)
        for (k = cur->nb - 1, j = 0; k >= 0 && j < 4096; --k, ++j) if (cur->bufs[k].p == p && cur->bufs[k].live == 1) { pub_release(cur, p, -1, 0, 0); return; }
    if (p) memset(p, 0x5b, malloc_usable_size(p));      /* nor on what released memory held */
    __real_free(p);
}

// ---------------------------------------------------------------------------------------------- callbacks
static void nested(const char* ev);
static void elsewhere(void);
static int udok(user_data_t u) { return cur && cur->ud == u.u64; }

static void cb_padd(user_data_t u, int fd, rmc_index_t i, rmc_poll_action_t a)
{
    EV("\"e\":\"pa\",\"i\":%d,\"fd\":%d,\"a\":%d,\"ud\":%d", i, fd, a, udok(u));
    if (cur && cur->np < 512) { poll_t* p = &cur->poll[cur->np++]; p->fd = fd; p->idx = i; p->act = a; p->live = 1; }
    elsewhere();
}
static void cb_pmod(user_data_t u, int fd, rmc_index_t i, rmc_poll_action_t o, rmc_poll_action_t a)
{
    int k;
    EV("\"e\":\"pm\",\"i\":%d,\"fd\":%d,\"o\":%d,\"a\":%d,\"ud\":%d", i, fd, o, a, udok(u));
    if (cur) for (k = 0; k < cur->np; ++k) if (cur->poll[k].live && cur->poll[k].idx == i && cur->poll[k].fd == fd) cur->poll[k].act = a;
    elsewhere();
}
static void cb_prem(user_data_t u, int fd, rmc_index_t i)
{
    int k;
    EV("\"e\":\"pr\",\"i\":%d,\"fd\":%d,\"ud\":%d,\"op\":%d", i, fd, udok(u), F(fd) != 0);
    if (cur) for (k = 0; k < cur->np; ++k) if (cur->poll[k].live && cur->poll[k].idx == i && cur->poll[k].fd == fd) { memmove(&cur->poll[k], &cur->poll[k + 1], (cur->np - k - 1) * sizeof(poll_t)); --cur->np; break; }
    elsewhere();
}
static int newbuf(node_t* n, uint8_t* p, uint32_t len)
{
    if (n->nb == n->cb) { n->cb = n->cb ? n->cb * 2 : 64; n->bufs = realloc(n->bufs, n->cb * sizeof(buf_t)); }
    n->bufs[n->nb] = (buf_t) { p, len, n->nb + 1, 1, 0, n->ud };
    return ++n->nb;
}
static buf_t* findbuf(node_t* n, void* p) { int k; for (k = n->nb - 1; k >= 0; --k) if (n->bufs[k].p == p) return &n->bufs[k]; return 0; }
static void pub_release(node_t* n, void* p, long len, uint64_t ud, int hasud)
{
    buf_t* b = findbuf(n, p);
    EV("\"e\":\"pf\",\"b\":%d,\"len\":%ld,\"ok\":%d,\"ud\":%d", b ? b->id : 0, len < 0 && b ? (long) b->len : len, b && b->live == 1 && hash(b->p, b->len) == b->h, !hasud || !b || b->ud == ud);
    if (b && b->live == 1) { b->live = 0; memset(b->p, 0xDD, b->len); }
}
static void cb_pfree(void* p, payload_len_t len, user_data_t u) { node_t* n = cur; pub_release(n, p, len, u.u64, 1); nested("pf"); }
static void* cb_alloc(payload_len_t len, user_data_t u)
{
    uint8_t* p = malloc(len ? len : 1); int b;
    memset(p, 0xAA, len); b = newbuf(cur, p, len);
    EV("\"e\":\"al\",\"len\":%d,\"b\":%d,\"ud\":%d", len, b, udok(u));
    elsewhere();
    return p;
}
static void cb_free(void* p, payload_len_t len, user_data_t u)
{
    buf_t* b = findbuf(cur, p);
    EV("\"e\":\"fr\",\"b\":%d,\"len\":%d,\"ud\":%d,\"lv\":%d", b ? b->id : 0, len, udok(u), b ? b->live : 0);
    if (b && b->live) { b->live = 0; memset(b->p, 0xDD, b->len); }
    elsewhere();
}
static uint8_t cb_acb(rmc_pub_context_t* c, void* pl, payload_len_t max, payload_len_t* res)
{
    uint32_t len = cur->acb_len > max ? max : cur->acb_len;
    fill(pl, len, cur->acb_seed); *res = len;
    EV("\"e\":\"acb\",\"max\":%d,\"r\":%d,\"len\":%u,\"h\":%u,\"cx\":%d", max, cur->acb_ret, len, hash(pl, len), c == cur->p);
    { uint32_t h = hash(pl, len); nested("acb"); if (hash(pl, len) != h) EV("\"e\":\"chg\""); }
    cur->acb_seed += 7;
    return cur->acb_ret;
}
static uint8_t cb_cc(rmc_pub_context_t* c, uint32_t ip, in_port_t port)
{
    int r = cur->ccb_ret; if (r == 2) { r = (port & 1); }
    EV("\"e\":\"cc\",\"ip\":\"%s\",\"port\":%u,\"r\":%d,\"cx\":%d", ips(ip), port, r, c == cur->p);
    nested("cc");
    return r;
}
static in_port_t dcports[64]; static int ndc;     // the connections whose disconnect callback is running
static void cb_dc(rmc_pub_context_t* c, uint32_t ip, in_port_t port)
{
    EV("\"e\":\"dc\",\"ip\":\"%s\",\"port\":%u,\"cx\":%d", ips(ip), port, c == cur->p);
    if (ndc < 64) dcports[ndc] = port;
    ++ndc; nested("dc"); --ndc;
}
static void cb_ctl(rmc_pub_context_t* c, uint32_t ip, uint16_t port, rmc_node_id_t node, void* pl, payload_len_t len)
{
    EV("\"e\":\"ctl\",\"ip\":\"%s\",\"port\":%u,\"len\":%d,\"h\":%u,\"cx\":%d", ips(ip), port, len, hash(pl, len), c == cur->p);
    { uint32_t h = hash(pl, len); nested("ctl"); if (hash(pl, len) != h) EV("\"e\":\"chg\""); }
}
static uint8_t cb_ann(rmc_sub_context_t* c, uint32_t ip, in_port_t port, rmc_node_id_t node, void* pl, payload_len_t len)
{
    EV("\"e\":\"ann\",\"ip\":\"%s\",\"port\":%u,\"node\":\"%x\",\"len\":%d,\"h\":%u,\"r\":%d,\"cx\":%d", ips(ip), port, node, len, hash(pl, len), cur->ann_ret, c == cur->s);
    { uint32_t h = hash(pl, len); nested("ann"); if (hash(pl, len) != h) EV("\"e\":\"chg\""); }
    return cur->ann_ret;
}
static void cb_cmp(rmc_sub_context_t* c, uint32_t ip, in_port_t port, rmc_node_id_t node)
{
    EV("\"e\":\"cmp\",\"ip\":\"%s\",\"port\":%u,\"node\":\"%x\",\"cx\":%d", ips(ip), port, node, c == cur->s);
    nested("cmp");
}
static int dispatch_one(node_t* n, int keep)
{
    rmc_sub_packet_t* p = rmc_sub_get_next_dispatch_ready(n->s); void* pl; int len, r; buf_t* b;
    if (!p) return 0;
    pl = rmc_sub_packet_payload(p); len = rmc_sub_packet_payload_len(p); b = findbuf(n, pl);
    EV("\"e\":\"dsp\",\"len\":%d,\"h\":%u,\"b\":%d,\"lv\":%d,\"kp\":%d", len, hash(pl, len), b ? b->id : 0, b ? b->live : 1, keep);
    if (keep) r = rmc_sub_packet_dispatched_keep_payload(n->s, p); else r = rmc_sub_packet_dispatched(n->s, p);
    if (r) EV("\"e\":\"dspr\",\"r\":%d", r);
    else if (keep) { mem_del(p); if (b) b->live = 2; else mem_del(pl); }       // a kept packet is the application's
    return 1;
}
static void cb_rdy(rmc_sub_context_t* c)
{
    EV("\"e\":\"rdy\",\"n\":%d,\"cx\":%d", rmc_sub_get_dispatch_ready_count(c), c == cur->s);
    if (cur->auto_disp == 1) while (dispatch_one(cur, 0));
    else if (cur->auto_disp == 2) dispatch_one(cur, 0);
    else if (cur->auto_disp == 3) while (dispatch_one(cur, 1));
    nested("rdy");
}

// ---------------------------------------------------------------------------------------------- the library's log
// What the library writes to standard output goes to a memory file from the first "log" line of a scenario on.
static int logfd = -1; static off_t logoff; static char* logtxt; static size_t logn, logcap;
static int log_drain(void)      // fetch what has been written since; returns the most detailed level among it
{
    ssize_t r; size_t i; int mx = 0;
    extern int fflush(FILE*);
    if (logfd < 0) return 0;
    fflush(stdout); logn = 0;
    for (;;) {
        if (logn + 65537 > logcap) logtxt = realloc(logtxt, logcap = logcap * 2 + 131072);
        r = pread(logfd, logtxt + logn, 65536, logoff);
        if (r <= 0) break;
        logn += r; logoff += r;
    }
    logtxt[logn] = 0;
    if (logoff > (1 << 22)) { if (ftruncate(logfd, 0) == 0 && lseek(1, 0, SEEK_SET) == 0) logoff = 0; }
    for (i = 0; i < logn; ) {
        char* e = memchr(logtxt + i, '\n', logn - i); size_t l = e ? (size_t) (e - logtxt) - i : logn - i, j; int lv = 0;
        for (j = 0; j + 2 < l && j < 60 && !lv; ++j)
            if (logtxt[i + j] == '[' && logtxt[i + j + 2] == ']') { const char* t = strchr("FEWICD", logtxt[i + j + 1]); if (t) lv = t - "FEWICD" + 1; }
        if (l && !lv) lv = 1;       // no tag: the continuation of a message, or something else that has no business there when the level is none
        if (lv > mx) mx = lv;
        i += l + 1;
    }
    return mx;
}
static void log_on(void)
{
    if (logfd >= 0) return;
    fflush(stdout); logfd = memfd_create("log", 0);
    if (logfd < 0 || dup2(logfd, 1) < 0) { fprintf(stderr, "cannot capture the log\n"); _exit(97); }
}
static int log_bad;     // what was wrong with a message: its text or tag, or that errno was changed
static int log_one(int want, const char* txt)
{   // did the message that was just written arrive, as one line with its tag?
    char tag[4] = { '[', "?FEWICD"[want], ']', 0 }; char* q; int e = errno;
    log_drain();
    if (e != 77) log_bad |= 1;
    if (!logn) return 0;
    q = strstr(logtxt, txt);
    if (!q || strchr(logtxt, '\n') != logtxt + logn - 1 || q[strlen(txt)] != '\n') log_bad |= 2;
    q = strstr(logtxt, tag);
    if (!q || q - logtxt > 40) log_bad |= 4;
    return 1;
}
static void log_messages(long seed)
{
    static const int idx[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 47, 300, RMC_NIL_INDEX, IDX_MCAST, IDX_LISTEN };
    int i, ix = idx[seed % 15], any = 0; char t[64], s[16];
    log_drain(); log_bad = 0;
    O("{\"e\":\"op\",\"k\":\"logmsg\",\"n\":-1,\"now\":%lld,\"got\":[", (long long) (vnow / unit));
    snprintf(s, 16, "x%ld", seed); snprintf(t, 64, "m %d %s %lu", ix, s, (unsigned long) seed);
#define ONE(lv, m) errno = 77; m; if (log_one(lv, t)) { O("%s%d", any ? "," : "", lv); any = 1; }
#define A "m %d %s %lu", ix, s, (unsigned long) seed
    for (i = 0; i < 2; ++i) if (i == 0) {
        ONE(1, RMC_LOG_FATAL(A)) ONE(2, RMC_LOG_ERROR(A)) ONE(3, RMC_LOG_WARNING(A)) ONE(4, RMC_LOG_INFO(A)) ONE(5, RMC_LOG_COMMENT(A)) ONE(6, RMC_LOG_DEBUG(A))
    } else {
        ONE(1, RMC_LOG_INDEX_FATAL(ix, A)) ONE(2, RMC_LOG_INDEX_ERROR(ix, A)) ONE(3, RMC_LOG_INDEX_WARNING(ix, A)) ONE(4, RMC_LOG_INDEX_INFO(ix, A)) ONE(5, RMC_LOG_INDEX_COMMENT(ix, A)) ONE(6, RMC_LOG_INDEX_DEBUG(ix, A))
    }
#undef A
#undef ONE
    O("],\"bad\":%d}\n", log_bad); flush_out();
}

// ---------------------------------------------------------------------------------------------- op records
static void op_begin(node_t* n, const char* k)
{
    ++nops; cur = n; evn = 0; snprintf(opk, sizeof opk, "%s", k);
    O("{\"e\":\"op\",\"k\":\"%s\",\"n\":%d,\"now\":%lld", k, n->wnum, (long long) (vnow / unit));
    if (W) O(",\"wd\":%d", W);
}
// Overwrite the stack the library is about to use (or has used), so that pointers into it do not go unnoticed.
static void __attribute__((noinline)) scribble(void) { volatile char a[200000]; size_t i; for (i = 0; i < sizeof a; ++i) a[i] = 0x5A; }
// errno is whatever an earlier call left there.
static int stale(void) { static const int e[] = { 0, EAGAIN, EPIPE, EINPROGRESS, EINTR, ENOENT }; static unsigned k; return e[k++ % 6]; }
static void op_ev(void) { scribble(); O(",\"ev\":["); errno = stale(); }
static long rel(int64_t t)
{
    int64_t d;
    if (t == -1) return -1;
    d = t - vbase; if (d < -1000000000LL || d / unit > 2000000000LL || d % unit) return -9;
    d /= unit;
    return (long) d;
}
static void op_end(int r, int o)
{
    node_t* n = cur;
    O("],\"r\":%d,\"o\":%d", r, o);
    nfaults = 0; wcap = rcap = -1;
    if (!strcmp(opk, "pdel") || !strcmp(opk, "sdel")) O(",\"lk\":%ld", n->mem);
    O(",\"mm\":%ld", n->mem);
    if (logfd >= 0) O(",\"lg\":%d", log_drain());
    if (n->kind == N_PUB && n->p) {
        uint32_t q = 77777, sb = 77777, ac = 77777, q2 = 0, sb2 = 0, ac2 = 0; int bz, cons = 1; usec_timestamp_t nx = 0; int e0 = evn, i;
        bz = rmc_pub_context_get_pending(n->p, &q, &sb, &ac);
        for (i = 0; i < 7; ++i) {
            q2 = q; sb2 = sb; ac2 = ac;
            if (i & 1) q2 = 4242; if (i & 2) sb2 = 4242; if (i & 4) ac2 = 4242;
            if (rmc_pub_context_get_pending(n->p, i & 1 ? &q2 : 0, i & 2 ? &sb2 : 0, i & 4 ? &ac2 : 0) != bz) cons = 0;
            if (q2 != q || sb2 != sb || ac2 != ac) cons = 0;
        }
        rmc_pub_timeout_get_next(n->p, &nx);
        O(",\"ob\":{\"q\":%u,\"ql\":%u,\"sb\":%u,\"ac\":%u,\"bz\":%d,\"pc\":%d,\"sc\":%u,\"so\":%u,\"mx\":%d,\"su\":%d,\"nx\":%ld}",
          q, rmc_pub_queue_length(n->p), sb, ac, bz != 0, cons && (bz == 0 || bz == EBUSY), rmc_pub_get_subscriber_count(n->p), rmc_pub_get_socket_count(n->p),
          rmc_pub_get_max_subscriber_count(n->p), rmc_pub_traffic_suspended(n->p), rel(nx));
        (void) e0;
    } else if (n->kind == N_SUB && n->s) {
        usec_timestamp_t nx = 0;
        rmc_sub_timeout_get_next(n->s, &nx);
        O(",\"ob\":{\"dr\":%d,\"pc\":%d,\"so\":%u,\"mx\":%d,\"nx\":%ld}", rmc_sub_get_dispatch_ready_count(n->s), rmc_sub_get_publisher_count(n->s),
          rmc_sub_get_socket_count(n->s), rmc_sub_get_max_publisher_count(n->s), rel(nx));
    }
    O("}\n"); cur = 0;
    flush_out();
    alarm(10);
}

// ---------------------------------------------------------------------------------------------- script
static node_t* N(const char* nm) { int k; for (k = 0; k < nn; ++k) if (nodes[k].w == W && !strcmp(nodes[k].nm, nm)) return &nodes[k]; return 0; }
static const char* kv(char** a, int n, const char* key, const char* def)
{
    int i; size_t l = strlen(key);
    for (i = 0; i < n; ++i) if (!strncmp(a[i], key, l) && a[i][l] == '=') return a[i] + l + 1;
    return def;
}
static long kvl(char** a, int n, const char* key, long def) { const char* s = kv(a, n, key, 0); return s ? strtol(s, 0, 0) : def; }
static uint32_t aip(const char* s) { struct in_addr a; inet_aton(s, &a); return ntohl(a.s_addr); }

static int badip(const char* s) { struct in_addr a; return strcmp(s, "-") && !inet_aton(s, &a); }
static int is_tcp_poll(poll_t* p) { return p->live && p->idx != IDX_MCAST && p->idx != IDX_LISTEN; }
static poll_t* pref(node_t* n, const char* ref)
{
    int k, cnt = 0, want; static poll_t dummy;
    if (!ref) return 0;
    if (ref[0] == '=') { int ix = atoi(ref + 1); for (k = 0; k < n->np; ++k) if (n->poll[k].live && n->poll[k].idx == ix) return &n->poll[k]; dummy = (poll_t) { -1, ix, 0, 0 }; return &dummy; }
    if (ref[0] == '@') {
        node_t* peer = N(ref + 1);
        for (k = 0; k < n->np; ++k) if (is_tcp_poll(&n->poll[k])) {
            sock_t* s = F(n->poll[k].fd);
            if (s && s->c && peer && (s->side == 0 ? s->c->b : s->c->a) == peer->num) return &n->poll[k];
        }
        return 0;
    }
    for (k = 0; k < n->np; ++k) cnt += is_tcp_poll(&n->poll[k]);
    if (!cnt) return 0;
    want = atoi(ref) % cnt;
    for (k = 0; k < n->np; ++k) if (is_tcp_poll(&n->poll[k]) && want-- == 0) return &n->poll[k];
    return 0;
}
// Make the call that the scenario wants made from within this callback.
static int indeact;     /* a context is being deactivated from within one of its callbacks */
static void nested(const char* ev)
{
    node_t* n = cur; int k, r = 0, na = 0; char line[100], *a[12], *sv = 0, *t;
    if (!n) return;
    elsewhere();
    for (k = 0; k < n->nh && strcmp(n->hooks[k].ev, ev); ++k);
    if (k == n->nh || n->hooks[k].skip-- > 0) return;
    memcpy(line, n->hooks[k].line, sizeof line);
    memmove(n->hooks + k, n->hooks + k + 1, (--n->nh - k) * sizeof n->hooks[0]);
    for (t = strtok_r(line, " ", &sv); t && na < 12; t = strtok_r(0, " ", &sv)) a[na++] = t;
    if (n->kind == N_PUB && !strcmp(a[0], "q")) {
        uint32_t len = strtoul(a[1], 0, 0); uint8_t* d = malloc(len ? len : 1); int b; uint32_t h;
        fill(d, len, strtoul(a[2], 0, 0)); b = newbuf(n, d, len); h = n->bufs[b - 1].h = hash(d, len);
        EV("\"e\":\"call\",\"k\":\"pq\",\"len\":%u,\"h\":%u,\"b\":%d,\"an\":%d", len, h, b, na > 3 ? atoi(a[3]) : 0);
        r = rmc_pub_queue_packet(n->p, d, len, na > 3 ? atoi(a[3]) : 0);
        if (r) n->bufs[b - 1].live = 3;
        EV("\"e\":\"cret\",\"k\":\"pq\",\"b\":%d,\"r\":%d", b, r);
    } else if (n->kind == N_PUB && !strcmp(a[0], "ann")) {
        EV("\"e\":\"call\",\"k\":\"pann\",\"iv\":%d", atoi(a[1]));
        r = rmc_pub_set_announce_interval(n->p, atoi(a[1]));
        EV("\"e\":\"cret\",\"k\":\"pann\",\"r\":%d", r);
    } else if (!strcmp(a[0], "close")) {
        poll_t* p = pref(n, a[1]); int i;
        if (!p || indeact) return;
        for (i = 0; i < ndc && i < 64; ++i) if (F(p->fd) && F(p->fd)->c && F(p->fd)->c->aport == dcports[i]) return;
        i = p->idx;
        EV("\"e\":\"call\",\"k\":\"%s\",\"i\":%d", n->kind == N_PUB ? "pclose" : "sclose", i);
        r = n->kind == N_PUB ? rmc_pub_close_connection(n->p, i) : rmc_sub_close_connection(n->s, i);
        EV("\"e\":\"cret\",\"k\":\"%s\",\"r\":%d", n->kind == N_PUB ? "pclose" : "sclose", r);
    } else if (!strcmp(a[0], "deact")) {
        if (ndc || indeact) return;
        EV("\"e\":\"call\",\"k\":\"%s\"", n->kind == N_PUB ? "pdeact" : "sdeact");
        indeact = 1;
        r = n->kind == N_PUB ? rmc_pub_deactivate_context(n->p) : rmc_sub_deactivate_context(n->s);
        indeact = 0;
        if (n->kind == N_SUB) n->nrx = 0;
        EV("\"e\":\"cret\",\"k\":\"%s\",\"r\":%d", n->kind == N_PUB ? "pdeact" : "sdeact", r);
    } else if (n->kind == N_SUB && !strcmp(a[0], "ctl")) {
        uint32_t len = strtoul(a[3], 0, 0); uint8_t* d = malloc(len ? len : 1);
        fill(d, len, strtoul(a[4], 0, 0));
        EV("\"e\":\"call\",\"k\":\"sctl\",\"by\":\"a\",\"ip\":\"%s\",\"port\":%d,\"len\":%u,\"h\":%u", a[1], atoi(a[2]), len, hash(d, len));
        r = rmc_sub_write_control_message_by_address(n->s, aip(a[1]), atoi(a[2]), d, len);
        memset(d, 0xEE, len); free(d);
        EV("\"e\":\"cret\",\"k\":\"sctl\",\"r\":%d", r);
    } else if (n->kind == N_SUB && !strcmp(a[0], "d")) {
        EV("\"e\":\"call\",\"k\":\"sd\"");
        dispatch_one(n, na > 1 ? atoi(a[1]) : 0);
    } else { fprintf(stderr, "bad nested call: %s\n", a[0]); _exit(98); }
}
static unsigned spurious[NW];   // one in four reads of a connection that has nothing to read is made
static int readable(poll_t* p) { sock_t* s = F(p->fd); stream_t* r; if (!s || !s->c) return 0; r = rxs(s); return r->n > r->rd || peer_closed(s); }
static int connecting(poll_t* p, node_t* n) { sock_t* s; if (n->kind != N_SUB) return 0; if (n->has_pmod) return p->act == RMC_POLLWRITE; s = F(p->fd); return s && !s->estab; }
static int hasfault(const char* nm) { int k; for (k = 0; k < nfaults; ++k) if (!strcmp(faults[k].name, nm)) return 1; nfaults = 0; return 0; }
static int backlog(node_t* n) { int k, f, c = 0; for (k = 0; k < nconn; ++k) if (conns[k].used && conns[k].b == n->num && conns[k].fdb == -1 && conns[k].backlog && (f = conns[k].backlog - FD0, fds[f].open)) ++c; return c; }
static poll_t* pidx(node_t* n, int ix) { int k; for (k = 0; k < n->np; ++k) if (n->poll[k].live && n->poll[k].idx == ix) return &n->poll[k]; return 0; }

static void do_pwm(node_t* n) { uint8_t o = n->nores ? 98 : 99; uint8_t* po = n->nores ? 0 : &o; int r; op_begin(n, "pwm"); op_ev(); r = rmc_pub_write(n->p, IDX_MCAST, po); op_end(r, o); }
static void do_pw(node_t* n, int i, long cap) { uint8_t o = n->nores ? 98 : 99; uint8_t* po = n->nores ? 0 : &o; int r; op_begin(n, "pw"); O(",\"i\":%d,\"cap\":%ld", i, cap); op_ev(); wcap = cap; r = rmc_pub_write(n->p, i, po); op_end(r, o); }
static void do_pr(node_t* n, int i, long cap) { uint8_t o = n->nores ? 98 : 99; uint8_t* po = n->nores ? 0 : &o; int r; op_begin(n, "pr"); O(",\"i\":%d", i); op_ev(); rcap = cap; r = rmc_pub_read(n->p, i, po); op_end(r, o); }
static void do_pacc(node_t* n) { uint8_t o = n->nores ? 98 : 99; uint8_t* po = n->nores ? 0 : &o; int r; op_begin(n, "pacc"); O(",\"bl\":%d", backlog(n)); op_ev(); r = rmc_pub_read(n->p, IDX_LISTEN, po); op_end(r, o); }
static void do_pt(node_t* n) { int r; op_begin(n, "pt"); op_ev(); r = rmc_pub_timeout_process(n->p); op_end(r, 0); }
static void do_st(node_t* n) { int r; op_begin(n, "st"); op_ev(); r = rmc_sub_timeout_process(n->s); op_end(r, 0); }
static void do_srm(node_t* n) { uint8_t o = n->nores ? 98 : 99; uint8_t* po = n->nores ? 0 : &o; int r; op_begin(n, "srm"); op_ev(); r = rmc_sub_read(n->s, IDX_MCAST, po); O("],\"lf\":%d,\"xx\":[", n->nrx); op_end(r, o); }
static void do_sr(node_t* n, int i, long cap) { uint8_t o = n->nores ? 98 : 99; uint8_t* po = n->nores ? 0 : &o; int r; op_begin(n, "sr"); O(",\"i\":%d", i); op_ev(); rcap = cap; r = rmc_sub_read(n->s, i, po); op_end(r, o); }
static void do_sw(node_t* n, int i, long cap, int err)
{
    uint8_t o = n->nores ? 98 : 99; uint8_t* po = n->nores ? 0 : &o; int r; poll_t* p = pidx(n, i); sock_t* s = p ? F(p->fd) : 0;
    if (s && err) s->soerr = err;
    if (s && err && s->c && !s->c->refused && connecting(p, n) && s->c->fdb != -2) { s->c->refused = 1; s->c->used = s->c->fdb >= 0; }
    op_begin(n, "sw"); O(",\"i\":%d,\"cap\":%ld", i, cap); op_ev(); wcap = cap; r = rmc_sub_write(n->s, i, po); op_end(r, o);
}
static void do_sd(node_t* n, int keep) { int r; op_begin(n, "sd"); op_ev(); r = dispatch_one(n, keep); op_end(r, 0); }

static int settle_step(void)
{
    int k, j, did = 0;
    for (k = 0; k < nn; ++k) {
        node_t* n = &nodes[k];
        if (!n->alive || n->w != W) continue;
        if (n->kind == N_SUB && n->s) {
            poll_t* m = pidx(n, IDX_MCAST);
            while (n->npend && m && n->nrx < MAXPEND) { n->rxq[n->nrx++] = n->pend[0]; memmove(n->pend, n->pend + 1, --n->npend * sizeof(int)); }
            if (n->nrx && m && (m->act & RMC_POLLREAD)) { do_srm(n); did = 1; }
            for (j = 0; j < n->np; ++j) {
                poll_t p = n->poll[j];
                if (!is_tcp_poll(&p)) continue;
                if (p.act & RMC_POLLWRITE) { sock_t* s = F(p.fd); if (!(s && s->c && peer_closed(s) && p.act != RMC_POLLWRITE)) { do_sw(n, p.idx, -1, 0); did = 1; } }
                if (pidx(n, p.idx) && pidx(n, p.idx)->fd == p.fd && (p.act & RMC_POLLREAD) && readable(&p)) { do_sr(n, p.idx, -1); did = 1; }
            }
            while (rmc_sub_get_dispatch_ready_count(n->s)) { do_sd(n, 0); did = 1; }
        } else if (n->kind == N_PUB && n->p) {
            poll_t* m;
            if (backlog(n) && (m = pidx(n, IDX_LISTEN)) && (m->act & RMC_POLLREAD) && rmc_pub_get_subscriber_count(n->p) < rmc_pub_get_max_subscriber_count(n->p)) { do_pacc(n); did = 1; }
            if ((m = pidx(n, IDX_MCAST)) && (m->act & RMC_POLLWRITE)) { do_pwm(n); did = 1; }
            for (j = 0; j < n->np; ++j) {
                poll_t p = n->poll[j];
                if (!is_tcp_poll(&p)) continue;
                if (p.act & RMC_POLLWRITE) { sock_t* s = F(p.fd); if (!(s && s->c && peer_closed(s))) { do_pw(n, p.idx, -1); did = 1; } }
                if (pidx(n, p.idx) && pidx(n, p.idx)->fd == p.fd && (p.act & RMC_POLLREAD) && readable(&p)) { do_pr(n, p.idx, -1); did = 1; }
            }
        }
    }
    return did;
}
// Serve every descriptor and timeout the way an application's event loop would, guided only by the poll
// callbacks and the next-timeout queries, until nothing is left to do. Announcements are switched off first.
static int settle(int maxsteps)
{
    int steps = 0, k, waits = 0;
    for (k = 0; k < nn; ++k) if (nodes[k].w == W && nodes[k].kind == N_PUB && nodes[k].p && nodes[k].alive) {
        int r; op_begin(&nodes[k], "pann"); O(",\"iv\":0"); op_ev(); r = rmc_pub_set_announce_interval(nodes[k].p, 0); op_end(r, 0);
    }
    for (;;) {
        int64_t best = -1;
        while (settle_step()) if (++steps > maxsteps) return 0;
        for (k = 0; k < nn; ++k) {
            usec_timestamp_t t = -1; node_t* n = &nodes[k];
            if (!n->alive || n->w != W) continue;
            if (n->kind == N_PUB && n->p) rmc_pub_timeout_get_next(n->p, &t); else if (n->kind == N_SUB && n->s) rmc_sub_timeout_get_next(n->s, &t);
            if (t != -1 && (best == -1 || t < best)) best = t;
        }
        if (best == -1) return 1;
        if (++waits > 200) return 0;
        if (best - vbase > vnow) { if ((best - vbase) / unit > 2000000000LL) return 0; vnow = best - vbase; }
        for (k = 0; k < nn; ++k) {
            usec_timestamp_t t = -1; node_t* n = &nodes[k];
            if (!n->alive || n->w != W) continue;
            if (n->kind == N_PUB && n->p) { rmc_pub_timeout_get_next(n->p, &t); if (t != -1 && t <= vbase + vnow) do_pt(n); }
            else if (n->kind == N_SUB && n->s) { rmc_sub_timeout_get_next(n->s, &t); if (t != -1 && t <= vbase + vnow) do_st(n); }
        }
    }
}
static void stream_raw(node_t* r, int cidref, const uint8_t* d, long n)
{   // raw peer writes on its cidref-th connection (most recent first)
    int k;
    for (k = nconn - 1; k >= 0; --k) {
        conn_t* c = &conns[k];
        if (!c->used) continue;
        if (c->b == r->num && c->fdb == -2 && !c->bclosed) { if (cidref-- == 0) { c->ba.raw = 1; sput(&c->ba, d, n); return; } }
        else if (c->a == r->num && c->fda == -2 && !c->aclosed) { if (cidref-- == 0) { c->ab.raw = 1; sput(&c->ab, d, n); return; } }
    }
}
static void raw_close(node_t* r, int cidref)
{
    int k;
    for (k = nconn - 1; k >= 0; --k) {
        conn_t* c = &conns[k];
        if (!c->used) continue;
        if (c->b == r->num && c->fdb == -2 && !c->bclosed) { if (cidref-- == 0) { c->bclosed = 1; return; } }
        else if (c->a == r->num && c->fda == -2 && !c->aclosed) { if (cidref-- == 0) { c->aclosed = 1; return; } }
    }
}
static void inject(node_t* s, uint32_t src, whdr_t* h, long total, uint32_t seed, int from)
{
    dg_t* g; uint8_t* d; long pl = total - HDR;
    if (ndg >= MAXPEND || s->npend >= MAXPEND) { fprintf(stderr, "datagram table full\n"); _exit(97); }
    d = malloc(total + 1);
    if (total >= HDR) { memcpy(d, h, HDR); fill(d + HDR, pl, seed); } else memcpy(d, h, total);
    g = &dgs[ndg++]; g->d = d; g->len = total; g->src = src; g->id = ndg; g->from = from;
    s->pend[s->npend++] = ndg - 1;
}

static void run_line(char* line)
{
    char* a[40]; int n = 0; char* sv = 0; char* t; node_t* x; node_t* y; int r, k; poll_t* p; const char* c;
    for (t = strtok_r(line, " \t\n", &sv); t && n < 40; t = strtok_r(0, " \t\n", &sv)) a[n++] = t;
    if (!n || a[0][0] == '#') return;
    c = a[0];
#define IS(s) (!strcmp(c, s))
    if (IS("base")) { vbase = strtoll(a[1], 0, 0); return; }
    if (IS("unit")) { unit = strtoll(a[1], 0, 0); return; }
    if (IS("pidbase")) { pidbase = strtoull(a[1], 0, 0); return; }
    if (IS("pidjump")) { jump_k = strtoull(a[1], 0, 0); jump = strtoull(a[2], 0, 0); return; }
    if (IS("log")) {    // log LEVEL [color=0|1] [start=1]
        log_on(); c = kv(a, n, "color", 0);
        if (c) rmc_log_use_color(atoi(c));
        if (kvl(a, n, "start", 0)) rmc_log_set_start_time();
        r = rmc_set_log_level(atoi(a[1])); log_drain();
        O("{\"e\":\"op\",\"k\":\"log\",\"n\":-1,\"now\":%lld,\"v\":%d,\"r\":%d}\n", (long long) (vnow / unit), atoi(a[1]), r); flush_out(); return;
    }
    if (IS("logmsg")) { if (logfd >= 0) log_messages(atol(a[1])); return; }
    if (IS("tick")) { vnow += strtoll(a[1], 0, 0); return; }
    if (IS("ticknext")) {   // to the node's next timeout plus an offset
        usec_timestamp_t tt = -1; x = N(a[1]);
        if (!x || !x->alive) return;
        if (x->kind == N_PUB && x->p) rmc_pub_timeout_get_next(x->p, &tt); else if (x->kind == N_SUB && x->s) rmc_sub_timeout_get_next(x->s, &tt);
        if (tt != -1 && tt - vbase + atol(a[2]) > vnow && (tt - vbase) / unit < 2000000000LL) vnow = tt - vbase + atol(a[2]);
        return;
    }
    if (IS("pub") || IS("sub") || IS("raw")) {
        x = &nodes[nn]; memset(x, 0, sizeof *x); if (nn >= MAXN - 1) { fprintf(stderr, "too many nodes\n"); _exit(97); } x->num = nn++; x->w = W; x->wnum = wnn[W]++; snprintf(x->nm, 8, "%s", a[1]);
        x->ip = aip(kv(a, n, "ip", "10.0.0.1")); x->ud = 0x100000000ULL * (x->wnum + 1) + 0xABC00 + x->wnum + 0x40ULL * W; x->alive = 1;
        x->acb_ret = 1; x->ccb_ret = 1; x->ann_ret = 1;
        if (c[0] == 'r') { x->kind = N_RAW; x->rport = kvl(a, n, "port", 0); x->rlisten = x->rport != 0; x->anyport = kvl(a, n, "anyport", 0); return; }
        x->max = kvl(a, n, "max", 4); x->has_pmod = kvl(a, n, "pm", 1); x->has_prem = kvl(a, n, "pr", 1); x->nores = kvl(a, n, "nores", 0); x->has_free = kvl(a, n, "free", 1); x->has_alloc = kvl(a, n, "alloc", 1);
        op_begin(x, c[0] == 'p' ? "pnew" : "snew");
        if (c[0] == 'p') {
            uint32_t node = strtoul(kv(a, n, "node", "1"), 0, 0); int ccb = kvl(a, n, "ccb", 1), dcb = kvl(a, n, "dcb", 1), ctl = kvl(a, n, "ctl", 1), acb = kvl(a, n, "acb", 1);
            const char* lip = kv(a, n, "lip", "-"); const char* mif = kv(a, n, "mif", "-"); x->kind = N_PUB; x->lport = kvl(a, n, "port", 0);
            op_ev();
            r = rmc_pub_init_context(&x->p, node, (char*) kv(a, n, "grp", "239.1.2.3"), kvl(a, n, "gport", 4723), mif[0] == '-' ? 0 : (char*) mif, lip[0] == '-' ? 0 : (char*) lip, x->lport,
                                     user_data_u64(x->ud), cb_padd, x->has_pmod ? cb_pmod : 0, x->has_prem ? cb_prem : 0, x->max, x->has_free ? cb_pfree : 0);
            if (!r && pidbase && !jump) { if (rmc_pub_verification_set_next_pid) rmc_pub_verification_set_next_pid(x->p, pidbase + 1); else pidbase = 0; }
            if (!r && ccb) rmc_pub_set_subscriber_connect_callback(x->p, cb_cc);
            if (!r && dcb) rmc_pub_set_subscriber_disconnect_callback(x->p, cb_dc);
            if (!r && ctl) rmc_pub_set_control_message_callback(x->p, cb_ctl);
            if (!r && acb) rmc_pub_set_announce_callback(x->p, cb_acb);
            O("],\"cfg\":{\"max\":%d,\"ip\":\"%s\",\"lip\":\"%s\",\"lport\":%d,\"mif\":\"%s\",\"grp\":\"%s\",\"gport\":%ld,\"node\":\"%x\",\"rnd\":%d,\"pm\":%d,\"pr\":%d,\"bad\":%d,\"nid\":\"%x\",\"ccb\":%d,\"dcb\":%d,\"ctl\":%d,\"acb\":%d},\"xx\":[", x->max, ips(x->ip), lip[0] == '-' ? "0.0.0.0" : lip, x->lport,
              mif[0] == '-' ? "0.0.0.0" : mif, kv(a, n, "grp", "239.1.2.3"), kvl(a, n, "gport", 4723), node, node == 0, x->has_pmod, x->has_prem, badip(lip) || badip(mif) || badip(kv(a, n, "grp", "239.1.2.3")), r ? 0 : rmc_pub_node_id(x->p), ccb, dcb, ctl, acb);
            if (r) { x->p = 0; x->alive = 0; }
            O("],\"mem\":[%ld", r ? x->mem : 0);
            op_end(r, 0);
        } else {
            uint32_t node = strtoul(kv(a, n, "node", "1"), 0, 0); int ann = kvl(a, n, "ann", 1), cmp = kvl(a, n, "cmp", 1), rdy = kvl(a, n, "rdy", 1);
            const char* mif = kv(a, n, "mif", "-"); x->kind = N_SUB; x->auto_disp = kvl(a, n, "auto", 0);
            op_ev();
            r = rmc_sub_init_context(&x->s, node, (char*) kv(a, n, "grp", "239.1.2.3"), kvl(a, n, "gport", 4723), mif[0] == '-' ? 0 : (char*) mif, user_data_u64(x->ud), cb_padd, x->has_pmod ? cb_pmod : 0, x->has_prem ? cb_prem : 0, x->max,
                                     x->has_alloc ? cb_alloc : 0, x->has_alloc ? cb_free : 0);
            if (!r && ann) rmc_sub_set_announce_callback(x->s, cb_ann);
            if (!r && cmp) rmc_sub_set_subscription_complete_callback(x->s, cb_cmp);
            if (!r && rdy) rmc_sub_set_packet_ready_callback(x->s, cb_rdy);
            O("],\"cfg\":{\"max\":%d,\"ip\":\"%s\",\"mif\":\"%s\",\"grp\":\"%s\",\"gport\":%ld,\"node\":\"%x\",\"rnd\":%d,\"pm\":%d,\"pr\":%d,\"bad\":%d,\"nid\":\"%x\",\"ann\":%d,\"cmp\":%d,\"rdy\":%d,\"al\":%d},\"xx\":[", x->max, ips(x->ip), mif[0] == '-' ? "0.0.0.0" : mif,
              kv(a, n, "grp", "239.1.2.3"), kvl(a, n, "gport", 4723), node, node == 0, x->has_pmod, x->has_prem, badip(mif) || badip(kv(a, n, "grp", "239.1.2.3")), r ? 0 : rmc_sub_node_id(x->s), ann, cmp, rdy, x->has_alloc);
            if (r) { x->s = 0; x->alive = 0; }
            O("],\"mem\":[%ld", r ? x->mem : 0);
            op_end(r, 0);
        }
        return;
    }
    if (IS("fault")) { if (nfaults < 8) { snprintf(faults[nfaults].name, 16, "%s", a[1]); faults[nfaults].nth = atoi(a[2]); faults[nfaults].err = atoi(a[3]); faults[nfaults++].seen = 0; } return; }
    if (IS("settle")) { r = settle(n > 1 ? atoi(a[1]) : 3000); O("{\"e\":\"op\",\"k\":\"settled\",\"n\":-1,\"now\":%lld,\"r\":%d}\n", (long long) (vnow / unit), r); flush_out(); return; }
    if (n < 2 || !(x = N(a[1]))) { fprintf(stderr, "bad line: %s\n", c); _exit(98); }
    if (x->kind == N_RAW) {
        long i; int cref = 0;
        if (IS("rpkt")) {   // rpkt r pid len seed [c=k node= ip= port= bad=]
            whdr_t h; long len = atol(a[3]); uint8_t* d = malloc(1 + HDR + len); cref = kvl(a, n, "c", 0);
            h.pid = wpid(strtoull(a[2], 0, 0)); h.node = kvl(a, n, "node", 1); h.plen = len; h.ip = aip(kv(a, n, "ip", ips(x->ip))); h.port = kvl(a, n, "port", x->rport);
            d[0] = 1; memcpy(d + 1, &h, HDR); fill(d + 1 + HDR, len, strtoul(a[4], 0, 0)); stream_raw(x, cref, d, 1 + HDR + len); free(d);
        } else if (IS("rack")) {
            uint8_t d[17]; uint64_t lo = strtoull(a[2], 0, 0) + pidbase, hi = strtoull(a[3], 0, 0) + pidbase; d[0] = 2; memcpy(d + 1, &lo, 8); memcpy(d + 9, &hi, 8); stream_raw(x, kvl(a, n, "c", 0), d, 17);
        } else if (IS("rackw")) {   // rackw r lo hi: numbers as they are on the wire
            uint8_t d[17]; uint64_t lo = strtoull(a[2], 0, 0), hi = strtoull(a[3], 0, 0); d[0] = 2; memcpy(d + 1, &lo, 8); memcpy(d + 9, &hi, 8); stream_raw(x, kvl(a, n, "c", 0), d, 17);
        } else if (IS("rctl")) {
            long len = atol(a[2]); uint8_t* d = malloc(3 + len); uint16_t l16 = len; d[0] = 3; memcpy(d + 1, &l16, 2); fill(d + 3, len, strtoul(a[3], 0, 0)); stream_raw(x, kvl(a, n, "c", 0), d, 3 + len); free(d);
        } else if (IS("rbyte")) { for (i = 2; i < n; ++i) { uint8_t b = strtoul(a[i], 0, 0); if (strchr(a[i], '=')) continue; stream_raw(x, kvl(a, n, "c", 0), &b, 1); } }
        else if (IS("rclose")) raw_close(x, n > 2 ? atoi(a[2]) : 0);
        else if (IS("rlisten")) x->rlisten = atoi(a[2]);
        else if (IS("rconn")) {   // raw subscriber connects to publisher
            conn_t* cc; int f; y = N(a[2]); if (!y) return;
            cc = &conns[nconn]; memset(cc, 0, sizeof *cc); cc->cid = W * MAXCONN + ++nconn; cc->used = 1; cc->a = x->num; cc->fda = -2; cc->fdb = -1; cc->b = y->num; cc->aip = n > 3 ? aip(a[3]) : x->ip; cc->aport = n > 4 ? atoi(a[4]) : 50000 + cc->cid; cc->ba.tosub = 1;
            for (f = W * MAXFD; f < W * MAXFD + nfd; ++f) if (fds[f].open && fds[f].listening && fds[f].owner == y->num) cc->backlog = FD0 + f;
            if (!cc->backlog) cc->used = 0;
        } else { fprintf(stderr, "bad raw op %s\n", c); _exit(98); }
        return;
    }
    if (!x->alive) return;
    if (IS("inj")) {   // inj sub pid plen seed [src= node= ip= port= tot= from=]
        whdr_t h; long pl = strtol(a[3], 0, 0), tot = kvl(a, n, "tot", HDR + (pl & 0xffff));
        h.pid = wpid(strtoull(a[2], 0, 0)); h.plen = pl; h.node = strtoul(kv(a, n, "node", "1"), 0, 0); h.ip = aip(kv(a, n, "ip", "10.0.9.9")); h.port = kvl(a, n, "port", 9000);
        inject(x, aip(kv(a, n, "src", "10.0.9.9")), &h, tot, strtoul(a[4], 0, 0), -1); return;
    }
    if (IS("net")) {   // net sub deliver|drop|dup k | net sub deliver p pid
        int at = -1; if (!x->npend) return;
        if (n >= 5) {
            y = N(a[3]);
            for (k = 0; k < x->npend; ++k) { dg_t* g = &dgs[x->pend[k]]; whdr_t h; memcpy(&h, g->d, HDR); if (y && g->from == y->num && h.pid == strtoull(a[4], 0, 0)) { at = k; break; } }
            if (at < 0) return;
        } else at = atoi(a[3]) % x->npend;
        if (!strcmp(a[2], "deliver") || !strcmp(a[2], "dup")) { if (x->nrx < MAXPEND) x->rxq[x->nrx++] = x->pend[at]; }
        if (strcmp(a[2], "dup")) { memmove(x->pend + at, x->pend + at + 1, (x->npend - at - 1) * sizeof(int)); --x->npend; }
        return;
    }
    if (IS("netall")) { while (x->npend && x->nrx < MAXPEND) { x->rxq[x->nrx++] = x->pend[0]; memmove(x->pend, x->pend + 1, --x->npend * sizeof(int)); } return; }
    if (IS("on")) {   // on NODE EVENT SKIP CALL ARGS: make the call from within the callback
        int z, l = 0;
        if (x->nh == 24 || n < 5) return;
        snprintf(x->hooks[x->nh].ev, 6, "%s", a[2]); x->hooks[x->nh].skip = atoi(a[3]); x->hooks[x->nh].line[0] = 0;
        for (z = 4; z < n && l < 90; ++z) l += snprintf(x->hooks[x->nh].line + l, 100 - l, "%s ", a[z]);
        ++x->nh; return;
    }
    if (IS("netdrop")) { x->npend = 0; return; }
    if (x->kind == N_PUB) {
        if (IS("act")) { op_begin(x, "pact"); op_ev(); r = rmc_pub_activate_context(x->p); op_end(r, 0); return; }
        if (IS("deact")) { op_begin(x, "pdeact"); op_ev(); r = rmc_pub_deactivate_context(x->p); op_end(r, 0); return; }
        if (IS("del")) { op_begin(x, "pdel"); op_ev(); r = rmc_pub_delete_context(x->p); x->p = 0; x->alive = 0; op_end(r, 0); return; }
        if (IS("q")) {
            uint32_t len = strtoul(a[2], 0, 0), seed = strtoul(a[3], 0, 0); int ann = n > 4 ? atoi(a[4]) : 0; uint8_t* d = malloc(len ? len : 1); int b;
            fill(d, len, seed); b = newbuf(x, d, len); x->bufs[b - 1].h = hash(d, len);
            op_begin(x, "pq"); O(",\"len\":%u,\"h\":%u,\"b\":%d,\"an\":%d", len, x->bufs[b - 1].h, b, ann); op_ev();
            r = rmc_pub_queue_packet(x->p, d, len, ann); op_end(r, 0);
            if (r) x->bufs[b - 1].live = 3;
            return;
        }
        if (IS("qn")) { long cnt = atol(a[2]); while (cnt-- > 0) { char tmp[64]; snprintf(tmp, 64, "q %s %s %ld", a[1], a[3], atol(a[4]) + cnt); run_line(tmp); } return; }
        if (IS("qnull")) { op_begin(x, "pqx"); op_ev(); r = rmc_pub_queue_packet(x->p, 0, 10, n > 2 ? atoi(a[2]) : 0); op_end(r, 0); return; }
        if (IS("w")) {   // w p M | w p ref cap
            if (a[2][0] == 'M') { do_pwm(x); return; }
            p = pref(x, a[2]); if (!p) return;
            do_pw(x, p->idx, n > 3 ? atol(a[3]) : -1); return;
        }
        if (IS("r")) {
            if (a[2][0] == 'L') { if (backlog(x) || hasfault("accept")) do_pacc(x); return; }
            p = pref(x, a[2]); if (!p || (p->live && !readable(p) && !hasfault("readv") && spurious[W]++ % 4)) return;
            do_pr(x, p->idx, n > 3 ? atol(a[3]) : -1); return;
        }
        if (IS("t")) { do_pt(x); return; }
        if (IS("thr")) { uint32_t s = strtoul(a[2], 0, 0), rs = strtoul(a[3], 0, 0); op_begin(x, "pthr"); O(",\"s\":%u,\"rs\":%u", s, rs); op_ev(); r = rmc_pub_throttling(x->p, s, rs); op_end(r, 0); return; }
        if (IS("ann")) { uint32_t iv = strtoul(a[2], 0, 0); op_begin(x, "pann"); O(",\"iv\":%lld", (long long) (iv / unit)); op_ev(); r = rmc_pub_set_announce_interval(x->p, iv); op_end(r, 0); return; }
        if (IS("acb")) { x->acb_ret = atoi(a[2]); x->acb_len = strtoul(a[3], 0, 0); x->acb_seed = strtoul(a[4], 0, 0); return; }
        if (IS("ccb")) { x->ccb_ret = atoi(a[2]); return; }
        if (IS("close")) { p = pref(x, a[2]); if (!p) return; op_begin(x, "pclose"); O(",\"i\":%d", p->idx); op_ev(); r = rmc_pub_close_connection(x->p, p->idx); op_end(r, 0); return; }
        if (IS("ud")) { x->ud += 0x1000000; op_begin(x, "pud"); op_ev(); r = rmc_pub_set_user_data(x->p, user_data_u64(x->ud)); op_end(r, rmc_pub_user_data(x->p).u64 == x->ud); return; }
        if (IS("ttl")) { op_begin(x, "pttl"); O(",\"v\":%d", atoi(a[2])); op_ev(); r = rmc_pub_set_multicast_ttl(x->p, atoi(a[2])); op_end(r, 0); return; }
    } else {
        if (IS("act")) { op_begin(x, "sact"); op_ev(); r = rmc_sub_activate_context(x->s); op_end(r, 0); return; }
        if (IS("deact")) { op_begin(x, "sdeact"); op_ev(); r = rmc_sub_deactivate_context(x->s); x->nrx = 0; op_end(r, 0); return; }
        if (IS("del")) { op_begin(x, "sdel"); op_ev(); r = rmc_sub_delete_context(x->s); x->s = 0; x->alive = 0; op_end(r, 0); return; }
        if (IS("r")) {
            if (a[2][0] == 'M') { do_srm(x); return; }
            p = pref(x, a[2]); if (!p || (p->live && (connecting(p, x) || (!readable(p) && !hasfault("readv") && spurious[W]++ % 4)))) return;
            do_sr(x, p->idx, n > 3 ? atol(a[3]) : -1); return;
        }
        if (IS("w")) { p = pref(x, a[2]); if (!p) return; do_sw(x, p->idx, n > 3 ? atol(a[3]) : -1, n > 4 ? atoi(a[4]) : 0); return; }
        if (IS("t")) { do_st(x); return; }
        if (IS("d")) { if (rmc_sub_get_dispatch_ready_count(x->s)) do_sd(x, n > 2 ? atoi(a[2]) : 0); return; }
        if (IS("ctl")) {   // ctl s node <hex> len seed | ctl s addr ip port len seed
            int byn = a[2][0] == 'n'; uint32_t len = strtoul(a[byn ? 4 : 5], 0, 0), seed = strtoul(a[byn ? 5 : 6], 0, 0); uint8_t* d = malloc(len ? len : 1); uint32_t node = strtoul(a[3], 0, 16);
            fill(d, len, seed); op_begin(x, "sctl");
            if (byn) O(",\"by\":\"n\",\"node\":\"%x\"", node); else O(",\"by\":\"a\",\"ip\":\"%s\",\"port\":%d", a[3], atoi(a[4]));
            O(",\"len\":%u,\"h\":%u,\"nul\":0", len, hash(d, len)); op_ev();
            r = byn ? rmc_sub_write_control_message_by_node_id(x->s, node, d, len) : rmc_sub_write_control_message_by_address(x->s, aip(a[3]), atoi(a[4]), d, len);
            memset(d, 0xEE, len); free(d); op_end(r, 0); return;
        }
        if (IS("ctlnull")) {
            uint32_t node = strtoul(a[2], 0, 16); op_begin(x, "sctl"); O(",\"by\":\"n\",\"node\":\"%x\",\"len\":5,\"h\":0,\"nul\":1", node); op_ev();
            r = rmc_sub_write_control_message_by_node_id(x->s, node, 0, 5); op_end(r, 0); return;
        }
        if (IS("close")) { p = pref(x, a[2]); if (!p) return; op_begin(x, "sclose"); O(",\"i\":%d", p->idx); op_ev(); r = rmc_sub_close_connection(x->s, p->idx); op_end(r, 0); return; }
        if (IS("ud")) { x->ud += 0x1000000; op_begin(x, "sud"); op_ev(); r = rmc_sub_set_user_data(x->s, user_data_u64(x->ud)); op_end(r, rmc_sub_user_data(x->s).u64 == x->ud); return; }
        if (IS("annret")) { x->ann_ret = atoi(a[2]); return; }
        if (IS("auto")) { x->auto_disp = atoi(a[2]); return; }
    }
    fprintf(stderr, "bad line: %s %s\n", c, a[1]); _exit(98);
}

// "|LINE" runs in the second world; ">LINE" as well, but from within a callback of the call that comes next, if there is one.
static char* later[256]; static int nlater, flater;
static void elsewhere(void)
{   // run a line of the second world in the middle of a call in the first
    char* o = ob; size_t l = ol, c = oc; int ev = evn, d = ndc, in = indeact; node_t* n = cur; char k[16]; long wc = wcap, rc = rcap; in_port_t dp[64]; int e = errno;
    if (W || !nlater) return;
    memcpy(k, opk, 16); memcpy(dp, dcports, sizeof dp);
    ob = 0; ol = oc = 0; ndc = indeact = 0; cur = 0; wcap = rcap = -1; W = 1;
    run_line(later[flater]); free(later[flater]); ++flater; --nlater;
    W = 0; flush_out(); free(ob);
    ob = o; ol = l; oc = c; evn = ev; ndc = d; indeact = in; cur = n; wcap = wc; rcap = rc; memcpy(opk, k, 16); memcpy(dcports, dp, sizeof dp); errno = e;
}
static void world_line(char* line)
{
    if (line[0] == '>') { if (nlater < 200) { if (!nlater) flater = 0; if (flater + nlater < 256) later[flater + nlater++] = strdup(line + 1); } return; }
    if (line[0] == '|') { while (nlater) elsewhere(); W = 1; run_line(line + 1); W = 0; return; }
    run_line(line);
    while (nlater) elsewhere();
}

static void on_exit_cb(int st, void* arg)
{   // the library called exit(): report it
    if (getpid() == (pid_t)(long) arg) { ol = 0; O("\n{\"e\":\"crash\",\"w\":\"exit\",\"k\":\"%s\"}\n", opk); flush_out(); _exit(0); }
}

// usage: sim SCRIPTS OUT : SCRIPTS holds scenarios separated by "### id" lines
int main(int argc, char** argv)
{
    FILE* f; char* line = 0; size_t cap = 0; ssize_t l; char** lines = 0; int nl = 0, cl = 0; char id[128] = ""; int have = 0;
    if (argc < 3 || !(f = fopen(argv[1], "r"))) return 96;
    outfd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (outfd < 0) return 96;
    for (;;) {
        l = getline(&line, &cap, f);
        if (l < 0 || !strncmp(line, "### ", 4)) {
            if (have) {
                pid_t pid; int st; static int hung = 0;     // a library that hangs again and again has been shown to
                O("{\"e\":\"scen\",\"id\":\"%s\"}\n", id); flush_out(); fflush(stdout); fflush(stderr);
                pid = fork();
                if (!pid) {
                    int i;
                    if (hung >= 4) _exit(0);
                    setenv("X", "1", 1);
                    { int dn = open("/dev/null", O_WRONLY); if (!getenv("SIM_VERBOSE")) dup2(dn, 1); }
                    on_exit(on_exit_cb, (void*)(long) getpid());
                    alarm(10);
                    for (i = 0; i < nl; ++i) world_line(lines[i]);
                    for (i = 0; i < nn; ++i) if (nodes[i].alive && nodes[i].kind != N_RAW) { char b[32]; snprintf(b, sizeof b, "del %s", nodes[i].nm); W = nodes[i].w; run_line(b); }
                    flush_out();
                    _exit(0);
                }
                if (pid < 0 || waitpid(pid, &st, 0) < 0) return 95;
                hung += WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
                if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) return WEXITSTATUS(st);
                if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { O("\n{\"e\":\"crash\",\"w\":\"%s\",\"s\":%d}\n", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); flush_out(); }
            }
            if (l < 0) break;
            while (nl) free(lines[--nl]);
            line[strcspn(line, "\n")] = 0; snprintf(id, sizeof id, "%s", line + 4); have = 1;
            continue;
        }
        if (nl == cl) { cl = cl ? cl * 2 : 256; lines = realloc(lines, cl * sizeof(char*)); }
        lines[nl++] = strdup(line);
    }
    return 0;
}
