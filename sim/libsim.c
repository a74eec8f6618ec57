// libsim: a deterministic machine under an unmodified Linux program.
//
// Every thread of the program runs only while it holds the baton; who gets it next, for how long,
// and what time it is, is decided here from the run's seed (or from a recorded schedule). Futexes,
// thread creation and joining, sleeping, clocks, randomness, sockets, epoll waiting, name
// resolution and output writes of the program go through the functions below instead of libc. The
// network's other end, and with it every network fault, crash and restart, is decided by the
// orchestrator ("world") at the other end of SIM_FD.
//
// Scheduling points: every intercepted synchronisation or I/O call, and (through the compiler's
// coverage callback) every basic-block edge of the instrumented crates.
//
// Without SIM_FD in the environment everything passes through to the kernel.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------- raw system calls
static inline long rsys(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
#define S0(n) rsys(n, 0, 0, 0, 0, 0, 0)
#define S1(n, a) rsys(n, (long)(a), 0, 0, 0, 0, 0)
#define S2(n, a, b) rsys(n, (long)(a), (long)(b), 0, 0, 0, 0)
#define S3(n, a, b, c) rsys(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define S4(n, a, b, c, d) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
#define S5(n, a, b, c, d, e) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), 0)
#define S6(n, a, b, c, d, e, f) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret_errno(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---------------------------------------------------------------- state
#define MAXTHR 4096
#define MAXFD 4096
#define NOTIME UINT64_MAX
enum { T_FREE, T_RUN, T_FUTEX, T_EPOLL, T_SLEEP, T_JOIN, T_SPIN, T_DONE };
enum { R_NONE, R_WOKEN, R_TIMEOUT };
typedef struct {
    int state, reason;
    u32 *faddr;
    u32 fbits;
    u64 deadline;
    u64 seq;  // order of blocking, for FIFO wake-ups
    int epfd;
    u64 io_seen;
    int join;
    u32 baton;
    u64 prio;
    pthread_t pt;
    int has_pt;
} thr_t;
static thr_t T[MAXTHR];
static int nthr;             // slots ever used
static int live[MAXTHR], nlive;
static int cur = -1;
static int on;               // simulation active
static __thread int me = -1;
static u64 vclock;           // ns since start of the run
static u64 next_ev = 0;      // time of the world's next event
static u64 io_gen = 1;
static u64 blockseq;
static i64 rt_skew;
static u64 cfg_rtbase = 1700000000000000000ULL;
static u64 cfg_ncpu = 4;
static u64 cfg_tick = 500, cfg_bbns = 5;
static u64 cfg_policy = 0;   // 0 default only, 1 random, 2 priorities
static u64 cfg_pswitch = 0;  // per 65536
static u64 cfg_bbmean = 0;   // mean edges between preemptions, 0: none
static u64 cfg_pjump = 0, cfg_jumpmax = 0;  // per 65536, ns
static u64 cfg_pspur = 0;    // spurious futex wake-ups per 65536
static u64 cfg_peintr = 0;   // interrupted epoll waits per 65536
static u64 cfg_maxev = 0;    // cap of events handed out per epoll wait, 0: none
static u64 cfg_happy = 0;    // name resolution: 0 IPv4, 1 IPv6 then IPv4, 2 IPv4 then IPv6
static u64 cfg_sndbuf = 0;
static u64 cfg_nofile = 1024; // descriptors the program may have open
static u64 cfg_mem = 6;       // GB of address space it may use
static u64 cfg_maxdec = 40000000, cfg_maxbb = 600000000;
static u64 cfg_pctdepth = 3;
static u64 cfg_pctlen = 20000;
static u64 seed_sched = 1, seed_hash = 1, seed_misc = 1;
static int simfd = -1;
static int debug_stderr;

// statistics
static u64 n_dec, n_dev, n_switch, n_bbpre, n_spur, n_eintr, n_jump, n_outerr, n_partialout, n_accepterr, n_dnserr, n_nofile;
static u64 loghash = 0xcbf29ce484222325ULL, schedhash = 0xcbf29ce484222325ULL;
static u64 bb_total, bb_mark;
static i64 bb_left = INT64_MAX;
static u8 cov[1 << 20];
static u32 ncov;

static void mix(u64 *h, u64 v) { *h = (*h ^ v) * 0x100000001b3ULL; *h ^= *h >> 29; }
static u64 splitmix(u64 *s) {
    u64 z = (*s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static u64 hash2(u64 a, u64 b) { u64 s = a ^ (b * 0x9e3779b97f4a7c15ULL); splitmix(&s); return splitmix(&s); }

static void die(const char *fmt, ...) {
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    S3(SYS_write, 2, b, n);
    S1(SYS_exit_group, 97);
    __builtin_unreachable();
}

// ---------------------------------------------------------------- recorded schedule
typedef struct { u64 k; u64 budget; u64 jump; i64 tid; } dec_t;
static dec_t *replay;
static u64 nreplay, ireplay;
static int replaying;
static int recfd = -1;
static dec_t recbuf[1024];
static int nrec;
static void rec_flush(void) {
    if (recfd >= 0 && nrec) S3(SYS_write, recfd, recbuf, nrec * sizeof(dec_t));
    nrec = 0;
}

// ---------------------------------------------------------------- world channel
enum { M_CONNECT = 1, M_DATA, M_CLOSE, M_SHUT, M_STEP, M_EXIT, M_ACCEPTED, M_LOG, M_LISTEN, M_SAMPLE };
enum { A_END = 0, A_DELIVER = 1, A_FIN, A_RESET, A_NEWCONN, A_CONNECTED, A_CONNFAIL, A_KILL, A_CLOCK, A_OUT, A_DRAIN, A_THROTTLE, A_ACCEPTERR, A_DNSERR, A_SAMPLE };
static u8 *ob;
static size_t obn, obcap;
static void ob_put(const void *p, size_t n) {
    if (obn + n > obcap) {
        size_t c = (obn + n) * 2 + 65536;
        u8 *nb = (u8 *)S6(SYS_mmap, 0, c, 3, 0x22, -1, 0);
        if (obn) memcpy(nb, ob, obn);
        if (ob) S2(SYS_munmap, ob, obcap);
        ob = nb; obcap = c;
    }
    memcpy(ob + obn, p, n);
    obn += n;
}
static void ob_u64(u64 v) { ob_put(&v, 8); }
static void ob_msg(u64 type, u64 a, u64 b) { ob_u64(type); ob_u64(a); ob_u64(b); }
static void ob_bytes(const void *p, size_t n) { ob_u64(n); ob_put(p, n); }
static void ob_flush(void) {
    size_t o = 0;
    while (o < obn) {
        long r = S3(SYS_write, simfd, ob + o, obn - o);
        if (r == -EINTR) continue;
        if (r <= 0) S1(SYS_exit_group, 96);
        o += r;
    }
    obn = 0;
}
static void rd(void *p, size_t n) {
    u8 *q = p;
    while (n) {
        long r = S3(SYS_read, simfd, q, n);
        if (r == -EINTR) continue;
        if (r <= 0) S1(SYS_exit_group, 96);
        q += r; n -= r;
    }
}
static u64 rd64(void) { u64 v; rd(&v, 8); return v; }

// ---------------------------------------------------------------- descriptors
enum { F_NONE, F_SOCK, F_CONNECTING, F_CONN, F_LISTEN };
typedef struct { u8 *p; size_t n, off, cap; } buf_t;
typedef struct {
    int kind;
    u64 conn;
    int peer;       // world's end
    int soerr;
    int reset;
    int fin;        // world wants to send FIN after the backlog
    int throttled;
    int epfd;
    struct epoll_event ev;
    int reg;
    int v6;
    int elsewhere; // bound where nobody looks
    buf_t backlog;
} fd_t;
static fd_t F[MAXFD];
typedef struct { u64 conn; int a; } pend_t;
static pend_t pend[1024];
static int npend;
static int listen_fd = -1;
static int accept_err[64], n_accept_err;
static int dns_err;
static int out_mode[3];      // 0 ok, >0 errno, -1 short writes, -2 EINTR then ok
static u64 next_conn = 2;

static void buf_add(buf_t *b, const void *p, size_t n) {
    if (b->off + b->n + n > b->cap) {
        size_t c = (b->n + n) * 2 + 4096;
        u8 *nb = (u8 *)S6(SYS_mmap, 0, c, 3, 0x22, -1, 0);
        if (b->n) memcpy(nb, b->p + b->off, b->n);
        if (b->p) S2(SYS_munmap, b->p, b->cap);
        b->p = nb; b->cap = c; b->off = 0;
    }
    memcpy(b->p + b->off + b->n, p, n);
    b->n += n;
}
static void buf_free(buf_t *b) {
    if (b->p) S2(SYS_munmap, b->p, b->cap);
    memset(b, 0, sizeof *b);
}
static int find_conn(u64 conn) {
    for (int i = 0; i < MAXFD; i++)
        if ((F[i].kind == F_CONN || F[i].kind == F_CONNECTING) && F[i].conn == conn) return i;
    return -1;
}
static void backlog_push(fd_t *f) {
    while (f->backlog.n && f->peer >= 0) {
        long r = S6(SYS_sendto, f->peer, f->backlog.p + f->backlog.off, f->backlog.n, MSG_NOSIGNAL | MSG_DONTWAIT, 0, 0);
        if (r <= 0) break;
        f->backlog.off += r; f->backlog.n -= r;
        io_gen++;
    }
    if (f->backlog.n == 0) {
        f->backlog.off = 0;
        if (f->fin && f->peer >= 0) { S2(SYS_shutdown, f->peer, SHUT_WR); f->fin = 0; io_gen++; }
    }
}
// Passes what the program has written on this connection to the world.
static void drain(fd_t *f, size_t max) {
    static u8 tmp[65536];
    while (f->peer >= 0 && max) {
        long r = S6(SYS_recvfrom, f->peer, tmp, max < sizeof tmp ? max : sizeof tmp, MSG_DONTWAIT, 0, 0);
        if (r <= 0) break;
        ob_msg(M_DATA, f->conn, 0);
        ob_bytes(tmp, r);
        max -= r;
        io_gen++;
    }
}
static void rereg(int fd) {
    if (F[fd].reg) {
        struct epoll_event ev = F[fd].ev;
        long r = S4(SYS_epoll_ctl, F[fd].epfd, EPOLL_CTL_ADD, fd, &ev);
        if (r < 0 && r != -EEXIST) die("libsim: re-register %d: %ld", fd, r);
    }
}
static void mkpair(int sv[2]) {
    long r = S4(SYS_socketpair, AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv);
    if (r < 0) die("libsim: socketpair %ld", r);
    if (cfg_sndbuf) { int v = (int)cfg_sndbuf; S5(SYS_setsockopt, sv[0], SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
}
static int hi_fd(int fd) {  // move the world's ends out of the program's numbering
    long r = S3(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 2048);
    if (r < 0) die("libsim: dup %ld", r);
    S1(SYS_close, fd);
    return (int)r;
}

static void finish(int code);

// What the program holds: threads, descriptors, bytes.
static void sample(void) {
    u64 fds = 0;
    for (int i = 0; i < MAXFD && i < 2048; i++) if (i != 100 && i != 101 && i != 102 && S3(SYS_fcntl, i, F_GETFD, 0) >= 0) fds++;
    struct mallinfo2 m = mallinfo2();
    u64 st[] = {(u64)nlive, fds, m.uordblks + m.hblkhd};
    ob_msg(M_SAMPLE, 0, 0);
    ob_bytes(st, sizeof st);
}

static void apply_actions(void) {
    for (;;) {
        u64 type = rd64(), conn = rd64(), arg = rd64(), n = rd64();
        static u8 *tmp; static size_t cap;
        if (n) {
            if (n > cap) { if (tmp) S2(SYS_munmap, tmp, cap); cap = n * 2 + 65536; tmp = (u8 *)S6(SYS_mmap, 0, cap, 3, 0x22, -1, 0); }
            rd(tmp, n);
        }
        if (type == A_END) {  // end of list, arg = time of next event, conn = 1: end of run
            if (conn == 1) finish(0);
            next_ev = arg;
            return;
        }
        mix(&loghash, type); mix(&loghash, conn); mix(&loghash, n);
        int fd = conn ? find_conn(conn) : -1;
        switch (type) {
        case A_DELIVER:
            if (fd >= 0 && F[fd].peer >= 0) { buf_add(&F[fd].backlog, tmp, n); backlog_push(&F[fd]); }
            break;
        case A_FIN:
            if (fd >= 0) { F[fd].fin = 1; backlog_push(&F[fd]); }
            break;
        case A_RESET:
            if (fd >= 0 && F[fd].peer >= 0) {
                F[fd].reset = 1;
                drain(&F[fd], SIZE_MAX);
                S1(SYS_close, F[fd].peer);
                F[fd].peer = -1;
                buf_free(&F[fd].backlog);
                io_gen++;
            }
            break;
        case A_NEWCONN: {
            if (listen_fd < 0 || npend >= 1024) die("libsim: connection before listen");
            int sv[2];
            mkpair(sv);
            sv[1] = hi_fd(sv[1]);
            fd_t *f = &F[sv[0]];
            memset(f, 0, sizeof *f);
            f->kind = F_CONN; f->conn = conn; f->peer = sv[1]; f->throttled = (int)arg;
            pend[npend].conn = conn; pend[npend].a = sv[0]; npend++;
            u64 one = 1;
            S3(SYS_write, listen_fd, &one, 8);
            io_gen++;
            break;
        }
        case A_CONNECTED:
        case A_CONNFAIL:
            if (fd >= 0 && F[fd].kind == F_CONNECTING) {
                int sv[2];
                mkpair(sv);
                long r = S3(SYS_dup3, sv[0], fd, O_CLOEXEC);
                if (r < 0) die("libsim: dup3 %ld", r);
                S1(SYS_close, sv[0]);
                F[fd].kind = F_CONN;
                if (type == A_CONNECTED) {
                    F[fd].peer = hi_fd(sv[1]);
                    F[fd].throttled = (int)arg;
                } else {
                    F[fd].soerr = (int)arg;
                    F[fd].peer = -1; F[fd].reset = 1;
                    S1(SYS_close, sv[1]);
                }
                rereg(fd);
                io_gen++;
            }
            break;
        case A_KILL: finish(9); break;
        case A_CLOCK: rt_skew += (i64)arg; break;
        case A_OUT: out_mode[conn & 3] = (int)(i64)arg; break;
        case A_DRAIN: if (fd >= 0) { if (arg == 0) { F[fd].throttled = 0; drain(&F[fd], SIZE_MAX); } else drain(&F[fd], arg); } break;
        case A_ACCEPTERR: if (n_accept_err < 64) accept_err[n_accept_err++] = (int)arg; break;
        case A_DNSERR: dns_err += (int)arg; break;
        case A_SAMPLE: sample(); break;
        default: die("libsim: action %lu", type);
        }
    }
}

static void charge(void) { vclock += (bb_total - bb_mark) * cfg_bbns; bb_mark = bb_total; }

static void step(u64 why) {
    // What is drained while actions are applied is sent with another round.
    do {
        ob_msg(M_STEP, vclock, why);
        ob_flush();
        apply_actions();
        why = 3;
    } while (obn);
}

static void finish(int code) {
    u32 ne = 0;
    for (u32 i = 1; i <= ncov; i++) ne += cov[i];
    rec_flush();
    u64 st[] = {(u64)code, vclock, n_dec, n_dev, n_switch, n_bbpre, n_spur, n_eintr, n_jump, n_outerr, n_partialout,
                n_accepterr, n_dnserr, loghash, schedhash, bb_total, (u64)nthr, ne, ncov, n_nofile};
    ob_msg(M_EXIT, code, 0);
    ob_bytes(st, sizeof st);
    // Edge bitmap.
    static u8 bm[(1 << 20) / 8];
    for (u32 i = 1; i <= ncov; i++) if (cov[i]) bm[i >> 3] |= 1 << (i & 7);
    ob_bytes(bm, (ncov >> 3) + 1);
    ob_flush();
    S1(SYS_exit_group, 0);
    __builtin_unreachable();
}

// ---------------------------------------------------------------- scheduler
static int zombie;           // kernel id of a thread that handed over for the last time
static void baton_wait(int t) {
    while (__atomic_load_n(&T[t].baton, __ATOMIC_ACQUIRE) == 0) S4(SYS_futex, &T[t].baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
    __atomic_store_n(&T[t].baton, 0, __ATOMIC_RELAXED);
    if (zombie) {
        // What it still does on its way out (freeing caches, its stack) must be over before anyone runs.
        int pid = (int)S0(SYS_getpid);
        while (S3(SYS_tgkill, pid, zombie, 0) == 0) S0(SYS_sched_yield);
        zombie = 0;
    }
}
static void baton_give(int t) {
    __atomic_store_n(&T[t].baton, 1, __ATOMIC_RELEASE);
    S3(SYS_futex, &T[t].baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
static u64 pct_points[16];
static int npct;
static u64 rng_sched;

static void wake_expired(void) {
    for (int i = 0; i < nlive; i++) {
        thr_t *t = &T[live[i]];
        if (t->state > T_RUN && t->state < T_DONE && t->deadline <= vclock) { t->state = T_RUN; t->reason = R_TIMEOUT; }
    }
}
static void wake_epoll(void) {
    for (int i = 0; i < nlive; i++) {
        thr_t *t = &T[live[i]];
        if (t->state == T_EPOLL && t->io_seen != io_gen) {
            struct pollfd p = {t->epfd, POLLIN, 0};
            t->io_seen = io_gen;
            if (S3(SYS_poll, &p, 1, 0) > 0) { t->state = T_RUN; t->reason = R_WOKEN; }
        }
    }
}
// Decides who runs next. `yielding`: the current thread asked to let others go first.
static int choose(int kind, int yielding) {
    int run[MAXTHR], n;
    vclock += cfg_tick;
    charge();
    for (;;) {
        if (vclock >= next_ev) step(1);
        wake_expired();
        wake_epoll();
        n = 0;
        for (int i = 0; i < nlive; i++) if (T[live[i]].state == T_RUN) run[n++] = live[i];
        if (n) break;
        // Nobody can run: time passes.
        u64 d = next_ev;
        for (int i = 0; i < nlive; i++) {
            thr_t *t = &T[live[i]];
            if (t->state > T_RUN && t->state < T_DONE && t->deadline < d) d = t->deadline;
        }
        if (d == NOTIME) step(2); else if (d > vclock) vclock = d;
    }
    n_dec++;
    if (n_dec > cfg_maxdec) finish(3);
    if (bb_total > cfg_maxbb) finish(4);
    // Default: the current thread goes on; a yielding or blocked one hands over to the next by number.
    int def = -1;
    if (cur >= 0 && T[cur].state == T_RUN && !yielding) def = cur;
    else {
        for (int i = 0; i < n; i++) if (run[i] > cur) { if (def < 0 || run[i] < def) def = run[i]; }
        if (def < 0) { def = run[0]; for (int i = 1; i < n; i++) if (run[i] < def) def = run[i]; }
    }
    int pick = def;
    i64 budget = 0;
    u64 jump = 0;
    if (replaying) {
        while (ireplay < nreplay && replay[ireplay].k < n_dec) ireplay++;
        if (ireplay < nreplay && replay[ireplay].k == n_dec) {
            dec_t *d = &replay[ireplay++];
            for (int i = 0; i < n; i++) if (run[i] == d->tid) pick = run[i];
            budget = d->budget; jump = d->jump;
        }
    } else if (cfg_policy == 1) {
        if (n > 1 && (splitmix(&rng_sched) & 0xffff) < cfg_pswitch) {
            pick = run[splitmix(&rng_sched) % n];
            if (yielding && pick == cur) pick = def;
        }
    } else if (cfg_policy == 2) {
        for (int i = 0; i < npct; i++) if (pct_points[i] == n_dec && cur >= 0) T[cur].prio = i;
        if (yielding && cur >= 0) T[cur].prio = 0;
        pick = run[0];
        for (int i = 1; i < n; i++)
            if (T[run[i]].prio > T[pick].prio || (T[run[i]].prio == T[pick].prio && run[i] != cur && pick == cur)) pick = run[i];
        if (yielding && pick == cur) pick = def;
    }
    if (!replaying) {
        if (cfg_bbmean && (splitmix(&rng_sched) & 3) == 0) {
            // Heavy-tailed slice lengths.
            u64 r = splitmix(&rng_sched);
            u64 span = cfg_bbmean >> (r & 7);
            budget = 1 + (i64)((r >> 8) % (2 * span + 2));
        }
        if (cfg_pjump && (splitmix(&rng_sched) & 0xffff) < cfg_pjump) jump = 1 + splitmix(&rng_sched) % cfg_jumpmax;
    }
    if (pick != def || budget || jump) {
        n_dev++;
        if (recfd >= 0) {
            if (nrec == 1024) rec_flush();
            recbuf[nrec++] = (dec_t){n_dec, (u64)budget, jump, pick};
        }
    }
    if (jump) { n_jump++; vclock += jump; if (vclock >= next_ev) step(1); wake_expired(); }
    bb_left = budget ? budget : 200000;
    if (pick != cur) n_switch++;
    mix(&loghash, (u64)pick * 64 + kind); mix(&loghash, vclock);
    if (pick != cur) { mix(&schedhash, (u64)pick * 64 + kind); }
    return pick;
}
static void go(int kind, int yielding) {
    int self = me;
    int next = choose(kind, yielding);
    if (next == self) { cur = self; return; }
    cur = next;
    baton_give(next);
    baton_wait(self);
}
static void point(int kind) { if (on && me >= 0) go(kind, 0); }
static int block(int state, u64 deadline, int kind) {
    thr_t *t = &T[me];
    t->state = state; t->deadline = deadline; t->reason = R_NONE; t->seq = ++blockseq;
    go(kind, 0);
    return T[me].reason;
}
static void unlive(int id) {
    for (int i = 0; i < nlive; i++) if (live[i] == id) { for (int j = i; j + 1 < nlive; j++) live[j] = live[j + 1]; nlive--; return; }
}

enum { K_FUTEX_WAIT = 1, K_FUTEX_WAKE, K_YIELD, K_EPOLL, K_IO, K_SLEEP, K_CREATE, K_EXIT, K_JOIN, K_BB, K_START, K_OUT, K_SPIN };

// ---------------------------------------------------------------- coverage callbacks
__attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) {
    if (a == b || *a) return;
    for (; a < b; a++) if (ncov + 1 < sizeof cov) *a = ++ncov; else *a = 0;
}
static void bb_preempt(void) {
    n_bbpre++;
    go(K_BB, 0);
}
__attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard(u32 *g) {
    cov[*g] = 1;
    if (!on) return;
    bb_total++;
    if (--bb_left <= 0) {
        if (me < 0) { bb_left = 1; return; }
        int e = errno;
        bb_preempt();
        errno = e;
    }
}

// ---------------------------------------------------------------- futex, yield, randomness
static u64 ts_ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ULL + t->tv_nsec; }
#define MONO_BASE 5000000000000ULL
static u64 rt_now(void) { return cfg_rtbase + vclock + rt_skew; }

static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *to, u32 *addr2, u32 val3) {
    int cmd = op & FUTEX_CMD_MASK;
    switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
        static u64 nwait;
        nwait++;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        if (cfg_pspur && (hash2(seed_misc ^ 0x5b, nwait) & 0xffff) < cfg_pspur) {
            n_spur++;
            go(K_FUTEX_WAIT, 1);
            if (hash2(seed_misc ^ 0x5c, nwait) & 1) { errno = EINTR; return -1; }
            return 0;
        }
        u64 dl = NOTIME;
        if (to) {
            u64 t = ts_ns(to);
            if (cmd == FUTEX_WAIT) dl = vclock + t;
            else if (op & FUTEX_CLOCK_REALTIME) { u64 n = rt_now(); dl = t > n ? vclock + (t - n) : vclock; }
            else { u64 n = MONO_BASE + vclock; dl = t > n ? vclock + (t - n) : vclock; }
        }
        T[me].faddr = addr;
        T[me].fbits = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
        int r = block(T_FUTEX, dl, K_FUTEX_WAIT);
        if (r == R_TIMEOUT) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
        u32 bits = cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu;
        long n = 0;
        while ((u32)n < val) {
            int best = -1;
            for (int i = 0; i < nlive; i++) {
                thr_t *t = &T[live[i]];
                if (t->state == T_FUTEX && t->faddr == addr && (t->fbits & bits) && (best < 0 || t->seq < T[best].seq)) best = live[i];
            }
            if (best < 0) break;
            T[best].state = T_RUN; T[best].reason = R_WOKEN;
            n++;
        }
        go(K_FUTEX_WAKE, 0);
        return n;
    }
    default: die("libsim: futex operation %d", cmd);
    }
    return 0;
}
static u64 rng_hash;
static void fill_random(void *p, size_t n) {
    u8 *q = p;
    while (n) { u64 v = splitmix(&rng_hash); size_t k = n < 8 ? n : 8; memcpy(q, &v, k); q += k; n -= k; }
}
__attribute__((visibility("default"))) long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on && me >= 0) {
        if (n == SYS_futex) return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32 *)e, (u32)f);
        if (n == SYS_getrandom) { fill_random((void *)a, (size_t)b); return b; }
    }
    return ret_errno(rsys(n, a, b, c, d, e, f));
}
__attribute__((visibility("default"))) ssize_t getrandom(void *p, size_t n, unsigned fl) {
    if (on) { fill_random(p, n); return n; }
    return ret_errno(S3(SYS_getrandom, p, n, fl));
}
__attribute__((visibility("default"))) int getentropy(void *p, size_t n) {
    if (on) { fill_random(p, n); return 0; }
    return ret_errno(S3(SYS_getrandom, p, n, 0)) < 0 ? -1 : 0;
}
__attribute__((visibility("default"))) int sched_yield(void) {
    if (on && me >= 0) { go(K_YIELD, 1); return 0; }
    return (int)ret_errno(S0(SYS_sched_yield));
}
__attribute__((visibility("default"))) int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *m) {
    if (on) {
        memset(m, 0, n);
        for (u64 i = 0; i < cfg_ncpu; i++) CPU_SET_S(i, n, m);
        return 0;
    }
    long r = S3(SYS_sched_getaffinity, pid, n, m);
    if (r < 0) { errno = -r; return -1; }
    if ((size_t)r < n) memset((char *)m + r, 0, n - r);
    return 0;
}
__attribute__((visibility("default"))) long sysconf(int name) {
    static long (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "sysconf");
    if (on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return cfg_ncpu;
    return real(name);
}

// ---------------------------------------------------------------- clocks and sleeping
__attribute__((visibility("default"))) int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!on) return (int)ret_errno(S2(SYS_clock_gettime, id, ts));
    u64 v;
    charge();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) v = rt_now(); else v = MONO_BASE + vclock;
    ts->tv_sec = v / 1000000000ULL;
    ts->tv_nsec = v % 1000000000ULL;
    return 0;
}
__attribute__((visibility("default"))) int gettimeofday(struct timeval *tv, void *tz) {
    if (!on) return (int)ret_errno(S2(SYS_gettimeofday, tv, tz));
    u64 v = rt_now();
    tv->tv_sec = v / 1000000000ULL; tv->tv_usec = v % 1000000000ULL / 1000;
    return 0;
}
__attribute__((visibility("default"))) time_t time(time_t *t) {
    time_t v = on ? (time_t)(rt_now() / 1000000000ULL) : (time_t)S1(SYS_time, 0);
    if (t) *t = v;
    return v;
}
__attribute__((visibility("default"))) int clock_nanosleep(clockid_t id, int fl, const struct timespec *req, struct timespec *rem) {
    if (on && me >= 0) {
        u64 t = ts_ns(req), dl = vclock + t;
        if (fl & TIMER_ABSTIME) { u64 n = id == CLOCK_REALTIME ? rt_now() : MONO_BASE + vclock; dl = t > n ? vclock + (t - n) : vclock; }
        block(T_SLEEP, dl, K_SLEEP);
        return 0;
    }
    long r = S4(SYS_clock_nanosleep, id, fl, req, rem);
    return r < 0 ? (int)-r : 0;
}
__attribute__((visibility("default"))) int nanosleep(const struct timespec *req, struct timespec *rem) {
    int r = clock_nanosleep(CLOCK_MONOTONIC, 0, req, rem);
    if (r) { errno = r; return -1; }
    return 0;
}
__attribute__((visibility("default"))) int usleep(useconds_t us) {
    struct timespec ts = {us / 1000000, (us % 1000000) * 1000L};
    return nanosleep(&ts, 0);
}

// ---------------------------------------------------------------- threads
typedef struct { void *(*fn)(void *); void *arg; int id; } start_t;
static pthread_key_t exit_key;
static void on_thread_exit(void *v) {
    long n = (long)v;
    if (n < 3) { pthread_setspecific(exit_key, (void *)(n + 1)); return; }
    // Last round of destructors: leave the simulation for good.
    int self = me;
    T[self].state = T_DONE;
    unlive(self);
    for (int i = 0; i < nlive; i++) {
        thr_t *t = &T[live[i]];
        if (t->state == T_JOIN && t->join == self) { t->state = T_RUN; t->reason = R_WOKEN; }
    }
    int next = choose(K_EXIT, 0);
    cur = next;
    me = -1;
    zombie = (int)S0(SYS_gettid);
    baton_give(next);
}
static void *tramp(void *v) {
    start_t s = *(start_t *)v;
    me = s.id;
    baton_wait(me);
    free(v);
    pthread_setspecific(exit_key, (void *)1);
    return s.fn(s.arg);
}
static int new_slot(void) {
    if (nthr >= MAXTHR) die("libsim: too many threads");
    int id = nthr++;
    memset(&T[id], 0, sizeof T[id]);
    T[id].state = T_RUN;
    T[id].deadline = NOTIME;
    T[id].prio = 16 + (hash2(seed_sched ^ 0x77, id) >> 8);
    live[nlive++] = id;
    return id;
}
__attribute__((visibility("default"))) int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    if (!on || me < 0) return real(t, at, fn, arg);
    start_t *s = malloc(sizeof *s);
    int id = new_slot();
    *s = (start_t){fn, arg, id};
    int r = real(t, at, tramp, s);
    if (r) { T[id].state = T_DONE; unlive(id); free(s); return r; }
    T[id].pt = *t; T[id].has_pt = 1;
    point(K_CREATE);
    return 0;
}
__attribute__((visibility("default"))) int pthread_join(pthread_t t, void **ret) {
    static int (*real)(pthread_t, void **);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
    if (on && me >= 0) {
        for (int i = nthr - 1; i >= 0; i--)
            if (T[i].has_pt && pthread_equal(T[i].pt, t)) {
                if (T[i].state != T_DONE) { T[me].join = i; block(T_JOIN, NOTIME, K_JOIN); }
                T[i].has_pt = 0;
                break;
            }
    }
    return real(t, ret);
}
__attribute__((visibility("default"))) int pthread_detach(pthread_t t) {
    static int (*real)(pthread_t);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_detach");
    if (on) for (int i = nthr - 1; i >= 0; i--) if (T[i].has_pt && pthread_equal(T[i].pt, t)) { T[i].has_pt = 0; break; }
    return real(t);
}
// Locks of C libraries (OpenSSL): never wait inside the kernel while holding the baton.
#define SPINLOCK(name, ty, tryname)                                                   \
    __attribute__((visibility("default"))) int name(ty *m) {                          \
        static int (*real)(ty *), (*tr)(ty *);                                        \
        if (!real) { real = dlsym(RTLD_NEXT, #name); tr = dlsym(RTLD_NEXT, #tryname); } \
        if (!on || me < 0) return real(m);                                            \
        int r;                                                                        \
        while ((r = tr(m)) == EBUSY) go(K_SPIN, 1);                                   \
        return r;                                                                     \
    }
SPINLOCK(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock)
SPINLOCK(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
SPINLOCK(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)

// ---------------------------------------------------------------- epoll
__attribute__((visibility("default"))) int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    if (on && fd >= 0 && fd < MAXFD && F[fd].kind) {
        if (op == EPOLL_CTL_DEL) F[fd].reg = 0;
        else { F[fd].reg = 1; F[fd].epfd = ep; F[fd].ev = *ev; }
    }
    if (on) io_gen++;
    return (int)ret_errno(S4(SYS_epoll_ctl, ep, op, fd, ev));
}
__attribute__((visibility("default"))) int epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
    if (!on || me < 0) return (int)ret_errno(S4(SYS_epoll_wait, ep, evs, max, timeout));
    static u64 nw;
    u64 dl = timeout < 0 ? NOTIME : vclock + (u64)timeout * 1000000ULL;
    if (cfg_maxev && max > (int)cfg_maxev) max = (int)cfg_maxev;
    nw++;
    if (cfg_peintr && timeout != 0 && (hash2(seed_misc ^ 0xe1, nw) & 0xffff) < cfg_peintr) {
        n_eintr++;
        go(K_EPOLL, 1);
        errno = EINTR;
        return -1;
    }
    point(K_EPOLL);
    for (;;) {
        long r = S4(SYS_epoll_wait, ep, evs, max, 0);
        if (r != 0) { mix(&loghash, r); return (int)ret_errno(r); }
        if (timeout == 0 || vclock >= dl) return 0;
        T[me].epfd = ep;
        T[me].io_seen = io_gen;
        block(T_EPOLL, dl, K_EPOLL);
    }
}
__attribute__((visibility("default"))) int epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const sigset_t *ss) {
    if (on && me >= 0) return epoll_wait(ep, evs, max, timeout);
    return (int)ret_errno(S6(SYS_epoll_pwait, ep, evs, max, timeout, ss, 8));
}
__attribute__((visibility("default"))) int poll(struct pollfd *p, nfds_t n, int timeout) {
    if (on && me >= 0 && timeout != 0) die("libsim: blocking poll");
    return (int)ret_errno(S3(SYS_poll, p, n, timeout));
}

// ---------------------------------------------------------------- sockets
#define SIMFD(fd) (on && (fd) >= 0 && (fd) < MAXFD && F[fd].kind)
__attribute__((visibility("default"))) int socket(int dom, int type, int proto) {
    if (on && me >= 0 && (dom == AF_INET || dom == AF_INET6) && (type & 0xf) == SOCK_STREAM) {
        // A descriptor that is neither readable nor writable until connected.
        int fl = TFD_CLOEXEC | ((type & SOCK_NONBLOCK) ? TFD_NONBLOCK : 0);
        long fd = S2(SYS_timerfd_create, CLOCK_MONOTONIC, fl);
        if (fd < 0) return (int)ret_errno(fd);
        if ((u64)fd >= cfg_nofile) { S1(SYS_close, fd); n_nofile++; errno = EMFILE; return -1; }
        memset(&F[fd], 0, sizeof F[fd]);
        F[fd].kind = F_SOCK; F[fd].peer = -1; F[fd].v6 = dom == AF_INET6;
        return (int)fd;
    }
    return (int)ret_errno(S3(SYS_socket, dom, type, proto));
}
__attribute__((visibility("default"))) int bind(int fd, const struct sockaddr *a, socklen_t l) {
    if (SIMFD(fd)) {
        // The address clients of the server know is 127.0.0.1:4040: one bound
        // to another port or to another address is not found by any of them.
        int found = 0;
        if (a && a->sa_family == AF_INET) {
            const struct sockaddr_in *v = (const void *)a;
            u32 ip = ntohl(v->sin_addr.s_addr);
            found = ntohs(v->sin_port) == 4040 && (ip == INADDR_LOOPBACK || ip == INADDR_ANY);
        } else if (a && a->sa_family == AF_INET6) {
            const struct sockaddr_in6 *v = (const void *)a;
            found = ntohs(v->sin6_port) == 4040 && IN6_IS_ADDR_UNSPECIFIED(&v->sin6_addr);
        }
        F[fd].elsewhere = !found;
        return 0;
    }
    return (int)ret_errno(S3(SYS_bind, fd, a, l));
}
__attribute__((visibility("default"))) int listen(int fd, int n) {
    if (SIMFD(fd)) {
        long e = S2(SYS_eventfd2, 0, EFD_SEMAPHORE | EFD_NONBLOCK | EFD_CLOEXEC);
        S3(SYS_dup3, e, fd, O_CLOEXEC);
        S1(SYS_close, e);
        F[fd].kind = F_LISTEN;
        listen_fd = fd;
        rereg(fd);
        if (F[fd].elsewhere) return 0;
        ob_msg(M_LISTEN, 0, 0);
        step(0);
        return 0;
    }
    return (int)ret_errno(S2(SYS_listen, fd, n));
}
static void fill_addr(struct sockaddr *a, socklen_t *l, int port, int v6) {
    if (!a || !l) return;
    if (v6) {
        struct sockaddr_in6 s = {0};
        s.sin6_family = AF_INET6; s.sin6_port = htons(port); s.sin6_addr = in6addr_loopback;
        memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
    } else {
        struct sockaddr_in s = {0};
        s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
    }
}
__attribute__((visibility("default"))) int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    if (!SIMFD(fd)) return (int)ret_errno(S4(SYS_accept4, fd, a, l, fl));
    point(K_IO);
    if (npend == 0) { errno = EAGAIN; return -1; }
    if (n_accept_err) {
        int e = accept_err[0];
        n_accept_err--;
        memmove(accept_err, accept_err + 1, n_accept_err * sizeof(int));
        n_accepterr++;
        errno = e;
        return -1;
    }
    u64 v;
    int s = pend[0].a;
    if ((u64)s >= cfg_nofile) {  // numbered on arrival; now the lowest free number counts
        long n = S3(SYS_fcntl, s, F_DUPFD_CLOEXEC, 0);
        if (n < 0 || (u64)n >= cfg_nofile) { if (n >= 0) S1(SYS_close, n); n_nofile++; errno = EMFILE; return -1; }
        F[n] = F[s];
        memset(&F[s], 0, sizeof F[s]);
        S1(SYS_close, s);
        s = (int)n;
    }
    S3(SYS_read, fd, &v, 8);
    npend--;
    memmove(pend, pend + 1, npend * sizeof(pend_t));
    fill_addr(a, l, 40000 + (int)(F[s].conn % 20000), 0);
    return s;
}
__attribute__((visibility("default"))) int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
__attribute__((visibility("default"))) int connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (!SIMFD(fd)) return (int)ret_errno(S3(SYS_connect, fd, a, l));
    if (F[fd].kind != F_SOCK) { errno = EISCONN; return -1; }
    int port = ntohs(a->sa_family == AF_INET6 ? ((struct sockaddr_in6 *)a)->sin6_port : ((struct sockaddr_in *)a)->sin_port);
    F[fd].kind = F_CONNECTING;
    F[fd].conn = next_conn;
    next_conn += 2;
    ob_msg(M_CONNECT, F[fd].conn, (u64)port | (a->sa_family == AF_INET6 ? 1 << 20 : 0));
    step(0);
    point(K_IO);
    errno = EINPROGRESS;
    return -1;
}
static int conn_gone(fd_t *f) { return f->peer < 0; }
static long after_write(int fd, long r) {
    if (r > 0) {
        io_gen++;
        mix(&loghash, r);
        if (!F[fd].throttled) {
            drain(&F[fd], SIZE_MAX);
            if (obn) step(0);
        }
    }
    point(K_IO);
    return ret_errno(r);
}
static long sim_sendmsg(int fd, const struct msghdr *m) {
    fd_t *f = &F[fd];
    if (f->kind != F_CONN) { errno = ENOTCONN; return -1; }
    if (conn_gone(f)) { point(K_IO); errno = f->reset ? ECONNRESET : EPIPE; return -1; }
    return after_write(fd, S3(SYS_sendmsg, fd, m, MSG_NOSIGNAL | MSG_DONTWAIT));
}
static long sim_send(int fd, const void *p, size_t n) {
    struct iovec v = {(void *)p, n};
    struct msghdr m = {0};
    m.msg_iov = &v; m.msg_iovlen = 1;
    return sim_sendmsg(fd, &m);
}
static long sim_recvv(int fd, struct iovec *v, int nv, int fl) {
    fd_t *f = &F[fd];
    if (f->kind != F_CONN) { errno = ENOTCONN; return -1; }
    point(K_IO);
    struct msghdr m = {0};
    m.msg_iov = v; m.msg_iovlen = nv;
    long r = S3(SYS_recvmsg, fd, &m, MSG_DONTWAIT | (fl & MSG_PEEK));
    if (r > 0) { backlog_push(f); mix(&loghash, r); }
    if (r == 0 && f->reset) r = -ECONNRESET;
    return ret_errno(r);
}
static long sim_recv(int fd, void *p, size_t n, int fl) { struct iovec v = {p, n}; return sim_recvv(fd, &v, 1, fl); }
__attribute__((visibility("default"))) ssize_t send(int fd, const void *p, size_t n, int fl) {
    if (SIMFD(fd)) return sim_send(fd, p, n);
    return ret_errno(S6(SYS_sendto, fd, p, n, fl, 0, 0));
}
__attribute__((visibility("default"))) ssize_t sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    if (SIMFD(fd)) return sim_send(fd, p, n);
    return ret_errno(S6(SYS_sendto, fd, p, n, fl, a, l));
}
__attribute__((visibility("default"))) ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    if (SIMFD(fd)) return sim_sendmsg(fd, m);
    return ret_errno(S3(SYS_sendmsg, fd, m, fl));
}
__attribute__((visibility("default"))) ssize_t recv(int fd, void *p, size_t n, int fl) {
    if (SIMFD(fd)) return sim_recv(fd, p, n, fl);
    return ret_errno(S6(SYS_recvfrom, fd, p, n, fl, 0, 0));
}
__attribute__((visibility("default"))) ssize_t recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    if (SIMFD(fd)) return sim_recv(fd, p, n, fl);
    return ret_errno(S6(SYS_recvfrom, fd, p, n, fl, a, l));
}
__attribute__((visibility("default"))) ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
    if (SIMFD(fd)) return sim_recvv(fd, m->msg_iov, m->msg_iovlen, fl);
    return ret_errno(S3(SYS_recvmsg, fd, m, fl));
}
static long sim_out(int fd, const void *p, size_t n) {
    static u64 nout;
    if (fd == 2) { size_t k = n < 2000 ? n : 2000; ob_msg(M_LOG, fd, 0); ob_bytes(p, k); if (debug_stderr) S3(SYS_write, 2, p, n); }
    nout++;
    int m = out_mode[fd];
    if (m == 0) return n;
    point(K_OUT);
    if (m > 0) { n_outerr++; return -m; }
    if (m == -1) { n_partialout++; return n > 1 ? (long)(1 + hash2(seed_misc, nout) % (n - 1)) : (long)n; }
    if (m == -2) { if (hash2(seed_misc, nout) & 1) { n_outerr++; return -EINTR; } return n; }
    return n;
}
__attribute__((visibility("default"))) ssize_t write(int fd, const void *p, size_t n) {
    if (on && me >= 0) {
        if (fd == 1 || fd == 2) return ret_errno(sim_out(fd, p, n));
        if (SIMFD(fd)) return sim_send(fd, p, n);
        long r = ret_errno(S3(SYS_write, fd, p, n));
        io_gen++;
        point(K_IO);
        return r;
    }
    return ret_errno(S3(SYS_write, fd, p, n));
}
__attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec *v, int n) {
    if (on && me >= 0) {
        if (fd == 1 || fd == 2) return ret_errno(n ? sim_out(fd, v[0].iov_base, v[0].iov_len) : 0);
        if (SIMFD(fd)) {
            struct msghdr m = {0};
            m.msg_iov = (struct iovec *)v; m.msg_iovlen = n;
            return sim_sendmsg(fd, &m);
        }
    }
    return ret_errno(S3(SYS_writev, fd, v, n));
}
__attribute__((visibility("default"))) ssize_t read(int fd, void *p, size_t n) {
    if (on && SIMFD(fd)) {
        if (F[fd].kind == F_CONN) return sim_recv(fd, p, n, 0);
    }
    return ret_errno(S3(SYS_read, fd, p, n));
}
__attribute__((visibility("default"))) ssize_t readv(int fd, const struct iovec *v, int n) {
    if (on && SIMFD(fd) && F[fd].kind == F_CONN) return sim_recvv(fd, (struct iovec *)v, n, 0);
    return ret_errno(S3(SYS_readv, fd, v, n));
}
__attribute__((visibility("default"))) int shutdown(int fd, int how) {
    if (SIMFD(fd)) {
        if (F[fd].kind == F_CONN && F[fd].peer >= 0) {
            drain(&F[fd], SIZE_MAX);
            S2(SYS_shutdown, fd, how);
            if (how != SHUT_RD) { ob_msg(M_SHUT, F[fd].conn, 0); step(0); }
        }
        return 0;
    }
    return (int)ret_errno(S2(SYS_shutdown, fd, how));
}
__attribute__((visibility("default"))) int close(int fd) {
    if (SIMFD(fd)) {
        fd_t *f = &F[fd];
        int kind = f->kind;
        u64 conn = f->conn;
        if (kind == F_CONN && f->peer >= 0) {
            drain(f, SIZE_MAX);
            S1(SYS_close, f->peer);
        }
        buf_free(&f->backlog);
        memset(f, 0, sizeof *f);
        if (fd == listen_fd) listen_fd = -1;
        long r = S1(SYS_close, fd);
        io_gen++;
        if (kind == F_CONN || kind == F_CONNECTING) { ob_msg(M_CLOSE, conn, 0); step(0); point(K_IO); }
        return (int)ret_errno(r);
    }
    return (int)ret_errno(S1(SYS_close, fd));
}
__attribute__((visibility("default"))) int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) {
    if (SIMFD(fd)) return 0;
    return (int)ret_errno(S5(SYS_setsockopt, fd, lv, o, v, l));
}
__attribute__((visibility("default"))) int getsockopt(int fd, int lv, int o, void *v, socklen_t *l) {
    if (SIMFD(fd)) {
        int x = 0;
        if (lv == SOL_SOCKET && o == SO_ERROR) { x = F[fd].soerr; F[fd].soerr = 0; }
        else if (lv == SOL_SOCKET && o == SO_TYPE) x = SOCK_STREAM;
        else if (lv == SOL_SOCKET && o == SO_DOMAIN) x = F[fd].v6 ? AF_INET6 : AF_INET;
        memcpy(v, &x, *l < 4 ? *l : 4);
        *l = 4;
        return 0;
    }
    return (int)ret_errno(S5(SYS_getsockopt, fd, lv, o, v, l));
}
__attribute__((visibility("default"))) int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
    if (SIMFD(fd)) { fill_addr(a, l, fd == listen_fd ? 4040 : 50000 + fd, F[fd].v6); return 0; }
    return (int)ret_errno(S3(SYS_getsockname, fd, a, l));
}
__attribute__((visibility("default"))) int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
    if (SIMFD(fd)) {
        if (F[fd].kind != F_CONN || F[fd].peer < 0) { errno = ENOTCONN; return -1; }
        fill_addr(a, l, (F[fd].conn & 1) ? 40000 + (int)(F[fd].conn % 20000) : 3030, F[fd].v6);
        return 0;
    }
    return (int)ret_errno(S3(SYS_getpeername, fd, a, l));
}

// ---------------------------------------------------------------- name resolution
typedef struct { struct addrinfo ai; struct sockaddr_in6 sa; } aibox;
__attribute__((visibility("default"))) int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
    static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!real) real = dlsym(RTLD_NEXT, "getaddrinfo");
    if (!on || me < 0) return real(node, svc, h, res);
    point(K_IO);
    if (dns_err > 0) { dns_err--; n_dnserr++; return EAI_AGAIN; }
    int fams[2], n = 0;
    if (cfg_happy == 1) { fams[n++] = AF_INET6; fams[n++] = AF_INET; }
    else if (cfg_happy == 2) { fams[n++] = AF_INET; fams[n++] = AF_INET6; }
    else fams[n++] = AF_INET;
    struct addrinfo *head = 0, **tail = &head;
    for (int i = 0; i < n; i++) {
        aibox *b = calloc(1, sizeof *b);
        b->ai.ai_family = fams[i];
        b->ai.ai_socktype = SOCK_STREAM;
        b->ai.ai_protocol = IPPROTO_TCP;
        b->ai.ai_addr = (struct sockaddr *)&b->sa;
        socklen_t l = sizeof b->sa;
        fill_addr(b->ai.ai_addr, &l, svc ? atoi(svc) : 0, fams[i] == AF_INET6);
        b->ai.ai_addrlen = l;
        *tail = &b->ai;
        tail = &b->ai.ai_next;
    }
    *res = head;
    return 0;
}
__attribute__((visibility("default"))) void freeaddrinfo(struct addrinfo *a) {
    static void (*real)(struct addrinfo *);
    if (!real) real = dlsym(RTLD_NEXT, "freeaddrinfo");
    if (!on) { real(a); return; }
    while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; }
}

// The number of processors must not leak in from the machine's control groups.
static int hidden(const char *p) { return on && (!strncmp(p, "/sys/fs/cgroup", 14) || !strncmp(p, "/proc/self/cgroup", 17) || !strncmp(p, "/proc/self/mountinfo", 20)); }
#define OPENFN(name)                                                                   \
    __attribute__((visibility("default"))) int name(const char *p, int fl, ...) {      \
        va_list ap;                                                                    \
        va_start(ap, fl);                                                              \
        int mode = va_arg(ap, int);                                                    \
        va_end(ap);                                                                    \
        if (hidden(p)) { errno = ENOENT; return -1; }                                  \
        return (int)ret_errno(S4(SYS_openat, AT_FDCWD, p, fl, mode));                  \
    }
OPENFN(open)
OPENFN(open64)

// ---------------------------------------------------------------- start
static u64 cfgv(const char *s, const char *k, u64 d) {
    size_t n = strlen(k);
    while (s && *s) {
        if (!strncmp(s, k, n) && s[n] == '=') return strtoull(s + n + 1, 0, 10);
        s = strchr(s, ',');
        if (s) s++;
    }
    return d;
}
__attribute__((constructor(101))) static void init(void) {
    const char *fd = getenv("SIM_FD"), *c = getenv("SIM_CFG");
    if (!fd) return;
    // Warm up lazily bound functions before the baton exists.
    simfd = atoi(fd);
    cfg_ncpu = cfgv(c, "ncpu", 4);
    cfg_tick = cfgv(c, "tick", 500);
    cfg_bbns = cfgv(c, "bbns", 5);
    cfg_policy = cfgv(c, "policy", 0);
    cfg_pswitch = cfgv(c, "pswitch", 0);
    cfg_bbmean = cfgv(c, "bbmean", 0);
    cfg_pjump = cfgv(c, "pjump", 0);
    cfg_jumpmax = cfgv(c, "jumpmax", 1000000);
    cfg_pspur = cfgv(c, "pspur", 0);
    cfg_peintr = cfgv(c, "peintr", 0);
    cfg_maxev = cfgv(c, "maxev", 0);
    cfg_happy = cfgv(c, "happy", 0);
    cfg_sndbuf = cfgv(c, "sndbuf", 0);
    cfg_nofile = cfgv(c, "nofile", 1024);
    cfg_mem = cfgv(c, "mem", 6);
    struct rlimit lim = {cfg_mem << 30, cfg_mem << 30};
    setrlimit(RLIMIT_AS, &lim);
    cfg_maxdec = cfgv(c, "maxdec", cfg_maxdec);
    cfg_maxbb = cfgv(c, "maxbb", cfg_maxbb);
    cfg_rtbase = cfgv(c, "rtbase", cfg_rtbase);
    cfg_pctdepth = cfgv(c, "pctdepth", 3);
    cfg_pctlen = cfgv(c, "pctlen", 20000);
    seed_sched = cfgv(c, "sseed", 1);
    seed_hash = cfgv(c, "hseed", 1);
    seed_misc = cfgv(c, "mseed", 1);
    vclock = cfgv(c, "start", 0);
    rt_skew = (i64)cfgv(c, "skew", 0);
    next_conn = cfgv(c, "conn0", 2);
    debug_stderr = (int)cfgv(c, "dbg", 0);
    u64 s = seed_sched;
    rng_sched = splitmix(&s);
    rng_hash = hash2(seed_hash, 0xabc);
    npct = cfg_pctdepth > 16 ? 16 : (int)cfg_pctdepth;
    for (int i = 0; i < npct; i++) pct_points[i] = 1 + splitmix(&rng_sched) % cfg_pctlen;
    const char *rp = getenv("SIM_REPLAY");
    if (rp && *rp) {
        long f = S4(SYS_openat, AT_FDCWD, rp, O_RDONLY | O_CLOEXEC, 0);
        if (f < 0) die("libsim: cannot open schedule %s", rp);
        i64 sz = S3(SYS_lseek, f, 0, SEEK_END);
        S3(SYS_lseek, f, 0, SEEK_SET);
        nreplay = sz / sizeof(dec_t);
        if (nreplay) {
            replay = (dec_t *)S6(SYS_mmap, 0, sz, 1, 2, f, 0);
            if ((long)replay < 0 && (long)replay > -4096) die("libsim: mmap schedule");
        }
        S1(SYS_close, f);
        replaying = 1;
    }
    const char *rc = getenv("SIM_RECORD");
    if (rc && *rc) {
        long f = S4(SYS_openat, AT_FDCWD, rc, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
        if (f < 0) die("libsim: cannot write schedule %s", rc);
        recfd = (int)S3(SYS_fcntl, f, F_DUPFD_CLOEXEC, 2000);
        S1(SYS_close, f);
    }
    long hi = S3(SYS_fcntl, simfd, F_DUPFD_CLOEXEC, 2001);
    if (hi < 0) die("libsim: fd %ld", hi);
    S1(SYS_close, simfd);
    simfd = (int)hi;
    for (int i = 0; i < MAXFD; i++) F[i].peer = -1;
    pthread_key_create(&exit_key, on_thread_exit);
    me = new_slot();
    cur = me;
    on = 1;
    step(0);
}
// The program returned from main or called exit.
__attribute__((destructor(101))) static void fini(void) {
    if (on && me >= 0) { charge(); finish(5); }
}
