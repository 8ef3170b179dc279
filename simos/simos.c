// simos: a simulated kernel, preloaded under an unmodified program.
//
// Every source of nondeterminism of the program (thread schedule, clock, timers, randomness,
// terminal, sockets, pipes, signals, system call faults) is decided here by one seeded PRNG and
// one scenario file, so that one (binary, scenario) pair is one exactly repeatable execution.
//
//   SIMOS_SCENARIO=<file>  scenario (text, see parse_scenario)
//   SIMOS_TRACE=<file>     trace, written through a shared mapping (survives any kind of death)
//
// Without SIMOS_SCENARIO all calls pass through.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

typedef int64_t i64;
typedef uint64_t u64;
#define INF INT64_MAX
#define MAXFD 4096
#define MAXTHR 256
#define MAXACT 512
#define MAXCONN 4096

// ------------------------------------------------------------------ raw system calls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static long rawret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ------------------------------------------------------------------ state
static int active = 0;          // simulation on
static u64 rng_s[2];
static i64 now_ns = 0;          // virtual monotonic clock
static i64 rt_off = 0;          // realtime - monotonic
static u64 steps = 0, nswitch = 0, schedhash = 1469598103934665603ULL;
// configuration
static i64 cfg_maxsteps = 3000000, cfg_end = INF;
static int cfg_cpus = 2, cfg_pswitch = 200 /*permille*/, cfg_mode = 0;
static i64 cfg_cost_lo = 200, cfg_cost_hi = 3000;
static i64 cfg_pstall = 0 /*per million*/, cfg_stallmax = 0;
static i64 cfg_jitter = 0;
static int cfg_peintr = 0, cfg_pshortw = 0, cfg_pshortr = 0, cfg_pspur = 0, cfg_paccept = 0; // permille
static int cfg_outtty = 1;
static i64 cfg_outcap = -1;      // output bytes accepted on fd 1 before errors
static int cfg_outerr = ENOSPC;
static i64 cfg_outcap2 = -1;
static i64 cfg_logcap = -1;      // bytes of log accepted on fd 2 before errors
static int cfg_logerr = ENOSPC;
static int cfg_binderr = 0, cfg_bindat = 0;
static int cfg_tracesched = 0, cfg_sched_pct = 20;
static int cfg_tracelog = 0;
static int cfg_penv = 0, cfg_pfile = 0;   // permille: a variable, a file that is not there is there after all
static int cfg_rows = 24, cfg_cols = 80;

static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rnd(void) { // xoroshiro128+
  u64 s0 = rng_s[0], s1 = rng_s[1], r = s0 + s1;
  s1 ^= s0;
  rng_s[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
  rng_s[1] = rotl(s1, 37);
  return r;
}
static u64 rng2_s;              // separate stream for the bytes the program draws
static u64 rnd2(void) { u64 z = (rng2_s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static u64 rndn(u64 n) { return n ? (rnd() >> 11) % n : 0; }
static int dice(int permille) { return permille > 0 && (int)rndn(1000) < permille; }
static void seed_rng(u64 s) {
  u64 z;
  for (int i = 0; i < 2; i++) { z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; rng_s[i] = z ^ (z >> 31); }
}

// ------------------------------------------------------------------ trace
#define TRACE_MAX (96u << 20)
static char *tr_map = NULL;
static u64 tr_len = 0;
static void tr_hdr(void) {
  if (!tr_map) return;
  u64 *h = (u64 *)tr_map;
  h[0] = tr_len; h[1] = steps; h[2] = (u64)now_ns; h[3] = schedhash; h[4] = nswitch;
}
static void tr_raw(const char *s, size_t n) {
  if (!tr_map || 64 + tr_len + n > TRACE_MAX) return;
  memcpy(tr_map + 64 + tr_len, s, n);
  tr_len += n;
}
static void endsim(int code);
struct thr;
static __thread struct thr *self_t = NULL;
static int cur_tid(void);
static void tr(const char *fmt, ...) {
  if (!tr_map) return;
  char b[512];
  int n = snprintf(b, sizeof b, "%lld %d ", (long long)(now_ns / 1000), cur_tid());
  va_list ap; va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  tr_raw(b, n);
  tr_hdr();
}
static void tr_hex(const char *head, const unsigned char *p, size_t len) {
  if (!tr_map) return;
  char b[512];
  int n = snprintf(b, sizeof b, "%lld %d %s ", (long long)(now_ns / 1000), cur_tid(), head);
  tr_raw(b, n);
  static const char hx[] = "0123456789abcdef";
  char h[1024];
  size_t k = 0;
  for (size_t i = 0; i < len; i++) {
    h[k++] = hx[p[i] >> 4]; h[k++] = hx[p[i] & 15];
    if (k == sizeof h) { tr_raw(h, k); k = 0; }
  }
  h[k++] = '\n';
  tr_raw(h, k);
  tr_hdr();
}

// ------------------------------------------------------------------ objects
struct buf { unsigned char *p; size_t len, cap, off; };
static void buf_add(struct buf *b, const void *d, size_t n) {
  if (b->off && b->off == b->len) b->off = b->len = 0;
  if (b->len + n > b->cap) { b->cap = (b->len + n) * 2 + 64; b->p = realloc(b->p, b->cap); }
  if (n) memcpy(b->p + b->len, d, n);
  b->len += n;
}
static size_t buf_n(struct buf *b) { return b->len - b->off; }
static size_t buf_take(struct buf *b, void *d, size_t n) {
  size_t a = buf_n(b);
  if (n > a) n = a;
  if (n) memcpy(d, b->p + b->off, n);
  b->off += n;
  return n;
}
enum kind { K_TTYIN = 1, K_OUT, K_PIPER, K_PIPEW, K_SP, K_LISTEN, K_SOCK, K_CONN, K_EPOLL, K_EVENTFD, K_LOG };
struct obj;
struct epitem { int fd; struct obj *o; struct epoll_event ev; int ready, disabled; struct epitem *next; };
struct obj {
  enum kind k;
  int refs, nonblock;
  struct obj *peer;         // pipe / socketpair other end (NULL if closed)
  struct buf in;            // readable data
  int eof;
  int outfd;                // K_OUT: 1 or 2
  u64 counter;              // eventfd
  int port;                 // listen
  struct conn *c;           // K_CONN
  struct conn *bq[1024]; int bqn; // listen backlog
  struct epitem *items;     // epoll
  struct obj *eps[16]; int neps; // epolls watching me
};
static struct obj *fdt[MAXFD];
static struct obj *tty_in, *listener;
struct conn {
  int id, used, accepted, ip_ok;
  uint32_t ip; uint16_t port;
  struct buf in; int fin, rst, cl_closed;
  int sv_closed, sv_shut;   // server closed / shut its sending side
  int pending;              // connecting, in backlog
  i64 rwin;                 // remaining receive window of the client; -1 unlimited
  struct obj *o;
  i64 sv_bytes;
  // response framing on the client side
  int nresp; int inbody; i64 bodyleft; char hline[4096]; int hl; int clen_seen; int chunked; int cstate; i64 clen; int head_status; int bodyless;
  char cookie[128];         // value of the last cookie the server set on this connection
  unsigned char expect_nobody; // HEAD request outstanding (unused)
};
static struct conn *conns[MAXCONN];

// ------------------------------------------------------------------ threads
enum tstate { T_RUN = 0, T_BLOCK, T_DEAD };
enum wkind { W_NONE, W_FUTEX, W_EPOLL, W_READ, W_WRITE, W_SEM, W_POLL, W_PAUSE, W_SLEEP, W_JOIN, W_YIELD, W_ACCEPT };
struct thr {
  int id;
  enum tstate st;
  enum wkind w;
  i64 deadline;
  i64 stall;
  int woken, restartable;
  void *addr; uint32_t mask;
  struct obj *o;
  struct pollfd *pfd; int npfd;
  struct thr *joinee;
  int go;                   // baton
  pthread_t pt; int detached, joined, reaped, is_main, dtor_round;
  void *(*fn)(void *); void *arg; void *ret;
  u64 sigpend;
  int insig;
  int prio;
};
static struct thr thr_tab[MAXTHR];
static int nthr = 0;
static struct thr *need_reap = NULL;
static pthread_key_t tkey;
static int cur_tid(void) { return self_t ? self_t->id : -1; }

// signals
struct sact { void (*h)(int); void (*h3)(int, siginfo_t *, void *); int flags, set; };
static struct sact sacts[65];

// real functions
static int (*r_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_pthread_join)(pthread_t, void **);
static int (*r_pthread_detach)(pthread_t);
static int (*r_pthread_mutex_lock)(pthread_mutex_t *);
static int (*r_pthread_mutex_trylock)(pthread_mutex_t *);
static int (*r_sigaction)(int, const struct sigaction *, struct sigaction *);
static int (*r_isatty)(int);
static long (*r_sysconf)(int);
static int (*r_sem_init)(sem_t *, int, unsigned);

static void futex_wait_real(int *a, int v) { raw6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake_real(int *a) { raw6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void die(const char *m) {
  tr("SIMERROR %s", m);
  raw6(SYS_write, 2, (long)m, strlen(m), 0, 0, 0);
  raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
}
static void endsim(int code) {
  tr("END %d", code);
  raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
}

// ------------------------------------------------------------------ readiness
static int conn_space(struct conn *c) { return c->rwin != 0; }
static uint32_t obj_mask(struct obj *o) {
  uint32_t m = 0;
  switch (o->k) {
  case K_TTYIN: if (buf_n(&o->in) || o->eof) m |= EPOLLIN; break;
  case K_OUT: m |= EPOLLOUT; break;
  case K_LOG: m |= EPOLLOUT; break;
  case K_PIPER: if (buf_n(&o->in)) m |= EPOLLIN; if (!o->peer) m |= EPOLLHUP; break;
  case K_PIPEW: if (o->peer) { if (buf_n(&o->peer->in) < 65536) m |= EPOLLOUT; } else m |= EPOLLERR | EPOLLOUT; break;
  case K_SP: if (buf_n(&o->in)) m |= EPOLLIN; if (!o->peer) m |= EPOLLHUP | EPOLLIN | EPOLLRDHUP | EPOLLOUT; else if (buf_n(&o->peer->in) < 200000) m |= EPOLLOUT; break;
  case K_LISTEN: if (o->bqn) m |= EPOLLIN; break;
  case K_SOCK: m |= EPOLLHUP | EPOLLOUT; break;
  case K_CONN: {
    struct conn *c = o->c;
    if (buf_n(&c->in) || c->fin || c->rst) m |= EPOLLIN;
    if (c->fin) m |= EPOLLRDHUP;
    if (c->rst) m |= EPOLLERR | EPOLLHUP | EPOLLRDHUP | EPOLLOUT;
    if (c->fin && c->sv_shut) m |= EPOLLHUP;
    if (conn_space(c) && !c->sv_shut) m |= EPOLLOUT;
    break; }
  case K_EVENTFD: if (o->counter) m |= EPOLLIN; m |= EPOLLOUT; break;
  case K_EPOLL: break;
  }
  return m;
}
static int ep_ready(struct obj *ep) {
  for (struct epitem *i = ep->items; i; i = i->next)
    if (i->ready && !i->disabled && (obj_mask(i->o) & (i->ev.events | EPOLLERR | EPOLLHUP))) return 1;
  return 0;
}
// something happened on o: put its epoll items on the ready lists
static void notify(struct obj *o) {
  for (int e = 0; e < o->neps; e++)
    for (struct epitem *i = o->eps[e]->items; i; i = i->next)
      if (i->o == o) i->ready = 1;
}

// ------------------------------------------------------------------ the world: actors
enum opk { O_SLEEP, O_AT, O_TTY, O_SIG, O_RTJUMP, O_CONN, O_SEND, O_WRESP, O_WCLOSE, O_FIN, O_RST, O_CLOSE, O_RWIN, O_STALL, O_NOTE, O_STOP, O_TTYEOF, O_WTTY, O_WACTORS, O_OUTERR, O_WRAW };
struct op { enum opk k; i64 a, b, c; uint32_t ip; unsigned char *d; size_t dl; char *s; };
struct actor { struct op *ops; int n, cap, pc; i64 wake; i64 waitlim; int done; };
static struct actor acts[MAXACT];
static int nact = 0;
static int stop_flag = 0;

static int world_dirty = 1;
static struct termios sim_tios;
static struct buf canon;          // the line the terminal driver is collecting
static int cond_true(struct actor *A, struct op *o) {
  struct conn *c;
  switch (o->k) {
  case O_WRESP: c = o->a >= 0 && o->a < MAXCONN ? conns[o->a] : NULL; return !c || c->nresp >= o->b || c->sv_closed || c->rst || (c->sv_shut);
  case O_WCLOSE: c = conns[o->a]; return !c || c->sv_closed || c->rst || c->sv_shut;
  case O_WTTY: return !tty_in || buf_n(&tty_in->in) == 0;
  case O_WRAW: return !(sim_tios.c_lflag & ICANON);
  case O_WACTORS: { for (int i = 0; i < nact; i++) if (&acts[i] != A && !acts[i].done) return 0; return 1; }
  default: return 1;
  }
}
static void deliver_signal_process(int sig) {
  struct sact *s = &sacts[sig];
  tr("SIG %d %s", sig, s->set ? "handler" : "default");
  if (!s->set) {
    if (s->flags == -1) return; // ignored
    if (sig == SIGWINCH || sig == SIGCHLD || sig == SIGCONT || sig == SIGURG) return;
    endsim(128 + sig);
  }
  struct thr *c[MAXTHR]; int n = 0;
  for (int i = 0; i < nthr; i++) if (thr_tab[i].st != T_DEAD) c[n++] = &thr_tab[i];
  if (!n) return;
  // prefer the main thread half the time
  struct thr *t = (rndn(2) && thr_tab[0].st != T_DEAD) ? &thr_tab[0] : c[rndn(n)];
  t->sigpend |= 1ull << sig;
}
static void conn_reset(struct conn *c, int byclient) {
  if (c->rst) return;
  c->rst = 1; c->in.off = c->in.len = 0;
  (void)byclient;
  if (c->o) notify(c->o);
}
// the terminal driver: what it does with bytes that come from the keyboard
static void tty_echo(unsigned char ch) {
  unsigned char b[3]; size_t n = 0;
  if (!(sim_tios.c_lflag & ECHO)) return;
  if (ch == '\n' || ch == '\t' || ch >= 0x20) b[n++] = ch;
  else { b[n++] = '^'; b[n++] = ch + 0x40; }
  tr_hex("ECHO", b, n);
}
static void tty_type(const unsigned char *d, size_t n) {
  size_t before = buf_n(&tty_in->in);
  for (size_t i = 0; i < n; i++) {
    unsigned char ch = d[i];
    if (ch == '\r' && (sim_tios.c_iflag & ICRNL)) ch = '\n';
    if (sim_tios.c_lflag & ISIG) {
      int sig = ch == 3 ? SIGINT : ch == 0x1c ? SIGQUIT : ch == 0x1a ? -1 : 0;
      if (sig) { tty_echo(ch); canon.off = canon.len = 0; tty_in->in.off = tty_in->in.len = 0; if (sig > 0) deliver_signal_process(sig); continue; }
    }
    if (!(sim_tios.c_lflag & ICANON)) { buf_add(&tty_in->in, &ch, 1); tty_echo(ch); continue; }
    if (ch == 0x7f || ch == 0x15) {
      while (buf_n(&canon)) {
        canon.len--;
        if (sim_tios.c_lflag & ECHO) tr_hex("ECHO", (const unsigned char *)"\b \b", 3);
        if (ch == 0x7f) break;
      }
      continue;
    }
    if (ch != 4) { buf_add(&canon, &ch, 1); tty_echo(ch); }
    if (ch == 4 || ch == '\n') {
      size_t k = buf_n(&canon);
      if (k) { buf_add(&tty_in->in, canon.p + canon.off, k); canon.off = canon.len = 0; }
      else { tty_in->eof = 1; }
    }
  }
  if (buf_n(&tty_in->in) > before || tty_in->eof) notify(tty_in);
}
static void tty_mode(const struct termios *t) {
  sim_tios = *t;
  tr("TCSET %x %x %x", t->c_lflag, t->c_oflag, t->c_iflag);
  if (tty_in && !(t->c_lflag & ICANON) && buf_n(&canon)) {
    buf_add(&tty_in->in, canon.p + canon.off, buf_n(&canon));
    canon.off = canon.len = 0;
    notify(tty_in);
  }
  world_dirty = 1;
}
// returns 0 if the actor must wait
static int run_op(struct actor *A, struct op *o) {
  struct conn *c = NULL;
  if (o->k >= O_SEND && o->k <= O_RWIN) { c = conns[o->a]; if (!c) return 1; }
  switch (o->k) {
  case O_SLEEP: A->wake = now_ns + o->a * 1000; return 1;
  case O_AT: if (o->a * 1000 > now_ns) A->wake = o->a * 1000; return 1;
  case O_TTY:
    if (tty_in) { tr_hex("TTYIN", o->d, o->dl); tty_type(o->d, o->dl); }
    return 1;
  case O_TTYEOF: if (tty_in) { tr("TTYEOF"); tty_in->eof = 1; notify(tty_in); } return 1;
  case O_SIG: deliver_signal_process((int)o->a); return 1;
  case O_RTJUMP: rt_off += o->a * 1000; tr("F rtjump %lld", (long long)o->a); return 1;
  case O_CONN: {
    if (!listener || listener->k != K_LISTEN) {
      if (A->waitlim == 0) A->waitlim = now_ns + 5000000000LL;
      if (now_ns < A->waitlim) { A->wake = now_ns + 1000000; return 0; }
      A->waitlim = 0;
      tr("REFUSED %lld", (long long)o->a);
      return 1;
    }
    A->waitlim = 0;
    if (listener->bqn >= 1024 || conns[o->a]) return 1;
    c = calloc(1, sizeof *c);
    c->id = (int)o->a; c->ip = o->ip; c->port = (uint16_t)o->b; c->ip_ok = !(o->c & 1); c->rwin = -1; c->used = 1; c->pending = 1;
    conns[o->a] = c;
    listener->bq[listener->bqn++] = c;
    tr("CONN %d %s:%d%s", c->id, inet_ntoa((struct in_addr){htonl(c->ip)}), c->port, c->ip_ok ? "" : " noaddr");
    notify(listener);
    return 1; }
  case O_SEND:
    if (c->rst || c->sv_closed || c->cl_closed || c->fin) return 1;
    { // "@COOKIEFROM<number>@" stands for the cookie that was set on another connection
      unsigned char *p;
      while (o->dl && (p = memmem(o->d, o->dl, "@COOKIEFROM", 11))) {
        int from = atoi((char *)p + 11);
        unsigned char *e = memchr(p + 11, '@', o->d + o->dl - p - 11);
        if (!e) break;
        const char *v = from >= 0 && from < MAXCONN && conns[from] ? conns[from]->cookie : "";
        size_t a = p - o->d, vl = strlen(v), b = o->d + o->dl - e - 1;
        unsigned char *n = malloc(a + vl + b + 1);
        memcpy(n, o->d, a); memcpy(n + a, v, vl); memcpy(n + a + vl, e + 1, b);
        o->d = n; o->dl = a + vl + b;
      } }
    { char h[48]; snprintf(h, sizeof h, "SEND %d", c->id); tr_hex(h, o->d, o->dl); }
    buf_add(&c->in, o->d, o->dl);
    if (c->o) notify(c->o);
    return 1;
  case O_FIN: if (c->fin || c->rst) return 1; tr("FIN %d", c->id); c->fin = 1; if (c->o) notify(c->o); return 1;
  case O_CLOSE: if (c->cl_closed || c->rst) return 1; tr("CCLOSE %d", c->id); c->fin = 1; c->cl_closed = 1;
    if (c->rwin >= 0 && c->sv_bytes > 0) conn_reset(c, 1);   // closed with data it has not read
    else if (c->rwin == 0) c->rwin = -1;                     // no window any more: a write is answered by a reset
    if (c->o) notify(c->o);
    return 1;
  case O_RST: if (c->rst) return 1; tr("CRST %d", c->id); c->cl_closed = 1; conn_reset(c, 1); return 1;
  case O_RWIN: tr("RWIN %d %lld", c->id, (long long)o->b); c->rwin = o->b; if (c->o && c->rwin) notify(c->o); return 1;
  case O_WRESP: case O_WCLOSE: case O_WTTY: case O_WACTORS: case O_WRAW:
    if (cond_true(A, o)) { A->waitlim = 0; return 1; }
    if (A->waitlim == 0) A->waitlim = now_ns + o->c * 1000;
    if (now_ns >= A->waitlim) { tr("WTIMEOUT %d", (int)(A - acts)); A->waitlim = 0; return 1; }
    A->wake = A->waitlim; // or earlier when the condition becomes true
    return 0;
  case O_STALL: { // stall a thread: index modulo alive threads
    struct thr *t[MAXTHR]; int n = 0;
    for (int i = 0; i < nthr; i++) if (thr_tab[i].st != T_DEAD) t[n++] = &thr_tab[i];
    if (n) { t[o->a % n]->stall = now_ns + o->b * 1000; tr("F stall %d %lld", t[o->a % n]->id, (long long)o->b); }
    return 1; }
  case O_NOTE: tr("NOTE %s", o->s); return 1;
  case O_OUTERR: cfg_outcap = 0; cfg_outerr = (int)o->a; return 1;
  case O_STOP: tr("STOP"); stop_flag = 1; return 1;
  }
  return 1;
}
static void world_run(void) {
  int again = 1;
  while (again) {
    again = 0;
    for (int i = 0; i < nact; i++) {
      struct actor *A = &acts[i];
      if (A->done) continue;
      if (A->pc >= A->n) { A->done = 1; again = 1; continue; }
      struct op *o = &A->ops[A->pc];
      int due = A->wake <= now_ns || ((o->k == O_WRESP || o->k == O_WCLOSE || o->k == O_WTTY || o->k == O_WACTORS || o->k == O_WRAW) && A->waitlim && cond_true(A, o));
      if (!due) continue;
      A->wake = 0;
      if (run_op(A, o)) { A->pc++; again = 1; if (A->pc >= A->n) A->done = 1; }
      else if (A->wake <= now_ns) A->wake = now_ns + 1000;
      if (stop_flag) endsim(77);
    }
  }
}
static i64 world_next(void) {
  i64 m = INF;
  for (int i = 0; i < nact; i++) if (!acts[i].done && acts[i].wake < m) m = acts[i].wake;
  return m;
}
// only look at the actors when something can be due (cheap pre-test)
static i64 world_due = 0;
static void world_tick(void) {
  if (world_dirty || now_ns >= world_due) { world_dirty = 0; world_run(); world_due = world_next(); }
}

// ------------------------------------------------------------------ scheduler
static int blocked_ready(struct thr *t) {
  switch (t->w) {
  case W_FUTEX: return t->woken;
  case W_EPOLL: return ep_ready(t->o);
  case W_READ: case W_ACCEPT: return (obj_mask(t->o) & (EPOLLIN | EPOLLHUP | EPOLLERR)) != 0;
  case W_WRITE: return (obj_mask(t->o) & (EPOLLOUT | EPOLLHUP | EPOLLERR)) != 0;
  case W_SEM: return *(int *)t->addr > 0;
  case W_POLL:
    for (int i = 0; i < t->npfd; i++) {
      int fd = t->pfd[i].fd;
      if (fd >= 0 && fd < MAXFD && fdt[fd] && (obj_mask(fdt[fd]) & (uint32_t)(t->pfd[i].events | POLLERR | POLLHUP))) return 1;
    }
    return 0;
  case W_JOIN: return t->joinee->st == T_DEAD;
  case W_YIELD: return 1;
  default: return 0;
  }
}
static int runnable(struct thr *t) {
  if (t->st == T_DEAD || t->stall > now_ns) return 0;
  if (t->st == T_RUN) return 1;
  if (t->sigpend && !t->insig) return 1;
  if (t->deadline <= now_ns) return 1;
  return blocked_ready(t);
}
static void reap(void) {
  if (need_reap) {
    struct thr *t = need_reap; need_reap = NULL;
    r_pthread_join(t->pt, NULL);
    t->reaped = 1;
  }
}
static struct thr *pick(void) {
  for (;;) {
    world_tick();
    struct thr *c[MAXTHR]; int n = 0;
    for (int i = 0; i < nthr; i++) if (runnable(&thr_tab[i])) c[n++] = &thr_tab[i];
    if (n) {
      struct thr *t;
      if (cfg_mode == 2) {
        t = c[0];
        for (int i = 1; i < n; i++) if (c[i]->prio > t->prio) t = c[i];
        if (dice(cfg_sched_pct)) t->prio = (int)rndn(1000000) - 1000000;
      } else t = c[rndn(n)];
      return t;
    }
    i64 m = world_next();
    for (int i = 0; i < nthr; i++) {
      struct thr *t = &thr_tab[i];
      if (t->st == T_DEAD) continue;
      i64 d = INF;
      if (t->st == T_RUN || blocked_ready(t) || (t->sigpend && !t->insig)) d = t->stall;
      else { d = t->deadline; if (d != INF && t->stall > d) d = t->stall; }
      if (d < m) m = d;
    }
    if (m == INF) { tr("QUIET"); endsim(78); }
    if (m > now_ns) now_ns = m;
    if (now_ns >= cfg_end) { tr("TIMEUP"); endsim(80); }
  }
}
static void run_signals(struct thr *me) {
  while (me->sigpend && !me->insig) {
    int s = __builtin_ctzll(me->sigpend);
    me->sigpend &= ~(1ull << s);
    struct sact *a = &sacts[s];
    if (!a->set) continue;
    int save = errno;
    me->insig = 1;
    tr("HANDLER %d", s);
    siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; si.si_code = SI_USER; si.si_pid = getpid();
    if (a->flags & SA_SIGINFO) a->h3(s, &si, NULL); else a->h(s);
    me->insig = 0;
    errno = save;
  }
}
static void hand(struct thr *me, struct thr *t) {
  nswitch++;
  schedhash = (schedhash ^ (u64)t->id) * 1099511628211ULL;
  schedhash = (schedhash ^ (u64)me->w) * 1099511628211ULL;
  if (cfg_tracesched) tr("SW %d w%d", t->id, me->w);
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  futex_wake_real(&t->go);
}
static void wait_go(struct thr *me) {
  while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) futex_wait_real(&me->go, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
  reap();
}
// give up the processor; returns once chosen again
static void schedule(struct thr *me) {
  struct thr *t = pick();
  if (t != me) { hand(me, t); wait_go(me); }
  else schedhash = (schedhash ^ 0x55u) * 1099511628211ULL;
}
static void tick(void) {
  steps++;
  now_ns += cfg_cost_lo + (i64)rndn((u64)(cfg_cost_hi - cfg_cost_lo + 1));
  if ((i64)steps > cfg_maxsteps) { tr("STEPLIMIT"); endsim(79); }
  if (now_ns >= cfg_end) { tr("TIMEUP"); endsim(80); }
  if ((steps & 63) == 0) tr_hdr();
}
// a point where another thread may run
static void sp(void) {
  struct thr *me = self_t;
  if (!me) die("unknown thread");
  if (me->insig || me->st == T_DEAD) return;
  tick();
  world_tick();
  if (cfg_pstall && (i64)rndn(1000000) < cfg_pstall) {
    me->stall = now_ns + 1000 * (i64)(1 + rndn((u64)cfg_stallmax));
    tr("F stall %d %lld", me->id, (long long)((me->stall - now_ns) / 1000));
  }
  if (me->stall > now_ns || dice(cfg_pswitch) || cfg_mode == 2) { me->w = W_NONE; schedule(me); }
  run_signals(me);
}
enum bres { B_READY, B_TIMEOUT, B_INTR };
static enum bres block(enum wkind w, i64 deadline) {
  struct thr *me = self_t;
  me->w = w; me->st = T_BLOCK;
  if (deadline != INF && cfg_jitter) deadline += (i64)rndn((u64)cfg_jitter * 1000 + 1);
  me->deadline = deadline;
  if (me->sigpend && !me->insig) { me->st = T_RUN; run_signals(me); return B_INTR; }
  if (w == W_EPOLL || w == W_READ || w == W_POLL) tr("WAIT %d", (int)w);
  schedule(me);
  me->st = T_RUN;
  enum bres r;
  if (blocked_ready(me)) r = B_READY;
  else if (me->deadline <= now_ns) r = B_TIMEOUT;
  else r = B_INTR;
  me->w = W_NONE; me->deadline = INF;
  if (me->sigpend && !me->insig) { run_signals(me); }
  return r;
}
static int last_sig_restart(void) { // would an interrupted restartable call restart?
  return 1;
}

// ------------------------------------------------------------------ thread life
static void thread_exit_release(void *v) {
  struct thr *me = v;
  if (me->dtor_round++ < 3) { pthread_setspecific(tkey, me); return; }
  me->st = T_DEAD;
  tr("TEND");
  struct thr *t = pick();
  if (!me->is_main) need_reap = me;
  hand(me, t);
}
static void *thread_main(void *v) {
  struct thr *me = v;
  self_t = me;
  wait_go(me);
  pthread_setspecific(tkey, me);
  run_signals(me);
  me->ret = me->fn(me->arg);
  return me->ret;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!active) { if (!r_pthread_create) r_pthread_create = dlsym(RTLD_NEXT, "pthread_create"); return r_pthread_create(pt, at, fn, arg); }
  sp();
  if (nthr >= MAXTHR) return EAGAIN;
  struct thr *t = &thr_tab[nthr];
  memset(t, 0, sizeof *t);
  t->id = nthr; t->fn = fn; t->arg = arg; t->deadline = INF; t->st = T_RUN; t->prio = (int)rndn(1000000);
  nthr++;
  if (at) { int ds; pthread_attr_getdetachstate(at, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; if (t->detached) die("detached attr"); }
  int r = r_pthread_create(&t->pt, at, thread_main, t);
  if (r) { nthr--; return r; }
  *pt = t->pt;
  tr("TNEW %d", t->id);
  sp();
  return 0;
}
static struct thr *by_pt(pthread_t p) { for (int i = nthr - 1; i >= 0; i--) if (pthread_equal(thr_tab[i].pt, p) && !thr_tab[i].joined) return &thr_tab[i]; return NULL; }
int pthread_detach(pthread_t p) {
  if (!active) { if (!r_pthread_detach) r_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach"); return r_pthread_detach(p); }
  struct thr *t = by_pt(p); if (t) { t->detached = 1; t->joined = 1; }
  return 0;
}
int pthread_join(pthread_t p, void **ret) {
  if (!active) { if (!r_pthread_join) r_pthread_join = dlsym(RTLD_NEXT, "pthread_join"); return r_pthread_join(p, ret); }
  sp();
  struct thr *t = by_pt(p);
  if (!t) return ESRCH;
  while (t->st != T_DEAD) { self_t->joinee = t; block(W_JOIN, INF); }
  t->joined = 1;
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!r_pthread_mutex_lock) r_pthread_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (!active || !self_t || self_t->insig) return r_pthread_mutex_lock(m);
  for (;;) {
    int r = r_pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    block(W_YIELD, INF); tick();
  }
}
int sched_yield(void) {
  if (!active) return (int)rawret(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  struct thr *me = self_t;
  if (me->insig) return 0;
  tick();
  if (cfg_mode == 2) me->prio = (int)rndn(1000000) - 2000000;
  me->w = W_YIELD; schedule(me); run_signals(me);
  return 0;
}

// ------------------------------------------------------------------ futex and other raw syscalls
static i64 ts_ns(const struct timespec *t) { return (i64)t->tv_sec * 1000000000LL + t->tv_nsec; }
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t *addr2, uint32_t val3) {
  int cmd = op & FUTEX_CMD_MASK;
  struct thr *me = self_t;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sp();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    if (dice(cfg_pspur)) { tr("F futex_spurious"); errno = EINTR; return -1; }
    i64 dl = INF;
    if (to) {
      if (cmd == FUTEX_WAIT) dl = now_ns + ts_ns(to);
      else if (op & FUTEX_CLOCK_REALTIME) dl = ts_ns(to) - rt_off;
      else dl = ts_ns(to);
    }
    me->addr = addr; me->woken = 0; me->mask = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
    enum bres r = block(W_FUTEX, dl);
    me->addr = NULL;
    if (r == B_READY) return 0;
    errno = r == B_TIMEOUT ? ETIMEDOUT : EINTR;
    return -1;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0;
    uint32_t m = cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu;
    while (n < (int)val) {
      struct thr *c[MAXTHR]; int k = 0;
      for (int i = 0; i < nthr; i++) if (thr_tab[i].st == T_BLOCK && thr_tab[i].w == W_FUTEX && thr_tab[i].addr == addr && !thr_tab[i].woken && (thr_tab[i].mask & m)) c[k++] = &thr_tab[i];
      if (!k) break;
      c[rndn(k)]->woken = 1; n++;
    }
    sp();
    return n;
  }
  (void)addr2;
  die("futex op");
  return -1;
}
static void fill_random(void *p, size_t n) {
  unsigned char *b = p;
  for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(rnd2() >> 24);
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  if (!active) return rawret(raw6(SYS_getrandom, (long)p, (long)n, fl, 0, 0, 0));
  fill_random(p, n);
  return (ssize_t)n;
}
int getentropy(void *p, size_t n) {
  if (!active) { return rawret(raw6(SYS_getrandom, (long)p, (long)n, 0, 0, 0, 0)) < 0 ? -1 : 0; }
  fill_random(p, n); return 0;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active && self_t) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
    if (n == SYS_getrandom) { fill_random((void *)a, (size_t)b); return b; }
    if (n == SYS_epoll_create1) return epoll_create1((int)a);
    if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (struct timespec *)b);
    if (n == SYS_eventfd2 || n == SYS_epoll_wait || n == SYS_epoll_pwait || n == SYS_accept4 || n == SYS_read || n == SYS_write || n == SYS_pipe2 || n == SYS_poll || n == SYS_ppoll || n == SYS_nanosleep) { tr("SIMERROR syscall %ld", n); die("raw syscall"); }
  }
  return rawret(raw6(n, a, b, c, d, e, f));
}

// ------------------------------------------------------------------ clock
static i64 vclock(clockid_t c) {
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) return now_ns + rt_off;
  return now_ns;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!active || c == CLOCK_THREAD_CPUTIME_ID || c == CLOCK_PROCESS_CPUTIME_ID) return (int)rawret(raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
  now_ns += 50;
  i64 v = vclock(c);
  ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!active) return (int)rawret(raw6(SYS_gettimeofday, (long)tv, (long)tz, 0, 0, 0, 0));
  i64 v = vclock(CLOCK_REALTIME); tv->tv_sec = v / 1000000000LL; tv->tv_usec = v % 1000000000LL / 1000; return 0;
}
time_t time(time_t *t) {
  if (!active) { struct timespec ts; raw6(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts, 0, 0, 0, 0); if (t) *t = ts.tv_sec; return ts.tv_sec; }
  time_t v = vclock(CLOCK_REALTIME) / 1000000000LL; if (t) *t = v; return v;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!active) return (int)rawret(raw6(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0));
  i64 dl = now_ns + ts_ns(r);
  sp();
  if (block(W_SLEEP, dl) == B_INTR) { if (rem) { i64 l = dl - now_ns; if (l < 0) l = 0; rem->tv_sec = l / 1000000000LL; rem->tv_nsec = l % 1000000000LL; } errno = EINTR; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (!active) { long x = raw6(SYS_clock_nanosleep, c, fl, (long)r, (long)rem, 0, 0); return (int)-x; }
  i64 dl = (fl & TIMER_ABSTIME) ? ts_ns(r) - (c == CLOCK_REALTIME ? rt_off : 0) : now_ns + ts_ns(r);
  sp();
  if (block(W_SLEEP, dl) == B_INTR) { if (rem && !(fl & TIMER_ABSTIME)) { i64 l = dl - now_ns; if (l < 0) l = 0; rem->tv_sec = l / 1000000000LL; rem->tv_nsec = l % 1000000000LL; } return EINTR; }
  return 0;
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, NULL); }

// ------------------------------------------------------------------ file descriptors
static struct obj *new_obj(enum kind k) { struct obj *o = calloc(1, sizeof *o); o->k = k; return o; }
static int place(struct obj *o) {
  long fd = raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR | O_CLOEXEC, 0, 0, 0);
  if (fd < 0 || fd >= MAXFD) { errno = EMFILE; return -1; }
  fdt[fd] = o; o->refs++;
  return (int)fd;
}
static struct obj *get(int fd) { return active && fd >= 0 && fd < MAXFD ? fdt[fd] : NULL; }
static void ep_remove_fd(struct obj *o, int fd, int all) {
  for (int e = 0; e < o->neps;) {
    struct obj *ep = o->eps[e];
    int left = 0;
    for (struct epitem **pp = &ep->items; *pp;) {
      struct epitem *i = *pp;
      if (i->o == o && (all || i->fd == fd)) { *pp = i->next; free(i); }
      else { if (i->o == o) left = 1; pp = &i->next; }
    }
    if (!left) o->eps[e] = o->eps[--o->neps]; else e++;
  }
}
static void obj_release(struct obj *o) {
  if (--o->refs > 0) return;
  ep_remove_fd(o, -1, 1);
  if (o->peer) { o->peer->peer = NULL; notify(o->peer); o->peer = NULL; }
  if (o->k == K_CONN) {
    struct conn *c = o->c;
    tr("CLOSE %d unread %d", c->id, (int)buf_n(&c->in));
    c->sv_closed = 1; c->o = NULL; world_dirty = 1;
  }
  if (o->k == K_LISTEN) {
    tr("UNLISTEN %d", o->port);
    for (int i = 0; i < o->bqn; i++) { o->bq[i]->rst = 1; o->bq[i]->sv_closed = 1; tr("CLOSE %d unaccepted", o->bq[i]->id); }
    o->bqn = 0; world_dirty = 1;
    if (listener == o) listener = NULL;
  }
  if (o->k == K_EPOLL) { while (o->items) { struct epitem *i = o->items; o->items = i->next; struct obj *w = i->o; for (int e = 0; e < w->neps; e++) if (w->eps[e] == o) { w->eps[e] = w->eps[--w->neps]; break; } free(i); } }
  // objects are never freed: blocked threads may still refer to them
}
int close(int fd) {
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
  sp();
  if (fdt[fd] != o) { errno = EBADF; return -1; }
  fdt[fd] = NULL;
  obj_release(o);
  if (fd > 2) raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  return 0;
}
int dup(int fd) {
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_dup, fd, 0, 0, 0, 0, 0));
  return place(o);
}
int dup2(int a, int b) {
  if (get(a) || get(b)) die("dup2");
  return (int)rawret(raw6(SYS_dup2, a, b, 0, 0, 0, 0));
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
  switch (cmd) {
  case F_GETFL: return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
  case F_SETFL: o->nonblock = (arg & O_NONBLOCK) != 0; return 0;
  case F_GETFD: return FD_CLOEXEC;
  case F_SETFD: return 0;
  case F_DUPFD: case F_DUPFD_CLOEXEC: return place(o);
  }
  tr("SIMNOTE fcntl %d", cmd); errno = EINVAL; return -1;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_ioctl, fd, (long)req, (long)arg, 0, 0, 0));
  switch (req) {
  case FIONBIO: o->nonblock = *(int *)arg != 0; return 0;
  case FIOCLEX: case FIONCLEX: return 0;
  case FIONREAD: { struct buf *b = o->k == K_CONN ? &o->c->in : &o->in; *(int *)arg = (int)buf_n(b); return 0; }
  case TIOCGWINSZ: if (o->k == K_TTYIN || (o->k == K_OUT && cfg_outtty)) { struct winsize w = {(unsigned short)cfg_rows, (unsigned short)cfg_cols, 0, 0}; *(struct winsize *)arg = w; return 0; } errno = ENOTTY; return -1;
  case TCGETS: if (o->k == K_TTYIN || (o->k == K_OUT && cfg_outtty)) { memcpy(arg, &sim_tios, 36); return 0; } errno = ENOTTY; return -1;
  case TCSETS: case TCSETSW: case TCSETSF: if (o->k == K_TTYIN || (o->k == K_OUT && cfg_outtty)) { struct termios t = sim_tios; memcpy(&t, arg, 36); tty_mode(&t); return 0; } errno = ENOTTY; return -1;
  }
  errno = ENOTTY; return -1;
}
int tcgetattr(int fd, struct termios *t) {
  struct obj *o = get(fd);
  if (o && (o->k == K_TTYIN || (o->k == K_OUT && cfg_outtty))) { *t = sim_tios; return 0; }
  errno = ENOTTY; return -1;
}
int tcsetattr(int fd, int a, const struct termios *t) {
  (void)a;
  struct obj *o = get(fd);
  if (o && (o->k == K_TTYIN || (o->k == K_OUT && cfg_outtty))) { tty_mode(t); return 0; }
  errno = ENOTTY; return -1;
}
int isatty(int fd) {
  struct obj *o = get(fd);
  if (o) { if (o->k == K_TTYIN || (o->k == K_OUT && cfg_outtty)) return 1; errno = ENOTTY; return 0; }
  if (!r_isatty) r_isatty = dlsym(RTLD_NEXT, "isatty");
  return r_isatty(fd);
}
// the surroundings: what a variable or file is depends on the seed and its name alone
static u64 amb_seed;
static u64 amb(const char *name, u64 salt) { u64 h = amb_seed ^ salt; for (; *name; name++) h = (h ^ (unsigned char)*name) * 1099511628211ULL; h ^= h >> 31; h *= 0x94D049BB133111EBULL; return h ^ (h >> 29); }
static int sim_ambient_file(const char *path, int fl) {
  int wr = (fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT);
  if (!wr && (int)(amb(path, 2) % 1000) >= cfg_pfile) { errno = ENOENT; return -1; }
  static const char *const txt[] = {"", "1\n", "type = \"float\"\n", "{\"type\":\"integer\",\"precision\":3}\n", "x=5\ny=6\n2+2\n", "\xff\n"};
  long fd = raw6(SYS_memfd_create, (long)"ambient", 0, 0, 0, 0, 0);
  if (fd < 0) { errno = EACCES; return -1; }
  if (!wr) { const char *t = txt[amb(path, 3) % 6]; raw6(SYS_write, fd, (long)t, (long)strlen(t), 0, 0, 0); raw6(SYS_lseek, fd, 0, 0, 0, 0, 0); }
  tr("FILE %s %s", wr ? "written" : "read", path);
  return (int)fd;
}
char *getenv(const char *name) {
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  if (!active || !cfg_penv || !strncmp(name, "RUST_", 5) || !strcmp(name, "PORT") || (int)(amb(name, 0) % 1000) >= cfg_penv) return NULL;
  static const char *const val[] = {"1", "0", "10", "200", "true", "false", "dumb", "C", "/tmp", "float", "x", ""};
  char *v = (char *)val[amb(name, 1) % 12];
  tr("ENV %s %s", name, v);
  return v;
}
static int sim_open(const char *path, int fl, int mode) {
  if (active && path) {
    if (!strcmp(path, "/dev/tty")) { if (tty_in) return place(tty_in); errno = ENXIO; return -1; }
    if (!strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5)) { if (strcmp(path, "/proc/self/maps")) { errno = ENOENT; return -1; } }
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) die("open urandom");
    if (cfg_pfile && strncmp(path, "/proc/", 6) && strncmp(path, "/dev/", 5) && ((fl & O_CREAT) || raw6(SYS_faccessat, AT_FDCWD, (long)path, F_OK, 0, 0, 0) < 0)) return sim_ambient_file(path, fl);
  }
  return (int)rawret(raw6(SYS_openat, AT_FDCWD, (long)path, fl, mode, 0, 0));
}
int open(const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sim_open(path, fl, m); }
int open64(const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sim_open(path, fl | O_LARGEFILE, m); }

static ssize_t do_read(int fd, void *p, size_t n, int fl) {
  struct obj *o = get(fd);
  sp();
  for (;;) {
    if (get(fd) != o) { errno = EBADF; return -1; }
    int nb = o->nonblock || (fl & MSG_DONTWAIT);
    size_t want = n;
    if (n > 1 && dice(cfg_pshortr)) { want = 1 + rndn(n < 64 ? n : 64); }
    switch (o->k) {
    case K_TTYIN:
      if (buf_n(&o->in)) {
        if (dice(cfg_peintr)) { tr("F eintr_read"); errno = EINTR; return -1; }
        size_t av = buf_n(&o->in);
        if (want < av && want < n) tr("F short_read");
        size_t r = buf_take(&o->in, p, want);
        tr_hex("TTYR", p, r);
        world_dirty = 1;
        return (ssize_t)r;
      }
      if (o->eof) return 0;
      break;
    case K_PIPER: case K_SP:
      if (buf_n(&o->in)) { ssize_t r = (ssize_t)buf_take(&o->in, p, n); if (o->peer) notify(o->peer); return r; }
      if (!o->peer) return 0;
      break;
    case K_CONN: {
      struct conn *c = o->c;
      if (c->rst) { errno = ECONNRESET; return -1; }
      if (buf_n(&c->in)) {
        size_t av = buf_n(&c->in);
        if (want < av && want < n) tr("F short_read");
        ssize_t r = (ssize_t)buf_take(&c->in, p, want);
        tr("RD %d %d", c->id, (int)r);
        if (buf_n(&c->in)) notify(o);
        return r;
      }
      if (c->fin) return 0;
      break; }
    case K_EVENTFD:
      if (o->counter) { *(u64 *)p = o->counter; o->counter = 0; return 8; }
      break;
    default: errno = EBADF; return -1;
    }
    if (nb) { errno = EAGAIN; return -1; }
    self_t->o = o;
    enum bres r = block(W_READ, INF);
    if (r == B_INTR && !last_sig_restart()) { errno = EINTR; return -1; }
  }
}
static void resp_feed(struct conn *c, const unsigned char *p, size_t n) {
  size_t i = 0;
  while (i < n) {
    if (!c->inbody) {
      char ch = (char)p[i++];
      if (c->hl < (int)sizeof c->hline - 1) c->hline[c->hl++] = ch;
      if (c->hl >= 4 && !memcmp(c->hline + c->hl - 4, "\r\n\r\n", 4)) {
        c->hline[c->hl] = 0;
        c->head_status = c->hl > 12 ? atoi(c->hline + 9) : 0;
        c->clen = 0; c->chunked = 0;
        for (char *q = c->hline; (q = strchr(q, '\n')); ) { q++; if (!strncasecmp(q, "content-length:", 15)) c->clen = atoll(q + 15); if (!strncasecmp(q, "transfer-encoding: chunked", 26)) c->chunked = 1;
          if (!strncasecmp(q, "set-cookie:", 11)) {
            char *v = strchr(q, '='); int n = 0;
            if (v) { v++; while (v[n] && v[n] != ';' && v[n] != '\r' && v[n] != '\n' && n < 127) n++; memcpy(c->cookie, v, n); c->cookie[n] = 0; }
          } }
        c->hl = 0;
        if (c->head_status / 100 == 1) continue;
        if (c->chunked) { c->inbody = 2; c->hl = 0; }
        else if (c->clen > 0 && c->head_status != 204 && c->head_status != 304) { c->inbody = 1; c->bodyleft = c->clen; }
        else { c->nresp++; world_dirty = 1; }
      }
    } else if (c->inbody == 1) {
      size_t t = n - i; if ((i64)t > c->bodyleft) t = (size_t)c->bodyleft;
      i += t; c->bodyleft -= (i64)t;
      if (!c->bodyleft) { c->inbody = 0; c->nresp++; world_dirty = 1; }
    } else { // chunked: look for the final "0\r\n\r\n"
      char ch = (char)p[i++];
      if (c->hl == 5) { memmove(c->hline, c->hline + 1, 4); c->hl = 4; }
      c->hline[c->hl++] = ch;
      if (c->hl == 5 && !memcmp(c->hline, "0\r\n\r\n", 5)) { c->inbody = 0; c->hl = 0; c->nresp++; world_dirty = 1; }
    }
  }
}
static ssize_t do_write(int fd, const void *p, size_t n, int fl) {
  struct obj *o = get(fd);
  sp();
  for (;;) {
    if (get(fd) != o) { errno = EBADF; return -1; }
    int nb = o->nonblock || (fl & MSG_DONTWAIT);
    size_t w = n;
    switch (o->k) {
    case K_OUT: {
      i64 *cap = o->outfd == 1 ? &cfg_outcap : &cfg_outcap2;
      if (dice(cfg_peintr)) { tr("F eintr_write"); errno = EINTR; return -1; }
      if (*cap >= 0) {
        if (*cap == 0 && n > 0) { tr("F write_error %d fd%d", cfg_outerr, o->outfd); errno = cfg_outerr; return -1; }
        if ((i64)w > *cap) { w = (size_t)*cap; tr("F short_write"); }
      }
      if (w > 1 && dice(cfg_pshortw)) { w = 1 + rndn(w - 1); tr("F short_write"); }
      if (*cap >= 0) *cap -= (i64)w;
      tr_hex(o->outfd == 1 ? "OUT1" : "OUT2", p, w);
      return (ssize_t)w; }
    case K_LOG:
      if (cfg_logcap >= 0) {
        if (dice(cfg_peintr)) { tr("F eintr_write"); errno = EINTR; return -1; }
        if (cfg_logcap == 0 && n > 0) { tr("F log_error %d", cfg_logerr); errno = cfg_logerr; return -1; }
        if ((i64)w > cfg_logcap) w = (size_t)cfg_logcap;
        if (w > 1 && dice(cfg_pshortw)) { w = 1 + rndn(w - 1); tr("F short_log"); }
        cfg_logcap -= (i64)w;
      }
      if (cfg_tracelog) tr_hex("LOG", p, w > 400 ? 400 : w);
      return (ssize_t)w;
    case K_PIPEW: {
      if (!o->peer) { errno = EPIPE; return -1; }
      size_t room = 65536 - buf_n(&o->peer->in);
      if (room) { if (w > room) w = room; buf_add(&o->peer->in, p, w); notify(o->peer); return (ssize_t)w; }
      break; }
    case K_SP: {
      if (!o->peer) { errno = EPIPE; return -1; }
      size_t room = 200000 - buf_n(&o->peer->in);
      if (room) { if (w > room) w = room; buf_add(&o->peer->in, p, w); notify(o->peer); return (ssize_t)w; }
      break; }
    case K_CONN: {
      struct conn *c = o->c;
      if (c->sv_shut) { errno = EPIPE; return -1; }
      if (c->rst) { errno = dice(500) ? EPIPE : ECONNRESET; return -1; }
      if (c->cl_closed) { // peer is gone: the first write is accepted, then the reset arrives
        tr("WRLOST %d %d", c->id, (int)n);
        conn_reset(c, 0);
        return (ssize_t)n;
      }
      if (n == 0) return 0;
      if (c->rwin != 0) {
        if (c->rwin > 0 && (i64)w > c->rwin) w = (size_t)c->rwin;
        if (w > 1 && dice(cfg_pshortw)) { w = 1 + rndn(w - 1); tr("F short_write"); }
        if (c->rwin > 0) { c->rwin -= (i64)w; }
        char h[32]; snprintf(h, sizeof h, "WR %d", c->id);
        tr_hex(h, p, w);
        c->sv_bytes += (i64)w;
        resp_feed(c, p, w);
        if (w < n && conn_space(c)) notify(o);
        return (ssize_t)w;
      }
      tr("F backpressure %d", c->id);
      break; }
    case K_EVENTFD: o->counter += *(u64 *)p; notify(o); return 8;
    default: errno = EBADF; return -1;
    }
    if (nb) { errno = EAGAIN; return -1; }
    self_t->o = o;
    block(W_WRITE, INF);
  }
}
ssize_t read(int fd, void *p, size_t n) {
  if (!get(fd)) return rawret(raw6(SYS_read, fd, (long)p, (long)n, 0, 0, 0));
  return do_read(fd, p, n, 0);
}
ssize_t write(int fd, const void *p, size_t n) {
  if (!get(fd)) return rawret(raw6(SYS_write, fd, (long)p, (long)n, 0, 0, 0));
  return do_write(fd, p, n, 0);
}
ssize_t readv(int fd, const struct iovec *v, int k) {
  if (!get(fd)) return rawret(raw6(SYS_readv, fd, (long)v, k, 0, 0, 0));
  for (int i = 0; i < k; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0);
  return 0;
}
static ssize_t gather(int fd, const struct iovec *v, size_t k, int fl) {
  size_t tot = 0;
  for (size_t i = 0; i < k; i++) tot += v[i].iov_len;
  unsigned char *b = malloc(tot + 1); size_t o = 0;
  for (size_t i = 0; i < k; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  ssize_t r = do_write(fd, b, tot, fl);
  int e = errno; free(b); errno = e;
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (!get(fd)) return rawret(raw6(SYS_writev, fd, (long)v, k, 0, 0, 0));
  return gather(fd, v, (size_t)k, 0);
}
ssize_t recv(int fd, void *p, size_t n, int fl) {
  if (!get(fd)) return rawret(raw6(SYS_recvfrom, fd, (long)p, (long)n, fl, 0, 0));
  if (fl & MSG_PEEK) { struct obj *o = get(fd); struct buf *b = o->k == K_CONN ? &o->c->in : &o->in; size_t a = buf_n(b); if (a > n) a = n; if (a) { memcpy(p, b->p + b->off, a); return (ssize_t)a; } errno = EAGAIN; return -1; }
  return do_read(fd, p, n, fl);
}
ssize_t send(int fd, const void *p, size_t n, int fl) {
  if (!get(fd)) return rawret(raw6(SYS_sendto, fd, (long)p, (long)n, fl, 0, 0));
  return do_write(fd, p, n, fl);
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
  if (!get(fd)) return rawret(raw6(SYS_recvmsg, fd, (long)m, fl, 0, 0, 0));
  m->msg_controllen = 0; m->msg_flags = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return do_read(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl);
  return 0;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
  if (!get(fd)) return rawret(raw6(SYS_sendmsg, fd, (long)m, fl, 0, 0, 0));
  return gather(fd, m->msg_iov, m->msg_iovlen, fl);
}
int pipe2(int fds[2], int fl) {
  if (!active) return (int)rawret(raw6(SYS_pipe2, (long)fds, fl, 0, 0, 0, 0));
  struct obj *r = new_obj(K_PIPER), *w = new_obj(K_PIPEW);
  r->peer = w; w->peer = r; r->nonblock = w->nonblock = (fl & O_NONBLOCK) != 0;
  fds[0] = place(r); fds[1] = place(w);
  return 0;
}
int pipe(int fds[2]) { return pipe2(fds, 0); }
int socketpair(int d, int t, int p, int fds[2]) {
  if (!active) return (int)rawret(raw6(SYS_socketpair, d, t, p, (long)fds, 0, 0));
  struct obj *r = new_obj(K_SP), *w = new_obj(K_SP);
  r->peer = w; w->peer = r; r->nonblock = w->nonblock = (t & SOCK_NONBLOCK) != 0;
  fds[0] = place(r); fds[1] = place(w);
  return 0;
}
int eventfd(unsigned v, int fl) {
  if (!active) return (int)rawret(raw6(SYS_eventfd2, v, fl, 0, 0, 0, 0));
  struct obj *o = new_obj(K_EVENTFD); o->counter = v; o->nonblock = (fl & O_NONBLOCK) != 0;
  return place(o);
}

// ------------------------------------------------------------------ sockets
int socket(int d, int t, int p) {
  if (!active) return (int)rawret(raw6(SYS_socket, d, t, p, 0, 0, 0));
  struct obj *o = new_obj(K_SOCK); o->nonblock = (t & SOCK_NONBLOCK) != 0;
  return place(o);
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_bind, fd, (long)a, l, 0, 0, 0));
  if (cfg_binderr && cfg_bindat == 0) { tr("F bind_error %d", cfg_binderr); errno = cfg_binderr; return -1; }
  if (a->sa_family == AF_INET) { o->port = ntohs(((struct sockaddr_in *)a)->sin_port); tr("BIND %s %d", inet_ntoa(((struct sockaddr_in *)a)->sin_addr), o->port); }
  else if (a->sa_family == AF_INET6) { o->port = ntohs(((struct sockaddr_in6 *)a)->sin6_port); tr("BIND6 %d", o->port); }
  return 0;
}
int listen(int fd, int bl) {
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_listen, fd, bl, 0, 0, 0, 0));
  if (cfg_binderr && cfg_bindat == 1) { tr("F listen_error %d", cfg_binderr); errno = cfg_binderr; return -1; }
  o->k = K_LISTEN; listener = o; tr("LISTEN %d", o->port); world_dirty = 1;
  return 0;
}
static void fill_addr(struct sockaddr *a, socklen_t *l, uint32_t ip, uint16_t port) {
  struct sockaddr_in s; memset(&s, 0, sizeof s);
  s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(ip); s.sin_port = htons(port);
  if (a && l) { socklen_t n = *l < sizeof s ? *l : sizeof s; memcpy(a, &s, n); *l = sizeof s; }
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_accept4, fd, (long)a, (long)l, fl, 0, 0));
  sp();
  while (!o->bqn) {
    if (o->nonblock) { errno = EAGAIN; return -1; }
    self_t->o = o; block(W_ACCEPT, INF);
  }
  if (dice(cfg_paccept)) {
    static const int es[] = {EMFILE, ENFILE, ECONNABORTED, EINTR, ENOBUFS};
    int e = es[rndn(5)];
    tr("F accept_error %d", e);
    notify(o);
    errno = e; return -1;
  }
  int pickn = 0;
  struct conn *c = o->bq[pickn];
  memmove(&o->bq[0], &o->bq[1], sizeof o->bq[0] * (size_t)(--o->bqn));
  if (o->bqn) notify(o);
  struct obj *n = new_obj(K_CONN);
  n->c = c; c->o = n; c->accepted = 1; c->pending = 0;
  n->nonblock = (fl & SOCK_NONBLOCK) != 0;
  fill_addr(a, l, c->ip, c->port);
  int f = place(n);
  tr("ACCEPT %d fd %d", c->id, f);
  return f;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_getpeername, fd, (long)a, (long)l, 0, 0, 0));
  if (o->k != K_CONN) { errno = ENOTCONN; return -1; }
  if (!o->c->ip_ok) { tr("F getpeername_fail %d", o->c->id); errno = ENOTCONN; return -1; }
  fill_addr(a, l, o->c->ip, o->c->port);
  return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_getsockname, fd, (long)a, (long)l, 0, 0, 0));
  fill_addr(a, l, o->k == K_CONN ? 0x7f000001u : 0, (uint16_t)(o->k == K_CONN ? (listener ? listener->port : 0) : o->port));
  return 0;
}
int setsockopt(int fd, int lv, int n, const void *v, socklen_t l) {
  if (!get(fd)) return (int)rawret(raw6(SYS_setsockopt, fd, lv, n, (long)v, l, 0));
  return 0;
}
int getsockopt(int fd, int lv, int n, void *v, socklen_t *l) {
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_getsockopt, fd, lv, n, (long)v, (long)l, 0));
  if (v && l && *l >= 4) { *(int *)v = (lv == SOL_SOCKET && n == SO_ERROR && o->k == K_CONN && o->c->rst) ? ECONNRESET : 0; *l = 4; }
  return 0;
}
int shutdown(int fd, int how) {
  struct obj *o = get(fd);
  if (!o) return (int)rawret(raw6(SYS_shutdown, fd, how, 0, 0, 0, 0));
  sp();
  if (o->k == K_CONN) {
    tr("SHUT %d %d", o->c->id, how);
    if (o->c->rst) { errno = ENOTCONN; return -1; }
    if (how != SHUT_RD) { o->c->sv_shut = 1; world_dirty = 1; notify(o); }
  }
  return 0;
}

// ------------------------------------------------------------------ epoll / poll
int epoll_create1(int fl) {
  if (!active) return (int)rawret(raw6(SYS_epoll_create1, fl, 0, 0, 0, 0, 0));
  return place(new_obj(K_EPOLL));
}
int epoll_create(int n) { (void)n; return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  struct obj *e = get(ep), *o = get(fd);
  if (!e) return (int)rawret(raw6(SYS_epoll_ctl, ep, op, fd, (long)ev, 0, 0));
  if (!o) { errno = EBADF; return -1; }
  if (o->k == K_OUT || o->k == K_LOG) { if (!cfg_outtty) { errno = EPERM; return -1; } }
  struct epitem *it = NULL, **pp = &e->items;
  for (; *pp; pp = &(*pp)->next) if ((*pp)->fd == fd && (*pp)->o == o) { it = *pp; break; }
  if (op == EPOLL_CTL_ADD) {
    if (it) { errno = EEXIST; return -1; }
    it = calloc(1, sizeof *it); it->fd = fd; it->o = o; it->ev = *ev; it->ready = 1; it->next = e->items; e->items = it;
    int have = 0; for (int i = 0; i < o->neps; i++) have |= o->eps[i] == e;
    if (!have) { if (o->neps >= 16) die("eps"); o->eps[o->neps++] = e; }
    return 0;
  }
  if (!it) { errno = ENOENT; return -1; }
  if (op == EPOLL_CTL_MOD) { it->ev = *ev; it->ready = 1; it->disabled = 0; return 0; }
  if (op == EPOLL_CTL_DEL) {
    *pp = it->next; free(it);
    int left = 0; for (struct epitem *i = e->items; i; i = i->next) left |= i->o == o;
    if (!left) for (int i = 0; i < o->neps; i++) if (o->eps[i] == e) { o->eps[i] = o->eps[--o->neps]; break; }
    return 0;
  }
  errno = EINVAL; return -1;
}
int epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
  struct obj *e = get(ep);
  if (!e) return (int)rawret(raw6(SYS_epoll_pwait, ep, (long)evs, max, timeout, 0, 8));
  i64 dl = timeout < 0 ? INF : now_ns + (i64)timeout * 1000000;
  sp();
  if (dice(cfg_peintr)) { tr("F eintr_epoll"); errno = EINTR; return -1; }
  for (;;) {
    struct epitem *c[1024]; int n = 0, k = 0;
    for (struct epitem *i = e->items; i; i = i->next)
      if (i->ready && !i->disabled) {
        if (obj_mask(i->o) & (i->ev.events | EPOLLERR | EPOLLHUP)) { if (n < 1024) c[n++] = i; }
        else i->ready = 0;
      }
    for (int i = n - 1; i > 0; i--) { int j = (int)rndn((u64)i + 1); struct epitem *t = c[i]; c[i] = c[j]; c[j] = t; }
    for (int i = 0; i < n && k < max; i++) {
      evs[k].events = obj_mask(c[i]->o) & (c[i]->ev.events | EPOLLERR | EPOLLHUP);
      evs[k].data = c[i]->ev.data; k++;
      if (c[i]->ev.events & EPOLLONESHOT) c[i]->disabled = 1;
      if (c[i]->ev.events & EPOLLET) c[i]->ready = 0;
    }
    if (k) return k;
    if (timeout == 0 || dl <= now_ns) return 0;
    self_t->o = e;
    enum bres r = block(W_EPOLL, dl);
    if (r == B_TIMEOUT) return 0;
    if (r == B_INTR) { errno = EINTR; return -1; }
  }
}
int epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const sigset_t *s) { (void)s; return epoll_wait(ep, evs, max, timeout); }
int poll(struct pollfd *p, nfds_t n, int timeout) {
  int sim = active && self_t;
  if (sim) { sim = 0; for (nfds_t i = 0; i < n; i++) if (get(p[i].fd)) sim = 1; if (!n) sim = 1; }
  if (!sim) return (int)rawret(raw6(SYS_poll, (long)p, (long)n, timeout, 0, 0, 0));
  i64 dl = timeout < 0 ? INF : now_ns + (i64)timeout * 1000000;
  sp();
  for (;;) {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
      struct obj *o = get(p[i].fd);
      p[i].revents = o ? (short)(obj_mask(o) & (uint32_t)(p[i].events | POLLERR | POLLHUP)) : 0;
      if (p[i].revents) k++;
    }
    if (k || timeout == 0 || dl <= now_ns) return k;
    self_t->pfd = p; self_t->npfd = (int)n;
    enum bres r = block(W_POLL, dl);
    if (r == B_TIMEOUT) return 0;
    if (r == B_INTR) { errno = EINTR; return -1; }
  }
}
int pause(void) {
  if (!active) return (int)rawret(raw6(SYS_pause, 0, 0, 0, 0, 0, 0));
  while (block(W_PAUSE, INF) != B_INTR) ;
  errno = EINTR; return -1;
}

// ------------------------------------------------------------------ semaphores (own words inside sem_t)
int sem_init(sem_t *s, int sh, unsigned v) {
  if (!active) { if (!r_sem_init) r_sem_init = dlsym(RTLD_NEXT, "sem_init"); return r_sem_init(s, sh, v); }
  *(int *)s = (int)v; return 0;
}
int sem_post(sem_t *s) { if (!active) die("sem_post"); __atomic_add_fetch((int *)s, 1, __ATOMIC_SEQ_CST); sp(); return 0; }
int sem_wait(sem_t *s) {
  if (!active) die("sem_wait");
  sp();
  while (*(int *)s <= 0) {
    self_t->addr = s;
    enum bres r = block(W_SEM, INF);
    if (r == B_INTR && dice(300)) { errno = EINTR; return -1; }
  }
  --*(int *)s;
  return 0;
}
int sem_destroy(sem_t *s) { (void)s; return 0; }

// ------------------------------------------------------------------ signals
static int is_fault_sig(int s) { return s == SIGSEGV || s == SIGBUS || s == SIGILL || s == SIGFPE || s == SIGABRT || s == SIGTRAP; }
int sigaction(int sig, const struct sigaction *a, struct sigaction *old) {
  if (!r_sigaction) r_sigaction = dlsym(RTLD_NEXT, "sigaction");
  if (!active || is_fault_sig(sig) || sig < 1 || sig > 63) return r_sigaction(sig, a, old);
  struct sact *s = &sacts[sig];
  if (old) {
    memset(old, 0, sizeof *old);
    if (s->set) { old->sa_flags = s->flags; if (s->flags & SA_SIGINFO) old->sa_sigaction = s->h3; else old->sa_handler = s->h; }
    else old->sa_handler = s->flags == -1 ? SIG_IGN : SIG_DFL;
  }
  if (a) {
    if (a->sa_handler == SIG_DFL) { s->set = 0; s->flags = 0; }
    else if (a->sa_handler == SIG_IGN) { s->set = 0; s->flags = -1; }
    else { s->set = 1; s->flags = a->sa_flags; s->h = a->sa_handler; s->h3 = a->sa_sigaction; tr("SIGACTION %d", sig); }
  }
  return 0;
}
typedef void (*sh_t)(int);
sh_t signal(int sig, sh_t h) {
  struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_RESTART;
  if (sigaction(sig, &a, &o)) return SIG_ERR;
  return o.sa_handler;
}

// ------------------------------------------------------------------ machine
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  if (!active) { long r = raw6(SYS_sched_getaffinity, p, (long)n, (long)s, 0, 0, 0); return r < 0 ? (int)rawret(r) : 0; }
  memset(s, 0, n);
  for (int i = 0; i < cfg_cpus; i++) CPU_SET_S(i, n, s);
  return 0;
}
long sysconf(int n) {
  if (active && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return cfg_cpus;
  if (!r_sysconf) r_sysconf = dlsym(RTLD_NEXT, "sysconf");
  return r_sysconf(n);
}
pid_t gettid(void) { return active && self_t ? 4242 + self_t->id : (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
pid_t getpid(void) { return active ? 4242 : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }

// ------------------------------------------------------------------ scenario
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static unsigned char *unhex(const char *s, size_t *n) {
  size_t l = strlen(s); while (l && (s[l - 1] == '\n' || s[l - 1] == ' ')) l--;
  unsigned char *b = malloc(l / 2 + 1); *n = 0;
  for (size_t i = 0; i + 1 < l; i += 2) b[(*n)++] = (unsigned char)(hexv(s[i]) << 4 | hexv(s[i + 1]));
  return b;
}
static struct op *add_op(enum opk k) {
  struct actor *A = &acts[nact - 1];
  if (A->n == A->cap) { A->cap = A->cap * 2 + 16; A->ops = realloc(A->ops, sizeof(struct op) * (size_t)A->cap); }
  struct op *o = &A->ops[A->n++];
  memset(o, 0, sizeof *o); o->k = k;
  return o;
}
static void parse_scenario(char *txt) {
  u64 seed = 1; int tty = 0, logerr = 0;
  i64 t0 = 1000000000LL; i64 rt0 = 1700000000LL;
  for (char *l = strtok(txt, "\n"); l; l = strtok(NULL, "\n")) {
    char k[32]; int off = 0;
    if (sscanf(l, "%31s %n", k, &off) < 1) continue;
    char *r = l + off;
    long long a = 0, b = 0, c = 0;
    sscanf(r, "%lld %lld %lld", &a, &b, &c);
#define IS(x) (!strcmp(k, x))
    if (IS("seed")) { seed = strtoull(r, NULL, 10); }
    else if (IS("maxsteps")) cfg_maxsteps = a;
    else if (IS("end")) cfg_end = a * 1000;
    else if (IS("cpus")) cfg_cpus = (int)a;
    else if (IS("pswitch")) cfg_pswitch = (int)a;
    else if (IS("mode")) cfg_mode = (int)a;
    else if (IS("pct")) cfg_sched_pct = (int)a;
    else if (IS("cost")) { cfg_cost_lo = a; cfg_cost_hi = b; }
    else if (IS("pstall")) { cfg_pstall = a; cfg_stallmax = b; }
    else if (IS("jitter")) cfg_jitter = a;
    else if (IS("peintr")) cfg_peintr = (int)a;
    else if (IS("pshortw")) cfg_pshortw = (int)a;
    else if (IS("pshortr")) cfg_pshortr = (int)a;
    else if (IS("pspur")) cfg_pspur = (int)a;
    else if (IS("paccept")) cfg_paccept = (int)a;
    else if (IS("outtty")) cfg_outtty = (int)a;
    else if (IS("outcap")) { cfg_outcap = a; cfg_outerr = (int)b; }
    else if (IS("outcap2")) { cfg_outcap2 = a; cfg_outerr = (int)b; }
    else if (IS("logcap")) { cfg_logcap = a; cfg_logerr = (int)b; }
    else if (IS("binderr")) { cfg_binderr = (int)a; cfg_bindat = (int)b; }
    else if (IS("tty")) { tty = (int)a; }
    else if (IS("logerr")) logerr = (int)a;
    else if (IS("tracelog")) cfg_tracelog = (int)a;
    else if (IS("rtbase")) rt0 = a;
    else if (IS("penv")) cfg_penv = (int)a;
    else if (IS("pfile")) cfg_pfile = (int)a;
    else if (IS("winsize")) { cfg_rows = (int)a; cfg_cols = (int)b; }
    else if (IS("tracesched")) cfg_tracesched = (int)a;
    else if (IS("actor")) { if (nact >= MAXACT) die("too many actors"); nact++; }
    else if (nact) {
      struct op *o;
      if (IS("sleep")) { o = add_op(O_SLEEP); o->a = a; }
      else if (IS("at")) { o = add_op(O_AT); o->a = a; }
      else if (IS("key")) { o = add_op(O_TTY); o->d = unhex(r, &o->dl); }
      else if (IS("eof")) { add_op(O_TTYEOF); }
      else if (IS("sig")) { o = add_op(O_SIG); o->a = a; }
      else if (IS("rtjump")) { o = add_op(O_RTJUMP); o->a = a; }
      else if (IS("conn")) { char ip[64]; long long id, port, fl = 0; if (sscanf(r, "%lld %63s %lld %lld", &id, ip, &port, &fl) < 3 || id < 0 || id >= MAXCONN) die("conn op"); o = add_op(O_CONN); o->a = id; o->b = port; o->c = fl; o->ip = ntohl(inet_addr(ip)); }
      else if (IS("send")) { int o2 = 0; sscanf(r, "%lld %n", &a, &o2); o = add_op(O_SEND); o->a = a; o->d = unhex(r + o2, &o->dl); }
      else if (IS("wresp")) { o = add_op(O_WRESP); o->a = a; o->b = b; o->c = c; }
      else if (IS("wclose")) { o = add_op(O_WCLOSE); o->a = a; o->c = b; }
      else if (IS("wraw")) { o = add_op(O_WRAW); o->c = a; }
      else if (IS("wtty")) { o = add_op(O_WTTY); o->c = a; }
      else if (IS("wactors")) { o = add_op(O_WACTORS); o->c = a; }
      else if (IS("fin")) { o = add_op(O_FIN); o->a = a; }
      else if (IS("rst")) { o = add_op(O_RST); o->a = a; }
      else if (IS("cclose")) { o = add_op(O_CLOSE); o->a = a; }
      else if (IS("rwin")) { o = add_op(O_RWIN); o->a = a; o->b = b; }
      else if (IS("stall")) { o = add_op(O_STALL); o->a = a; o->b = b; }
      else if (IS("note")) { o = add_op(O_NOTE); o->s = strdup(r); }
      else if (IS("outerr")) { o = add_op(O_OUTERR); o->a = a; }
      else if (IS("stop")) { add_op(O_STOP); }
      else { tr("SIMERROR bad line %s", l); die("scenario"); }
    } else { tr("SIMERROR bad line %s", l); die("scenario"); }
  }
  seed_rng(seed); amb_seed = seed * 0x9E3779B97F4A7C15ULL + 1; rng2_s = seed * 0x2545F4914F6CDD1DULL + 77;
  now_ns = 0; (void)t0; rt_off = rt0 * 1000000000LL;
  if (tty) { tty_in = new_obj(K_TTYIN); tty_in->refs = 1; fdt[0] = tty_in; }
  else { struct obj *n = new_obj(K_TTYIN); n->eof = 1; n->refs = 1; fdt[0] = n; }
  for (int f = 1; f <= 2; f++) { struct obj *o = new_obj(logerr ? K_LOG : K_OUT); o->outfd = f; o->refs = 1; fdt[f] = o; }
  memset(&sim_tios, 0, sizeof sim_tios); sim_tios.c_lflag = ISIG | ICANON | ECHO; sim_tios.c_oflag = OPOST | ONLCR; sim_tios.c_iflag = ICRNL;
}
__attribute__((constructor)) static void simos_init(void) {
  const char *sc = getenv("SIMOS_SCENARIO"), *tf = getenv("SIMOS_TRACE");
  if (!sc) return;
  r_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  r_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  r_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
  r_pthread_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
  r_pthread_mutex_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  r_sigaction = dlsym(RTLD_NEXT, "sigaction");
  if (tf) {
    int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)tf, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600, 0, 0);
    if (fd >= 0) {
      raw6(SYS_ftruncate, fd, TRACE_MAX, 0, 0, 0, 0);
      void *m = (void *)raw6(SYS_mmap, 0, TRACE_MAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if ((long)m > 0 || (long)m < -4096) tr_map = m;
      raw6(SYS_close, fd, 0, 0, 0, 0, 0);
    }
  }
  int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)sc, O_RDONLY | O_CLOEXEC, 0, 0, 0);
  if (fd < 0) die("no scenario");
  size_t cap = 1 << 16, n = 0; char *t = malloc(cap);
  for (;;) { long r = raw6(SYS_read, fd, (long)(t + n), (long)(cap - n - 1), 0, 0, 0); if (r <= 0) break; n += (size_t)r; if (cap - n < 4096) { cap *= 2; t = realloc(t, cap); } }
  t[n] = 0;
  raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  parse_scenario(t);
  free(t);
  unsetenv("SIMOS_SCENARIO"); unsetenv("SIMOS_TRACE"); unsetenv("LD_PRELOAD");
  struct thr *me = &thr_tab[0];
  memset(me, 0, sizeof *me);
  me->id = 0; me->pt = pthread_self(); me->is_main = 1; me->deadline = INF; me->prio = (int)rndn(1000000);
  nthr = 1; self_t = me;
  pthread_key_create(&tkey, thread_exit_release);
  active = 1;
  tr("START");
}
__attribute__((destructor)) static void simos_fini(void) { if (active) { tr("EXIT"); tr_hdr(); } }
