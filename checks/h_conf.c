/* Conformance of the simulated kernel: every operation sequence up to a depth is performed both on the simulation and
 * on real descriptors of the running kernel, and each result (value, error, reported events) has to be the same.
 * Not a check of the library; run by tools/conform.py. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <limits.h>
#include <sys/syscall.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/inotify.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include "mc.h"
#include "sim.h"

/* the real kernel, past the overridden entry points */
static long R(long r) { return r; }
#define sys(...) R(syscall(__VA_ARGS__))
static int rep, sep;                     /* real and simulated epoll instance */
static int opened[64], nopened;
static int own(int fd) { if (fd < 0) mc_error("real kernel: %s", strerror(errno)); opened[nopened++] = fd; return fd; }
static void disown(int fd) { int i; for (i = 0; i < nopened; i++) if (opened[i] == fd) opened[i] = -1; sys(SYS_close, fd); }

typedef struct { long r; int e; } res;
static res real_(long r) { return (res) {r, r == -1 ? errno : 0}; }
#define REAL(...) (errno = 0, real_(syscall(__VA_ARGS__)))
#define SIMU(x) (errno = 0, real_(x))
static void same(const char *op, res a, res b)
{
  mc_step();
  MC_CHECK(a.r == b.r && a.e == b.e, "%s: kernel %ld (%s), simulation %ld (%s)", op, a.r, a.e ? strerror(a.e) : "", b.r, b.e ? strerror(b.e) : "");
}

#define MAXW 3
static struct { int rfd, sfd, in; uint32_t ev; } W[MAXW];
static int nw;
static void begin(void)
{
  int i;
  for (i = 0; i < nopened; i++)
    if (opened[i] >= 0)
      sys(SYS_close, opened[i]);
  nopened = 0;
  sim_reset();
  sim_set_now(1000000000000ull);
  rep = own(sys(SYS_epoll_create1, 0));
  sep = epoll_create1(0);
  nw = 0;
  signal(SIGPIPE, SIG_IGN);
}
static int watch(int rfd, int sfd) { W[nw].rfd = rfd; W[nw].sfd = sfd; W[nw].in = 0; return nw++; }
static void ctl(int k, int op, uint32_t ev)
{
  struct epoll_event e = {.events = ev, .data.u64 = k};
  same("epoll_ctl", REAL(SYS_epoll_ctl, rep, op, W[k].rfd, &e), SIMU(epoll_ctl(sep, op, W[k].sfd, &e)));
}
static void wait_(void)
{
  struct epoll_event a[8], b[8];
  int n = sys(SYS_epoll_wait, rep, a, 8, 0), m = epoll_wait(sep, b, 8, 0), i, t;
  /* what travels through the network stack may take a moment */
  for (t = 0; n < m && t < 200; t++)
  {
    usleep(50);
    n += sys(SYS_epoll_wait, rep, a + n, 8 - n, 0);
  }
  mc_step();
  if (mc_verbose())
  {
    for (i = 0; i < n; i++) mc_note("    kernel %d: %x", (int) a[i].data.u64, a[i].events);
    for (i = 0; i < m; i++) mc_note("    simulation %d: %x", (int) b[i].data.u64, b[i].events);
  }
  MC_CHECK(n == m, "epoll_wait: kernel reports %d descriptors (%x), the simulation %d (%x)", n, n ? a[0].events : 0, m, m ? b[0].events : 0);
  for (i = 0; i < n; i++)
    MC_CHECK(a[i].data.u64 == b[i].data.u64 && a[i].events == b[i].events, "epoll_wait: event %d of %d: kernel %d:%x, simulation %d:%x", i, n, (int) a[i].data.u64, a[i].events, (int) b[i].data.u64, b[i].events);
}
static const uint32_t evs[] = {EPOLLHUP | EPOLLRDHUP | EPOLLIN | EPOLLET, EPOLLHUP | EPOLLRDHUP | EPOLLIN | EPOLLOUT | EPOLLET, EPOLLHUP | EPOLLRDHUP | EPOLLOUT | EPOLLET, EPOLLHUP | EPOLLRDHUP | EPOLLET, EPOLLIN | EPOLLHUP | EPOLLRDHUP};
static void ctl_any(int k)
{
  int i = mc_choose(6, "add or modify, delete");
  if (i == 5)
  {
    ctl(k, EPOLL_CTL_DEL, 0);
    W[k].in = 0;
    return;
  }
  ctl(k, W[k].in ? EPOLL_CTL_MOD : EPOLL_CTL_ADD, evs[i]);
  W[k].in = 1;
}
static void add(int k, int i) { ctl(k, EPOLL_CTL_ADD, evs[i]); W[k].in = 1; }

/* ---- event descriptors ---- */
static void conf_eventfd(void)
{
  int i, k, n = mc_param(), r[2], s[2];
  uint64_t v;
  begin();
  for (k = 0; k < 2; k++)
  {
    r[k] = own(sys(SYS_eventfd2, 0, EFD_NONBLOCK));
    s[k] = eventfd(0, EFD_NONBLOCK);
    watch(r[k], s[k]);
    add(k, 0);
  }
  for (i = 0; i < n; i++)
  {
    switch (mc_choose(7, "operation"))
    {
    case 0: wait_(); break;
    case 1: case 2:
      k = mc_choose(2, "which");
      v = 1;
      same("write", REAL(SYS_write, r[k], &v, 8), SIMU(write(s[k], &v, 8)));
      break;
    case 3:
      k = mc_choose(2, "which");
      {
        uint64_t a = 0, b = 0;
        same("read", REAL(SYS_read, r[k], &a, 8), SIMU(read(s[k], &b, 8)));
        MC_CHECK(a == b, "value read: %lu, %lu", a, b);
      }
      break;
    case 4: ctl_any(mc_choose(2, "which")); break;
    case 5: v = UINT64_MAX - 1; same("write", REAL(SYS_write, r[0], &v, 8), SIMU(write(s[0], &v, 8))); break;
    case 6: same("write", REAL(SYS_write, r[0], &v, 4), SIMU(write(s[0], &v, 4))); break;
    }
    mc_state(sim_hash());
  }
  wait_(); wait_();
}

/* ---- pipes ---- */
static char junk[1 << 20];
static void conf_pipe_read(void)
{
  int i, n = mc_param(), p[2], fin = 0;
  sim_conn *c;
  size_t l;
  begin();
  sys(SYS_pipe2, p, O_NONBLOCK);
  own(p[0]); own(p[1]);
  c = sim_conn_new(SIM_PIPE_R, 65536);
  watch(p[0], c->fd);
  add(0, mc_choose(5, "interest"));
  for (i = 0; i < n; i++)
  {
    switch (mc_choose(5, "operation"))
    {
    case 0: wait_(); break;
    case 1:
      if (fin) mc_prune();
      l = mc_choose(2, "1, 3000") ? 3000 : 1;
      sys(SYS_write, p[1], junk, l);
      sim_peer_send(c, junk, l);
      break;
    case 2:
      l = mc_choose(2, "read 1, all") ? 65536 : 1;
      same("read", REAL(SYS_read, p[0], junk, l), SIMU(read(c->fd, junk, l)));
      break;
    case 3: if (fin) mc_prune(); fin = 1; disown(p[1]); sim_peer_fin(c); break;
    case 4: ctl_any(0); break;
    }
    mc_state(sim_hash());
  }
  wait_(); wait_();
}
static void conf_pipe_write(void)
{
  int i, n = mc_param(), p[2], gone = 0;
  sim_conn *c;
  size_t l;
  begin();
  sys(SYS_pipe2, p, O_NONBLOCK);
  own(p[0]); own(p[1]);
  c = sim_conn_new(SIM_PIPE_W, 65536);
  watch(p[1], c->fd);
  add(0, mc_choose(5, "interest"));
  for (i = 0; i < n; i++)
  {
    switch (mc_choose(5, "operation"))
    {
    case 0: wait_(); break;
    case 1:
      l = (size_t[]) {4096, 65536, 100000}[mc_choose(3, "write 4096, 65536, 100000")];
      same("write", REAL(SYS_write, p[1], junk, l), SIMU(write(c->fd, junk, l)));
      break;
    case 2:
      if (gone) mc_prune();
      l = mc_choose(2, "take 4096, all") ? 1 << 20 : 4096;
      {
        long a = sys(SYS_read, p[0], junk, l), b = sim_peer_take(c, l);
        MC_CHECK((a < 0 ? 0 : a) == b, "taken: %ld, %ld", a, b);
      }
      break;
    case 3: if (gone) mc_prune(); gone = 1; disown(p[0]); sim_peer_rst(c); break;
    case 4: ctl_any(0); break;
    }
    mc_state(sim_hash());
  }
  wait_(); wait_();
}

/* ---- stream sockets ---- */
static void tcp(int *a, int *b)
{
  struct sockaddr_in sa = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
  socklen_t sl = sizeof sa;
  static int l = -1;
  if (l == -1)
  {
    l = sys(SYS_socket, AF_INET, SOCK_STREAM, 0);
    if (sys(SYS_bind, l, &sa, sizeof sa) == -1 || sys(SYS_listen, l, 16) == -1)
      mc_error("loopback");
  }
  sys(SYS_getsockname, l, &sa, &sl);
  *b = own(sys(SYS_socket, AF_INET, SOCK_STREAM, 0));
  if (sys(SYS_connect, *b, &sa, sl) == -1)
    mc_error("connect");
  *a = own(sys(SYS_accept4, l, NULL, NULL, SOCK_NONBLOCK));
  sys(SYS_setsockopt, *b, IPPROTO_TCP, TCP_NODELAY, &(int) {1}, sizeof(int));
}
/* until the kernel's side has seen what the peer did */
static void arrive(int fd, short ev)
{
  struct pollfd p = {.fd = fd, .events = ev | POLLRDHUP};
  int t;
  for (t = 0; t < 400; t++)
  {
    sys(SYS_poll, &p, 1, 0);
    if (p.revents & (ev | POLLERR))
      return;
    usleep(25);
  }
}
static void conf_socket(void)
{
  int i, n = mc_param(), a, b, fin = 0, rst = 0, wrote = 0;
  sim_conn *c;
  size_t l;
  begin();
  tcp(&a, &b);
  c = sim_conn_new(SIM_SOCK, 1 << 30);
  watch(a, c->fd);
  add(0, mc_choose(5, "interest"));
  for (i = 0; i < n; i++)
  {
    switch (mc_choose(7, "operation"))
    {
    case 0: wait_(); break;
    case 1:
      if (fin || rst) mc_prune();
      l = mc_choose(2, "peer sends 1, 3000") ? 3000 : 1;
      sys(SYS_write, b, junk, l);
      sim_peer_send(c, junk, l);
      {
        int have = 0, t;
        for (t = 0; t < 400 && have < (int) c->rxlen; t++)
        {
          sys(SYS_ioctl, a, 0x541B, &have);
          if (have < (int) c->rxlen) usleep(25);
        }
      }
      break;
    case 2:
      l = mc_choose(2, "read 1, all") ? 65536 : 1;
      same("read", REAL(SYS_read, a, junk, l), SIMU(read(c->fd, junk, l)));
      break;
    case 3:
      if (rst) mc_prune();
      if (fin) mc_prune();
      fin = 1;
      sys(SYS_shutdown, b, SHUT_WR);
      sim_peer_fin(c);
      arrive(a, POLLRDHUP);
      break;
    case 4:
      if (rst || (fin && c->shut_wr)) mc_prune(); /* the connection has ended: no reset is sent */
      rst = 1;
      sys(SYS_setsockopt, b, SOL_SOCKET, SO_LINGER, &(struct linger) {1, 0}, sizeof(struct linger));
      disown(b);
      sim_peer_rst(c);
      arrive(a, POLLERR);
      break;
    case 5:
      l = mc_choose(2, "write 1, 5000") ? 5000 : 1;
      same("write", REAL(SYS_sendto, a, junk, l, MSG_NOSIGNAL, NULL, 0), SIMU(write(c->fd, junk, l)));
      break;
    case 6: ctl_any(0); break;
    case 7: /* the library shuts its sending side */
      if (c->shut_wr) mc_prune();
      same("shutdown", REAL(SYS_shutdown, a, SHUT_WR), SIMU(shutdown(c->fd, SHUT_WR)));
      usleep(100);
      break;
    }
    (void) wrote;
    mc_state(sim_hash());
  }
  wait_(); wait_();
}
/* a full socket: only whether, not how much, is comparable */
static void conf_socket_full(void)
{
  int i, n = mc_param(), s[2], sz = 4096;
  sim_conn *c;
  begin();
  if (syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, s) == -1)
    mc_error("socketpair");
  own(s[0]); own(s[1]);
  sys(SYS_setsockopt, s[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
  c = sim_conn_new(SIM_SOCK, 4096);
  watch(s[0], c->fd);
  add(0, mc_choose(5, "interest"));
  for (i = 0; i < n; i++)
  {
    switch (mc_choose(4, "operation"))
    {
    case 0: wait_(); break;
    case 1: /* fill */
      while (sys(SYS_write, s[0], junk, 65536) > 0);
      while (write(c->fd, junk, 65536) > 0);
      break;
    case 2:
      while (sys(SYS_read, s[1], junk, sizeof junk) > 0);
      sim_peer_take(c, -1);
      break;
    case 3: ctl_any(0); break;
    }
    mc_state(sim_hash());
  }
  wait_(); wait_();
}

/* ---- timers (in real time: periods far above the jitter) ---- */
#define MS 1000000ull
static void conf_timer(void)
{
  int i, n = mc_param(), r, s, k;
  static const struct { uint64_t v, i; } set[] = {{20 * MS, 0}, {1, 40 * MS}, {20 * MS, 40 * MS}, {0, 0}, {1, 0}};
  begin();
  r = own(sys(SYS_timerfd_create, CLOCK_REALTIME, TFD_NONBLOCK));
  s = timerfd_create(CLOCK_REALTIME, TFD_NONBLOCK);
  watch(r, s);
  add(0, mc_choose(2, "edge, level") ? 4 : 0);
  for (i = 0; i < n; i++)
  {
    switch (mc_choose(4, "operation"))
    {
    case 0: wait_(); break;
    case 1:
      k = mc_choose(5, "set");
      {
        struct itimerspec t = {.it_value.tv_nsec = set[k].v, .it_interval.tv_nsec = set[k].i};
        same("settime", REAL(SYS_timerfd_settime, r, 0, &t, NULL), SIMU(timerfd_settime(s, 0, &t, NULL)));
        /* a moment later */
        usleep(1000);
        sim_advance(1 * MS);
      }
      break;
    case 2:
      {
        uint64_t a = 0, b = 0;
        same("read", REAL(SYS_read, r, &a, 8), SIMU(read(s, &b, 8)));
        MC_CHECK(a == b, "expirations: kernel %lu, simulation %lu", a, b);
      }
      break;
    case 3:
      k = mc_choose(2, "40 ms, 80 ms") ? 80 : 40;
      usleep(k * 1000);
      sim_advance(k * MS);
      break;
    }
    mc_state(sim_hash());
  }
  wait_(); wait_();
}

/* ---- inotify ---- */
static void conf_inotify(void)
{
  int i, n = mc_param(), r, s, k, t;
  int rwd[2] = {-1, -1}, swd[2] = {-1, -1};
  char dir[2][300], path[400];
  static char ra[8192], sa[8192];
  begin();
  r = own(sys(SYS_inotify_init1, IN_NONBLOCK));
  s = inotify_init1(IN_NONBLOCK);
  watch(r, s);
  add(0, 0);
  for (k = 0; k < 2; k++)
  {
    snprintf(dir[k], sizeof dir[k], "%s/c%d-%d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", getpid(), k);
    mkdir(dir[k], 0700);
    rwd[k] = sys(SYS_inotify_add_watch, r, dir[k], IN_CREATE | IN_DELETE);
    swd[k] = inotify_add_watch(s, dir[k], IN_CREATE | IN_DELETE);
    MC_CHECK(rwd[k] == swd[k], "watch descriptors %d, %d", rwd[k], swd[k]);
  }
  static const char *names[] = {"a", "fifteen-letters", "sixteen--letters"};
  int exists[2][3] = {0};
  for (i = 0; i < n; i++)
  {
    switch (mc_choose(6, "operation"))
    {
    case 0: wait_(); break;
    case 1: case 2:
      k = mc_choose(2, "directory");
      t = mc_choose(3, "name");
      snprintf(path, sizeof path, "%s/%s", dir[k], names[t]);
      if (!exists[k][t])
        sys(SYS_mknod, path, 0100600, 0);
      else
        sys(SYS_unlink, path);
      exists[k][t] = !exists[k][t];
      if (rwd[k] != -1)
        sim_inotify_emit(s, swd[k], exists[k][t] ? IN_CREATE : IN_DELETE, names[t]);
      break;
    case 3:
      t = (int[]) {4096, 40, 16}[mc_choose(3, "read 4096, 40, 16")];
      {
        res a = REAL(SYS_read, r, ra, t), b = SIMU(read(s, sa, t));
        same("read", a, b);
        if (a.r > 0)
        {
          long o;
          for (o = 0; o < a.r; )
          {
            struct inotify_event *x = (void *) (ra + o), *y = (void *) (sa + o);
            MC_CHECK(x->wd == y->wd && x->mask == y->mask && x->len == y->len && (!x->len || strcmp(x->name, y->name) == 0), "event %d %x %u %s, %d %x %u %s", x->wd, x->mask, x->len, x->len ? x->name : "", y->wd, y->mask, y->len, y->len ? y->name : "");
            o += sizeof *x + x->len;
          }
        }
      }
      break;
    case 4:
      k = mc_choose(2, "directory");
      same("rm_watch", REAL(SYS_inotify_rm_watch, r, rwd[k] == -1 ? 99 : rwd[k]), SIMU(inotify_rm_watch(s, swd[k] == -1 ? 99 : swd[k])));
      rwd[k] = swd[k] = -1;
      break;
    case 5:
      k = mc_choose(2, "directory");
      rwd[k] = sys(SYS_inotify_add_watch, r, dir[k], IN_CREATE | IN_DELETE);
      swd[k] = inotify_add_watch(s, dir[k], IN_CREATE | IN_DELETE);
      MC_CHECK(rwd[k] == swd[k], "watch descriptors %d, %d", rwd[k], swd[k]);
      break;
    }
    mc_state(sim_hash());
  }
  wait_(); wait_();
  for (k = 0; k < 2; k++)
  {
    for (t = 0; t < 3; t++)
    {
      snprintf(path, sizeof path, "%s/%s", dir[k], names[t]);
      sys(SYS_unlink, path);
    }
    sys(SYS_rmdir, dir[k]);
  }
}

/* ---- listening sockets ---- */
static void conf_listen(void)
{
  int i, n = mc_param(), l, s, f, e, edge;
  struct sockaddr_in sa = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
  socklen_t sl = sizeof sa;
  begin();
  l = own(sys(SYS_socket, AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0));
  if (sys(SYS_bind, l, &sa, sizeof sa) == -1 || sys(SYS_listen, l, 64) == -1)
    mc_error("loopback");
  sys(SYS_getsockname, l, &sa, &sl);
  s = sim_listen_new();
  watch(l, s);
  edge = mc_choose(2, "level, edge");
  add(0, edge ? 0 : 4);
  for (i = 0; i < n; i++)
  {
    switch (mc_choose(4, "operation"))
    {
    case 0: wait_(); break;
    case 1:
      f = own(sys(SYS_socket, AF_INET, SOCK_STREAM, 0));
      if (sys(SYS_connect, f, &sa, sl) == -1)
        mc_error("connect");
      sim_listen_connect(s, 4096);
      break;
    case 2:
      f = accept4(s, NULL, NULL, SOCK_NONBLOCK);
      e = errno;
      i = i;
      {
        int g = syscall(SYS_accept4, l, NULL, NULL, SOCK_NONBLOCK), ge = errno;
        MC_CHECK((g >= 0) == (f >= 0) && (g >= 0 || ge == e), "accept: kernel %d (%s), simulation %d (%s)", g, strerror(ge), f, strerror(e));
        if (g >= 0)
        {
          int fl = sys(SYS_fcntl, g, F_GETFL);
          MC_CHECK(!!(fl & O_NONBLOCK) == !!(fcntl(f, F_GETFL) & O_NONBLOCK), "flags");
          own(g);
        }
      }
      break;
    case 3: ctl_any(0); break;
    }
    mc_state(sim_hash());
  }
  wait_(); wait_();
}

const mc_scenario mc_scenarios[] = {
  {"CONF", "eventfd", conf_eventfd, 0, 0, 4, 6, 3, 0},
  {"CONF", "pipe-read", conf_pipe_read, 0, 0, 5, 6, 3, 0},
  {"CONF", "pipe-write", conf_pipe_write, 0, 0, 5, 6, 3, 0},
  {"CONF", "socket", conf_socket, 0, 0, 5, 6, 3, 0},
  {"CONF", "socket-full", conf_socket_full, 0, 0, 6, 8, 3, 0},
  {"CONF", "timer", conf_timer, 0, 0, 3, 4, 3, 0},
  {"CONF", "inotify", conf_inotify, 0, 0, 3, 4, 3, 0},
  {"CONF", "listen", conf_listen, 0, 0, 5, 7, 3, 0},
  {0}
};
