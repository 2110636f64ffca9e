#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <netdb.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/inotify.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include "mc.h"
#include "sim.h"

#define NITEMS 256
#define NEV    4096

typedef struct { int used, fd; uint32_t events; epoll_data_t data; int ready; uint64_t ord; } item;
typedef struct { uint8_t *buf; } ablock;
#define NWATCH 1200
typedef struct { int wd; uint32_t mask, cookie; char *name; } iev;
typedef struct { int wd; char *path; uint32_t mask; int live; } iwatch;

typedef struct
{
  int       kind, nonblock;
  /* epoll */
  item     *items;
  int       nitems;
  /* eventfd */
  uint64_t  count;
  int       semaphore;
  /* timerfd */
  uint64_t  next, interval, ticks;
  int       clock;
  /* inotify */
  iev      *ev;
  size_t    nev;
  iwatch   *watch;
  int       nwatch, next_wd;
  int       overflowed;
  /* socket */
  sim_conn *conn;
  struct { sim_conn *conn; int err; } *pend; /* PENDING of them */
  int       npend;
  sim_sockinfo info;
} file;

#define PENDING 512
static file files[SIM_FDS];
static uint64_t clock_now, clock_boot, calls, limit, seq, waits;
static int first_wd = 1;
static size_t max_batch, ilimit, fd_limit;
static int last_epoll, addrinfo_live, opcount[SIM_OPS];
static struct { char path[64]; int err; } ifail[8];
static int nifail;
int (*sim_on_block)(int);
void (*sim_on_call)(const char *, int);
int (*sim_wait_hook)(int);
int (*sim_fault)(int);
size_t (*sim_split)(int fd, int wr, size_t n);
void (*sim_getaddrinfo_hook)(const char *, const char *, const struct addrinfo *, int);
static void *addrinfos[64];
int sim_getaddrinfo_on, sim_getaddrinfo_passive_type;

/* ---- arena (not part of the library's heap accounting) ---- */
static uint8_t *arena;
static size_t arena_used;
#define ARENA (1ul << 30)

static void *aalloc(size_t n)
{
  void *p;

  if (!arena)
    arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  n = (n + 15) & ~15ul;
  if (arena_used + n > ARENA)
    mc_error("simulated kernel: arena exhausted");
  p = arena + arena_used;
  arena_used += n;
  memset(p, 0, n);
  return p;
}

/* tables of closed files, used again without being cleared (their entries are set before they count) */
enum { REC_WATCH, REC_EV, REC_PEND, RECS };
static void *recycled[RECS];
static void *ralloc(int k, size_t n)
{
  void *p = recycled[k];
  if (!p)
    return aalloc(n);
  memcpy(&recycled[k], p, sizeof(void *));
  return p;
}
static void recycle(int k, void *p)
{
  if (!p)
    return;
  memcpy(p, &recycled[k], sizeof(void *));
  recycled[k] = p;
}

static void agrow(uint8_t **p, size_t *cap, size_t used, size_t need)
{
  uint8_t *q;

  if (need <= *cap)
    return;
  need = need < 256 ? 256 : need + need / 2;
  q = aalloc(need);
  if (used)
    memcpy(q, *p, used);
  *p = q;
  *cap = need;
}

void sim_reset(void)
{
  int i;

  for (i = 0; i < SIM_FDS; i++)
    if (files[i].kind)
      memset(&files[i], 0, sizeof files[i]);
  if (arena_used > (8ul << 20))
    madvise(arena + (8ul << 20), ARENA - (8ul << 20), MADV_DONTNEED);
  arena_used = 0;
  memset(recycled, 0, sizeof recycled);
  clock_now = 1000000000ull * 1000000000ull; /* 2001-09-09 01:46:40 */
  clock_boot = clock_now - 5000ull * 1000000000; /* the machine started a while ago */
  calls = 0;
  limit = 20000;
  seq = 0;
  waits = 0;
  max_batch = 0;
  ilimit = 0;
  fd_limit = 0;
  first_wd = 1;
  last_epoll = -1;
  sim_on_block = NULL;
  sim_on_call = NULL;
  sim_wait_hook = NULL;
  sim_fault = NULL;
  sim_split = NULL;
  nifail = 0;
  addrinfo_live = 0;
  sim_getaddrinfo_on = 0;
  sim_getaddrinfo_hook = NULL;
  memset(addrinfos, 0, sizeof addrinfos);
  sim_getaddrinfo_passive_type = 0;
  memset(opcount, 0, sizeof opcount);
}

static file *get(int fd)
{
  if (fd < SIM_FD_BASE || fd >= SIM_FD_BASE + SIM_FDS)
    return NULL;
  return &files[fd - SIM_FD_BASE];
}

static int issim(int fd) { return fd >= SIM_FD_BASE && fd < SIM_FD_BASE + SIM_FDS; }

static void enter(const char *name, int fd)
{
  if (++calls > limit)
    mc_fail("runaway: more than %llu simulated calls in one execution (last: %s)", (unsigned long long) limit, name);
  if (sim_on_call)
    sim_on_call(name, fd);
}

static int fdnew(int kind)
{
  int i;

  for (i = 0; i < SIM_FDS; i++)
    if (!files[i].kind)
    {
      memset(&files[i], 0, sizeof files[i]);
      files[i].kind = kind;
      return i + SIM_FD_BASE;
    }
  mc_error("simulated kernel: out of descriptors");
}

static int fail(int e) { errno = e; return -1; }

uint64_t sim_calls(void) { return calls; }
void sim_call_limit(uint64_t n) { limit = n; }
uint64_t sim_waits(void) { return waits; }
size_t sim_max_batch(void) { return max_batch; }
void sim_set_max_batch(size_t n) { max_batch = n; }
int sim_is_open(int fd) { file *f = get(fd); return f && f->kind; }
int sim_kind(int fd) { file *f = get(fd); return f ? f->kind : 0; }
int sim_epoll_fd(void) { return last_epoll; }
int sim_open_fds(void)
{
  int i, n = 0;

  for (i = 0; i < SIM_FDS; i++)
    n += files[i].kind != 0;
  return n;
}
static const char *kinds[] = {"free", "epoll", "eventfd", "timerfd", "inotify", "socket", "pipe-r", "pipe-w", "listen", "newsock"};
const char *sim_open_list(void)
{
  static char s[1024];
  int i, n = 0;

  s[0] = 0;
  for (i = 0; i < SIM_FDS && n < 900; i++)
    if (files[i].kind)
      n += snprintf(s + n, sizeof s - n, " %d(%s)", i + SIM_FD_BASE, kinds[files[i].kind]);
  return s;
}

/* ---- readiness ---- */

static size_t min_wspace(sim_conn *c) { return c->cap - c->cap / 3 * 2; }

static int writable(sim_conn *c)
{
  /* as sk_stream_is_writeable(): a third of the space must be free */
  return c->cap && c->cap - (c->txlen < c->cap ? c->txlen : c->cap) >= (min_wspace(c) ? min_wspace(c) : 1);
}

static uint32_t poll_file(file *f)
{
  uint32_t m = 0;
  sim_conn *c = f->conn;

  switch (f->kind)
  {
  case SIM_EVENTFD:
    if (f->count > 0)
      m |= EPOLLIN;
    if (f->count < UINT64_MAX - 1)
      m |= EPOLLOUT;
    break;
  case SIM_TIMERFD:
    if (f->ticks)
      m |= EPOLLIN;
    break;
  case SIM_INOTIFY:
    if (f->nev)
      m |= EPOLLIN | EPOLLRDNORM;
    break;
  case SIM_LISTEN:
    if (f->npend)
      m |= EPOLLIN | EPOLLRDNORM;
    break;
  case SIM_NEWSOCK:
    m |= EPOLLOUT | EPOLLHUP;
    break;
  case SIM_SOCK:
    if (c->rst || (c->fin && c->shut_wr))
      m |= EPOLLHUP;
    if (c->fin || c->rst)
      m |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP;
    if (c->rxlen)
      m |= EPOLLIN | EPOLLRDNORM;
    if (c->rst || c->shut_wr || writable(c))
      m |= EPOLLOUT | EPOLLWRNORM;
    else
      c->nospace = 1;
    if (c->err)
      m |= EPOLLERR;
    break;
  case SIM_PIPE_R:
    if (c->rxlen)
      m |= EPOLLIN | EPOLLRDNORM;
    if (c->fin)
      m |= EPOLLHUP;
    break;
  case SIM_PIPE_W:
    if (c->txlen < c->cap && !c->full)
      m |= EPOLLOUT | EPOLLWRNORM;
    else
      c->nospace = 1;
    if (c->rst)
      m |= EPOLLERR;
    break;
  default:
    break;
  }
  return m;
}

static void wake(int fd, uint32_t key)
{
  int i, k;

  for (i = 0; i < SIM_FDS; i++)
    if (files[i].kind == SIM_EPOLL)
      for (k = 0; k < files[i].nitems; k++)
      {
        item *it = &files[i].items[k];
        if (!it->used || it->fd != fd)
          continue;
        if (!(it->events & ~(uint32_t) (EPOLLET | EPOLLONESHOT | EPOLLWAKEUP | EPOLLEXCLUSIVE)))
          continue;
        if (key && !(key & it->events))
          continue;
        if (!it->ready)
        {
          it->ready = 1;
          it->ord = ++seq;
        }
      }
}

static int fd_of(file *f) { return f - files + SIM_FD_BASE; }

int sim_ready_on(int epfd)
{
  file *f = get(epfd);
  int k;

  for (k = 0; k < f->nitems; k++)
    if (f->items[k].used && f->items[k].ready && (poll_file(get(f->items[k].fd)) & f->items[k].events))
      return 1;
  return 0;
}

int sim_ready(void)
{
  int i;

  for (i = 0; i < SIM_FDS; i++)
    if (files[i].kind == SIM_EPOLL && sim_ready_on(i + SIM_FD_BASE))
      return 1;
  return 0;
}

int epoll_create1(int flags)
{
  int fd;

  enter("epoll_create1", -1);
  (void) flags;
  fd = fdnew(SIM_EPOLL);
  get(fd)->items = aalloc(NITEMS * sizeof(item));
  last_epoll = fd;
  return fd;
}

int epoll_create(int size) { (void) size; return epoll_create1(0); }

int epoll_ctl(int epfd, int op, int fd, struct epoll_event *e)
{
  file *f = get(epfd), *t = get(fd);
  item *it = NULL;
  int k;

  enter("epoll_ctl", fd);
  if (!f || !f->kind || !t || !t->kind)
  {
    if (!issim(fd) && fd >= 0 && fcntl(fd, F_GETFD) != -1)
      mc_error("real descriptor %d used with the simulated epoll", fd);
    return fail(EBADF);
  }
  if (f->kind != SIM_EPOLL)
    return fail(EINVAL);
  for (k = 0; k < f->nitems; k++)
    if (f->items[k].used && f->items[k].fd == fd)
      it = &f->items[k];
  switch (op)
  {
  case EPOLL_CTL_ADD:
    if (it)
      return fail(EEXIST);
    for (k = 0; k < f->nitems && f->items[k].used; k++);
    if (k >= NITEMS)
      mc_error("simulated kernel: too many epoll items");
    if (k == f->nitems)
      f->nitems++;
    it = &f->items[k];
    *it = (item) {.used = 1, .fd = fd};
    /* fall through */
  case EPOLL_CTL_MOD:
    if (!it)
      return fail(ENOENT);
    it->events = e->events | EPOLLERR | EPOLLHUP;
    it->data = e->data;
    if ((poll_file(t) & it->events) && !it->ready)
    {
      it->ready = 1;
      it->ord = ++seq;
    }
    return 0;
  case EPOLL_CTL_DEL:
    if (!it)
      return fail(ENOENT);
    it->used = 0;
    return 0;
  default:
    return fail(EINVAL);
  }
}

static int collect(file *f, struct epoll_event *ev, int max)
{
  int n = 0, k, order[NITEMS], cnt = 0, i, j;
  uint64_t last = seq;
  uint32_t r;
  item *it;

  for (k = 0; k < f->nitems; k++)
    if (f->items[k].used && f->items[k].ready)
      order[cnt++] = k;
  for (i = 1; i < cnt; i++)
    for (j = i; j > 0 && f->items[order[j]].ord < f->items[order[j - 1]].ord; j--)
    {
      k = order[j];
      order[j] = order[j - 1];
      order[j - 1] = k;
    }
  (void) last;
  for (i = 0; i < cnt && n < max; i++)
  {
    it = &f->items[order[i]];
    it->ready = 0;
    r = poll_file(get(it->fd)) & it->events;
    if (!r)
      continue;
    ev[n++] = (struct epoll_event) {.events = r, .data = it->data};
    if (it->events & EPOLLONESHOT)
      it->events &= EPOLLET | EPOLLONESHOT | EPOLLWAKEUP | EPOLLEXCLUSIVE;
    else if (!(it->events & EPOLLET))
    {
      it->ready = 1;
      it->ord = ++seq;
    }
  }
  return n;
}

int epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout)
{
  file *f = get(epfd);
  int n;

  enter("epoll_wait", epfd);
  if (!f || !f->kind)
    return fail(EBADF);
  if (f->kind != SIM_EPOLL || max <= 0)
    return fail(EINVAL);
  if (sim_wait_hook && sim_wait_hook(epfd) == -1)
    return fail(EINTR);
  if (max_batch && (size_t) max > max_batch)
    max = max_batch;
  for (;;)
  {
    n = collect(f, ev, max);
    if (n || timeout == 0)
    {
      waits++;
      mc_step();
      if (mc_verbose())
      {
        char s[256];
        int i, k = 0;
        s[0] = 0;
        for (i = 0; i < n && k < 200; i++)
          k += snprintf(s + k, sizeof s - k, " 0x%x", ev[i].events);
        mc_note("    epoll_wait ->%s", s);
      }
      return n;
    }
    if (!sim_on_block)
      mc_fail("the loop went to sleep although the harness expects progress (nothing can wake it)");
    if (++calls > limit)
      mc_fail("runaway: epoll_wait");
    if (sim_on_block(epfd) == -1)
      return fail(EINTR);
    f = get(epfd);
  }
}

int epoll_pwait(int epfd, struct epoll_event *ev, int max, int timeout, const sigset_t *ss) { (void) ss; return epoll_wait(epfd, ev, max, timeout); }
int epoll_pwait2(int epfd, struct epoll_event *ev, int max, const struct timespec *ts, const sigset_t *ss) { (void) ss; return epoll_wait(epfd, ev, max, ts ? ts->tv_sec || ts->tv_nsec ? 1 : 0 : -1); }

/* ---- time ---- */

uint64_t sim_now(void) { return clock_now; }
void sim_set_now(uint64_t ns)
{
  clock_boot += ns - clock_now;
  clock_now = ns;
}

uint64_t sim_next_expiry(void)
{
  uint64_t t = 0;
  int i;

  for (i = 0; i < SIM_FDS; i++)
    if (files[i].kind == SIM_TIMERFD && files[i].next && (!t || files[i].next < t))
      t = files[i].next;
  return t;
}

void sim_advance(uint64_t ns)
{
  uint64_t end = clock_now + ns, t;
  int i;

  while ((t = sim_next_expiry()) && t <= end)
  {
    if (t > clock_now)
      clock_now = t;
    for (i = 0; i < SIM_FDS; i++)
      if (files[i].kind == SIM_TIMERFD && files[i].next == t)
      {
        file *f = &files[i];
        int again = f->ticks > 0;
        f->ticks++;
        f->next = f->interval ? t + f->interval : 0;
        if (f->interval && f->next + f->interval < end && end - f->next > f->interval * 4096)
        {
          /* skip a long catch-up in one step */
          uint64_t k = (end - f->next) / f->interval;
          f->ticks += k;
          f->next += k * f->interval;
        }
        /* as timerfd: what expires before the last expiration was read is counted, not signalled again */
        if (!again)
          wake(i + SIM_FD_BASE, EPOLLIN);
      }
  }
  clock_now = end;
}

/* the clocks that are not the time of day started when the machine did; the coarse ones advance in ticks of 4 ms */
static uint64_t clock_value(clockid_t id)
{
  uint64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? clock_now : clock_now - clock_boot;

  if (id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE)
    t -= t % 4000000;
  if (id == CLOCK_TAI)
    t += 37ull * 1000000000;
  return t;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
  if (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC_RAW || id == CLOCK_TAI)
  {
    uint64_t t = clock_value(id);

    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}

time_t time(time_t *t)
{
  time_t v = clock_now / 1000000000;

  if (t)
    *t = v;
  return v;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
  (void) tz;
  tv->tv_sec = clock_now / 1000000000;
  tv->tv_usec = clock_now % 1000000000 / 1000;
  return 0;
}

int timerfd_create(int id, int flags)
{
  int fd;

  enter("timerfd_create", -1);
  fd = fdnew(SIM_TIMERFD);
  get(fd)->nonblock = !!(flags & TFD_NONBLOCK);
  get(fd)->clock = id;
  return fd;
}

int timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
  file *f = get(fd);
  uint64_t v, iv;

  enter("timerfd_settime", fd);
  if (!f || !f->kind)
    return fail(EBADF);
  if (f->kind != SIM_TIMERFD)
    return fail(EINVAL);
  if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 || n->it_interval.tv_nsec < 0 || n->it_interval.tv_nsec > 999999999 ||
      n->it_value.tv_sec < 0 || n->it_interval.tv_sec < 0)
    return fail(EINVAL);
  if (o)
    memset(o, 0, sizeof *o);
  v = (uint64_t) n->it_value.tv_sec * 1000000000 + n->it_value.tv_nsec;
  iv = (uint64_t) n->it_interval.tv_sec * 1000000000 + n->it_interval.tv_nsec;
  f->ticks = 0;
  f->interval = iv;
  f->next = !v ? 0 : flags & TFD_TIMER_ABSTIME ? v + (clock_now - clock_value(f->clock)) : clock_now + v;
  if (f->next && f->next < clock_now)
    f->next = clock_now;
  sim_advance(0);
  return 0;
}

int timerfd_gettime(int fd, struct itimerspec *o)
{
  file *f = get(fd);
  uint64_t r;

  if (!f || f->kind != SIM_TIMERFD)
    return fail(EBADF);
  r = f->next ? f->next - clock_now : 0;
  o->it_value.tv_sec = r / 1000000000;
  o->it_value.tv_nsec = r % 1000000000;
  o->it_interval.tv_sec = f->interval / 1000000000;
  o->it_interval.tv_nsec = f->interval % 1000000000;
  return 0;
}

/* ---- eventfd ---- */

int eventfd(unsigned int count, int flags)
{
  int fd;

  enter("eventfd", -1);
  fd = fdnew(SIM_EVENTFD);
  get(fd)->count = count;
  get(fd)->semaphore = !!(flags & EFD_SEMAPHORE);
  get(fd)->nonblock = !!(flags & EFD_NONBLOCK);
  return fd;
}

uint64_t sim_eventfd_count(int fd) { return get(fd)->count; }

/* ---- inotify ---- */

static char *acopy(const char *s)
{
  size_t n = strlen(s) + 1;
  return memcpy(aalloc(n), s, n);
}

int inotify_init1(int flags)
{
  int fd;

  enter("inotify_init1", -1);
  fd = fdnew(SIM_INOTIFY);
  get(fd)->nonblock = !!(flags & IN_NONBLOCK);
  get(fd)->watch = ralloc(REC_WATCH, NWATCH * sizeof(iwatch));
  get(fd)->ev = ralloc(REC_EV, NEV * sizeof(iev));
  get(fd)->next_wd = first_wd;
  return fd;
}

int inotify_init(void) { return inotify_init1(0); }

void sim_inotify_fail(const char *path, int err)
{
  snprintf(ifail[nifail].path, sizeof ifail[0].path, "%s", path);
  ifail[nifail++].err = err;
}

void sim_inotify_limit(size_t n) { ilimit = n; }

int inotify_add_watch(int fd, const char *path, uint32_t mask)
{
  file *f = get(fd);
  int i;

  enter("inotify_add_watch", fd);
  if (!f || !f->kind)
    return fail(EBADF);
  if (f->kind != SIM_INOTIFY)
    return fail(EINVAL);
  for (i = 0; i < nifail; i++)
    if (strcmp(ifail[i].path, path) == 0)
      return fail(ifail[i].err);
  for (i = 0; i < f->nwatch; i++)
    if (f->watch[i].live && strcmp(f->watch[i].path, path) == 0)
    {
      f->watch[i].mask = mask;
      return f->watch[i].wd;
    }
  if (f->nwatch >= NWATCH)
    mc_error("simulated kernel: too many watches");
  f->watch[f->nwatch].path = acopy(path);
  f->watch[f->nwatch].live = 1;
  f->watch[f->nwatch].mask = mask;
  return f->watch[f->nwatch++].wd = f->next_wd++;
}

void sim_inotify_first_wd(int wd) { first_wd = wd; }

int sim_inotify_wd(int fd, const char *path)
{
  file *f = get(fd);
  int i;

  if (!f || f->kind != SIM_INOTIFY)
    return -1;
  for (i = 0; i < f->nwatch; i++)
    if (f->watch[i].live && strcmp(f->watch[i].path, path) == 0)
      return f->watch[i].wd;
  return -1;
}

uint32_t sim_inotify_mask(int fd, int wd)
{
  file *f = get(fd);
  int i;

  for (i = 0; f && f->kind == SIM_INOTIFY && i < f->nwatch; i++)
    if (f->watch[i].live && f->watch[i].wd == wd)
      return f->watch[i].mask;
  return 0;
}

int sim_inotify_emit(int fd, int wd, uint32_t mask, const char *name)
{
  file *f = get(fd);
  int i;

  if (!f || f->kind != SIM_INOTIFY)
    return -1;
  if (ilimit && f->nev >= ilimit)
  {
    if (f->overflowed)
      return 0;
    f->overflowed = 1;
    wd = -1;
    mask = IN_Q_OVERFLOW;
    name = NULL;
  }
  if (f->nev >= NEV)
    mc_error("simulated kernel: inotify queue");
  for (i = 0; i < f->nwatch; i++)
    if (f->watch[i].wd == wd && f->watch[i].live && !((f->watch[i].mask | IN_IGNORED | IN_UNMOUNT) & mask))
      return 0;
  f->ev[f->nev] = (iev) {.wd = wd, .mask = mask, .name = name && *name ? acopy(name) : ""};
  f->nev++;
  wake(fd, 0);
  return 0;
}

int inotify_rm_watch(int fd, int wd)
{
  file *f = get(fd);
  int i;

  enter("inotify_rm_watch", fd);
  if (!f || !f->kind)
    return fail(EBADF);
  for (i = 0; i < f->nwatch; i++)
    if (f->watch[i].live && f->watch[i].wd == wd)
    {
      f->watch[i].live = 0;
      sim_inotify_emit(fd, wd, IN_IGNORED, NULL);
      return 0;
    }
  return fail(EINVAL);
}

static ssize_t inotify_read(file *f, uint8_t *p, size_t n)
{
  size_t used = 0, len, k = 0;
  struct inotify_event e;

  if (!f->nev)
    return fail(EAGAIN);
  while (k < f->nev)
  {
    len = strlen(f->ev[k].name);
    len = len ? (len + 1 + 15) & ~15ul : 0;
    if (used + sizeof e + len > n)
      break;
    e = (struct inotify_event) {.wd = f->ev[k].wd, .mask = f->ev[k].mask, .len = len};
    memcpy(p + used, &e, sizeof e);
    if (len)
    {
      memset(p + used + sizeof e, 0, len);
      memcpy(p + used + sizeof e, f->ev[k].name, strlen(f->ev[k].name));
    }
    used += sizeof e + len;
    if (f->ev[k].wd == -1)
      f->overflowed = 0;
    k++;
  }
  if (!k)
    return fail(EINVAL);
  memmove(f->ev, f->ev + k, (f->nev - k) * sizeof *f->ev);
  f->nev -= k;
  return used;
}

/* ---- stream sockets and pipes ---- */

sim_conn *sim_conn_new(int kind, size_t space)
{
  sim_conn *c = aalloc(sizeof *c);

  c->kind = kind;
  c->cap = space;
  c->fd = fdnew(kind);
  get(c->fd)->conn = c;
  get(c->fd)->nonblock = 1;
  return c;
}

void sim_peer_send(sim_conn *c, const void *p, size_t n)
{
  if (c->fin || c->rst)
    mc_error("peer sends after it finished");
  if (c->closed)
    return;
  if (c->rxoff && !c->rxlen)
    c->rxoff = 0;
  agrow(&c->rx, &c->rxcap, c->rxoff + c->rxlen, c->rxoff + c->rxlen + n);
  memcpy(c->rx + c->rxoff + c->rxlen, p, n);
  c->rxlen += n;
  if (c->fd >= 0)
    wake(c->fd, EPOLLIN | EPOLLPRI | EPOLLRDNORM | EPOLLRDBAND);
}

void sim_peer_fin(sim_conn *c)
{
  if (c->fin || c->rst)
    return;
  c->fin = 1;
  if (c->fd >= 0)
    wake(c->fd, c->kind == SIM_SOCK ? 0 : EPOLLIN | EPOLLOUT | EPOLLRDNORM | EPOLLWRNORM | EPOLLERR | EPOLLHUP);
}

void sim_peer_rst(sim_conn *c)
{
  if (c->rst)
    return;
  c->rst = 1;
  if (c->kind == SIM_SOCK)
    c->err = c->fin ? EPIPE : ECONNRESET;
  else
    c->full = c->txlen >= c->cap; /* a pipe keeps what nobody can read any more */
  c->txlen = 0;
  if (c->fd >= 0)
  {
    wake(c->fd, EPOLLERR);
    wake(c->fd, 0);
  }
}

static void write_space(sim_conn *c)
{
  if (c->fd < 0 || c->rst)
    return;
  if (c->nospace && (c->kind == SIM_SOCK ? writable(c) : c->txlen < c->cap))
  {
    c->nospace = 0;
    wake(c->fd, EPOLLOUT | EPOLLWRNORM | EPOLLWRBAND);
  }
}

size_t sim_peer_take(sim_conn *c, size_t max)
{
  size_t n = c->txlen < max ? c->txlen : max;

  if (!n)
    return 0;
  if (c->kind == SIM_PIPE_W && c->txlen >= c->cap)
    c->nospace = 1; /* taking from a full pipe signals the writer */
  agrow(&c->got, &c->gotcap, c->gotlen, c->gotlen + n);
  memcpy(c->got + c->gotlen, c->tx, n);
  c->gotlen += n;
  memmove(c->tx, c->tx + n, c->txlen - n);
  c->txlen -= n;
  write_space(c);
  return n;
}

void sim_set_cap(sim_conn *c, size_t cap)
{
  c->cap = cap;
  write_space(c);
}

size_t sim_in_flight(sim_conn *c) { return c->txlen; }

static ssize_t conn_read(file *f, uint8_t *p, size_t n, int peek)
{
  sim_conn *c = f->conn;

  c->reads++;
  if (c->kind == SIM_PIPE_W)
    return fail(EBADF);
  if (!n)
    return 0;
  if (c->rxlen)
  {
    if (n > c->rxlen)
      n = c->rxlen;
    memcpy(p, c->rx + c->rxoff, n);
    if (!peek)
    {
      c->rxoff += n;
      c->rxlen -= n;
      c->delivered += n;
    }
    return n;
  }
  if (c->err && !c->fin) /* after the end of the input a read reports the end */
  {
    errno = c->err;
    c->err = 0;
    c->read_errors++;
    return -1;
  }
  if (c->fin || c->rst)
    return 0;
  if (!f->nonblock)
    mc_fail("blocking read on descriptor %d with nothing to read: the loop would hang", fd_of(f));
  return fail(EAGAIN);
}

static void sigpipe(int flags)
{
  struct sigaction sa;

  if (flags & MSG_NOSIGNAL)
    return;
  sigaction(SIGPIPE, NULL, &sa);
  if (sa.sa_handler == SIG_DFL)
    mc_fail("write to a connection the peer has gone from raises SIGPIPE, which terminates the process");
}

static ssize_t conn_write(file *f, const uint8_t *p, size_t n, int flags)
{
  sim_conn *c = f->conn;
  size_t room;

  c->writes++;
  if (c->kind == SIM_PIPE_R)
    return fail(EBADF);
  if (c->err)
  {
    int e = c->err;
    c->err = 0;
    c->write_errors++;
    if (e == EPIPE)
      sigpipe(flags);
    return fail(e);
  }
  if (c->rst || c->shut_wr)
  {
    c->write_errors++;
    sigpipe(flags);
    return fail(EPIPE);
  }
  if (!n)
    return 0;
  room = c->cap > c->txlen ? c->cap - c->txlen : 0;
  if (n > room)
  {
    c->nospace = 1;
    if (!room)
    {
      if (!f->nonblock)
        mc_fail("blocking write on descriptor %d without space: the loop would hang", fd_of(f));
      return fail(EAGAIN);
    }
    n = room;
  }
  agrow(&c->tx, &c->txbuf, c->txlen, c->txlen + n);
  memcpy(c->tx + c->txlen, p, n);
  c->txlen += n;
  c->sent += n;
  return n;
}

/* ---- listening sockets ---- */

int sim_listen_new(void)
{
  int fd = fdnew(SIM_LISTEN);

  get(fd)->nonblock = 1;
  return fd;
}

void sim_set_fd_limit(size_t n) { fd_limit = n; }

static void pending(file *f)
{
  if (!f->pend)
    f->pend = ralloc(REC_PEND, PENDING * sizeof *f->pend);
  if (f->npend >= PENDING)
    mc_error("simulated kernel: backlog");
}

sim_conn *sim_listen_connect(int fd, size_t space)
{
  file *f = get(fd);
  sim_conn *c = aalloc(sizeof *c);

  c->kind = SIM_SOCK;
  c->cap = space;
  c->fd = -2;
  if (!f || f->kind != SIM_LISTEN)
    return NULL;
  pending(f);
  f->pend[f->npend].err = 0;
  f->pend[f->npend++].conn = c;
  wake(fd, EPOLLIN | EPOLLPRI | EPOLLRDNORM | EPOLLRDBAND);
  return c;
}

void sim_listen_error(int fd, int err)
{
  file *f = get(fd);

  if (!f || f->kind != SIM_LISTEN)
    return;
  pending(f);
  f->pend[f->npend].err = err;
  f->pend[f->npend++].conn = NULL;
  wake(fd, EPOLLIN | EPOLLPRI | EPOLLRDNORM | EPOLLRDBAND);
}

size_t sim_listen_pending(int fd)
{
  file *f = get(fd);
  return f && f->kind == SIM_LISTEN ? f->npend : 0;
}

int accept4(int fd, struct sockaddr *a, socklen_t *al, int flags)
{
  file *f = get(fd);
  sim_conn *c;
  int nfd, e;

  if (!issim(fd))
    return syscall(SYS_accept4, fd, a, al, flags);
  enter("accept4", fd);
  if (!f->kind)
    return fail(EBADF);
  if (f->kind != SIM_LISTEN)
    return fail(EINVAL);
  if (!f->npend)
  {
    if (!f->nonblock)
      mc_fail("blocking accept with nothing to accept: the loop would hang");
    return fail(EAGAIN);
  }
  if (fd_limit && (size_t) sim_open_fds() >= fd_limit)
    return fail(EMFILE); /* the connection stays in the queue */
  c = f->pend[0].conn;
  e = f->pend[0].err;
  f->npend--;
  memmove(f->pend, f->pend + 1, f->npend * sizeof f->pend[0]);
  if (e)
    return fail(e);
  nfd = fdnew(SIM_SOCK);
  c->fd = nfd;
  get(nfd)->conn = c;
  get(nfd)->nonblock = !!(flags & SOCK_NONBLOCK);
  if (a && al)
  {
    memset(a, 0, *al);
    a->sa_family = AF_INET;
  }
  return nfd;
}

int accept(int fd, struct sockaddr *a, socklen_t *al) { return accept4(fd, a, al, 0); }

/* ---- descriptor calls ---- */

static ssize_t do_read(int fd, void *p, size_t n, int flags)
{
  file *f = get(fd);
  uint64_t v;

  enter("read", fd);
  switch (f->kind)
  {
  case SIM_FREE:
    return fail(EBADF);
  case SIM_EVENTFD:
    if (n < 8)
      return fail(EINVAL);
    if (!f->count)
    {
      if (!f->nonblock)
        mc_fail("blocking read of an event descriptor with no signal: the loop would hang");
      return fail(EAGAIN);
    }
    v = f->semaphore ? 1 : f->count;
    f->count -= v;
    memcpy(p, &v, 8);
    wake(fd, EPOLLOUT);
    return 8;
  case SIM_TIMERFD:
    if (n < 8)
      return fail(EINVAL);
    if (!f->ticks)
    {
      if (!f->nonblock)
        mc_fail("blocking read of a timer that has not expired: the loop would hang");
      return fail(EAGAIN);
    }
    v = f->ticks;
    f->ticks = 0;
    memcpy(p, &v, 8);
    return 8;
  case SIM_INOTIFY:
    return inotify_read(f, p, n);
  case SIM_SOCK:
  case SIM_PIPE_R:
  case SIM_PIPE_W:
    return conn_read(f, p, n, !!(flags & MSG_PEEK));
  default:
    return fail(EINVAL);
  }
}

static ssize_t do_write(int fd, const void *p, size_t n, int flags)
{
  file *f = get(fd);
  uint64_t v;

  enter("write", fd);
  switch (f->kind)
  {
  case SIM_FREE:
    return fail(EBADF);
  case SIM_EVENTFD:
    if (n < 8)
      return fail(EINVAL);
    memcpy(&v, p, 8);
    if (v == UINT64_MAX)
      return fail(EINVAL);
    if (f->count + v < f->count || f->count + v == UINT64_MAX)
      return fail(EAGAIN);
    f->count += v;
    wake(fd, EPOLLIN);
    return 8;
  case SIM_SOCK:
  case SIM_PIPE_R:
  case SIM_PIPE_W:
    return conn_write(f, p, n, flags);
  default:
    return fail(EINVAL);
  }
}

static size_t split(int fd, int wr, size_t n) { return sim_split && n > 1 ? sim_split(fd, wr, n) : n; }
ssize_t read(int fd, void *p, size_t n) { n = split(fd, 0, n); return issim(fd) ? do_read(fd, p, n, 0) : syscall(SYS_read, fd, p, n); }
ssize_t write(int fd, const void *p, size_t n) { n = split(fd, 1, n); return issim(fd) ? do_write(fd, p, n, 0) : syscall(SYS_write, fd, p, n); }
ssize_t __read_chk(int fd, void *p, size_t n, size_t l) { (void) l; return read(fd, p, n); }
ssize_t recv(int fd, void *p, size_t n, int fl) { return issim(fd) ? do_read(fd, p, n, fl) : syscall(SYS_recvfrom, fd, p, n, fl, NULL, NULL); }
ssize_t send(int fd, const void *p, size_t n, int fl) { return issim(fd) ? do_write(fd, p, n, fl) : syscall(SYS_sendto, fd, p, n, fl, NULL, 0); }
ssize_t recvfrom(int fd, void *restrict p, size_t n, int fl, struct sockaddr *restrict a, socklen_t *restrict l) { return issim(fd) ? do_read(fd, p, n, fl) : syscall(SYS_recvfrom, fd, p, n, fl, a, l); }
ssize_t sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *a, socklen_t l) { return issim(fd) ? do_write(fd, p, n, fl) : syscall(SYS_sendto, fd, p, n, fl, a, l); }

static ssize_t iov_rw(int fd, const struct iovec *v, int c, int fl, int wr)
{
  ssize_t n, t = 0;
  int i;

  for (i = 0; i < c; i++)
  {
    if (!v[i].iov_len)
      continue;
    n = wr ? do_write(fd, v[i].iov_base, v[i].iov_len, fl) : do_read(fd, v[i].iov_base, v[i].iov_len, fl);
    if (n < 0)
      return t ? t : n;
    t += n;
    if ((size_t) n < v[i].iov_len)
      break;
  }
  return t;
}
ssize_t readv(int fd, const struct iovec *v, int c) { return issim(fd) ? iov_rw(fd, v, c, 0, 0) : syscall(SYS_readv, fd, v, c); }
ssize_t writev(int fd, const struct iovec *v, int c) { return issim(fd) ? iov_rw(fd, v, c, 0, 1) : syscall(SYS_writev, fd, v, c); }
ssize_t recvmsg(int fd, struct msghdr *m, int fl) { return issim(fd) ? iov_rw(fd, m->msg_iov, m->msg_iovlen, fl, 0) : syscall(SYS_recvmsg, fd, m, fl); }
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { return issim(fd) ? iov_rw(fd, m->msg_iov, m->msg_iovlen, fl, 1) : syscall(SYS_sendmsg, fd, m, fl); }
int eventfd_read(int fd, eventfd_t *v) { return read(fd, v, 8) == 8 ? 0 : -1; }
int eventfd_write(int fd, eventfd_t v) { return write(fd, &v, 8) == 8 ? 0 : -1; }

int close(int fd)
{
  file *f = get(fd);
  int i, k;

  if (!issim(fd))
    return syscall(SYS_close, fd);
  enter("close", fd);
  if (!f->kind)
    mc_fail("close of descriptor %d, which is not open (closed twice, or never opened)", fd);
  mc_note("    close(%d %s)", fd, kinds[f->kind]);
  for (i = 0; i < SIM_FDS; i++)
    if (files[i].kind == SIM_EPOLL)
      for (k = 0; k < files[i].nitems; k++)
        if (files[i].items[k].used && files[i].items[k].fd == fd)
          files[i].items[k].used = 0;
  if (f->conn)
  {
    f->conn->closed = 1;
    f->conn->shut_wr = 1;
    f->conn->unread_close = f->conn->rxlen > 0;
    f->conn->fd = -1;
  }
  if (f->kind == SIM_LISTEN)
    for (i = 0; i < f->npend; i++)
      if (f->pend[i].conn)
        f->pend[i].conn->closed = f->pend[i].conn->shut_wr = 1, f->pend[i].conn->fd = -1;
  recycle(REC_WATCH, f->watch);
  recycle(REC_EV, f->ev);
  recycle(REC_PEND, f->pend);
  memset(f, 0, sizeof *f);
  return 0;
}

int shutdown(int fd, int how)
{
  file *f = get(fd);

  if (!issim(fd))
    return syscall(SYS_shutdown, fd, how);
  enter("shutdown", fd);
  if (!f->kind)
    return fail(EBADF);
  if (f->kind != SIM_SOCK)
    return fail(ENOTCONN);
  if (f->conn->rst)
  {
    wake(fd, 0);
    return fail(ENOTCONN);
  }
  if (how == SHUT_WR || how == SHUT_RDWR)
    f->conn->shut_wr = 1;
  wake(fd, 0);
  return 0;
}

static int do_fstat(int fd, struct stat *st)
{
  file *f = get(fd);

  enter("fstat", fd);
  if (!f->kind)
    return fail(EBADF);
  memset(st, 0, sizeof *st);
  st->st_mode = f->kind == SIM_SOCK || f->kind == SIM_LISTEN || f->kind == SIM_NEWSOCK ? S_IFSOCK | 0777 :
    f->kind == SIM_PIPE_R || f->kind == SIM_PIPE_W ? S_IFIFO | 0600 : 0600;
  return 0;
}
int fstat(int fd, struct stat *st) { return issim(fd) ? do_fstat(fd, st) : syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64 *st) { return issim(fd) ? do_fstat(fd, (struct stat *) st) : syscall(SYS_fstat, fd, st); }

static int do_fcntl(int fd, int cmd, long arg)
{
  file *f = get(fd);

  if (!issim(fd))
    return syscall(SYS_fcntl, fd, cmd, arg);
  enter("fcntl", fd);
  if (!f->kind)
    return fail(EBADF);
  switch (cmd)
  {
  case F_GETFL:
    return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
  case F_SETFL:
    f->nonblock = !!(arg & O_NONBLOCK);
    return 0;
  case F_GETFD:
  case F_SETFD:
    return 0;
  default:
    return fail(EINVAL);
  }
}
int fcntl(int fd, int cmd, ...)
{
  va_list ap;
  long arg;

  va_start(ap, cmd);
  arg = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
  va_list ap;
  long arg;

  va_start(ap, cmd);
  arg = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(fd, cmd, arg);
}

int ioctl(int fd, unsigned long req, ...)
{
  va_list ap;
  void *arg;
  file *f = get(fd);

  va_start(ap, req);
  arg = va_arg(ap, void *);
  va_end(ap);
  if (!issim(fd))
    return syscall(SYS_ioctl, fd, req, arg);
  if (!f->kind)
    return fail(EBADF);
  if (req == FIONBIO)
  {
    f->nonblock = !!*(int *) arg;
    return 0;
  }
  if (req == FIONREAD && f->conn)
  {
    *(int *) arg = f->conn->rxlen;
    return 0;
  }
  return fail(ENOTTY);
}

/* ---- socket set-up ---- */

static int fault(int op) { opcount[op]++; return sim_fault ? sim_fault(op) : 0; }
int sim_calls_of(int op) { return opcount[op]; }
const sim_sockinfo *sim_sock_info(int fd) { file *f = get(fd); return f && f->kind ? &f->info : NULL; }

int socket(int domain, int type, int protocol)
{
  int fd, e;

  enter("socket", -1);
  e = fault(SIM_OP_SOCKET);
  if (e)
    return fail(e);
  fd = fdnew(SIM_NEWSOCK);
  get(fd)->nonblock = !!(type & SOCK_NONBLOCK);
  get(fd)->info = (sim_sockinfo) {.family = domain, .type = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC), .protocol = protocol, .nonblock = !!(type & SOCK_NONBLOCK)};
  return fd;
}

int setsockopt(int fd, int level, int name, const void *p, socklen_t n)
{
  file *f = get(fd);
  int e;

  if (!issim(fd))
    return fd < 0 ? fail(EBADF) : syscall(SYS_setsockopt, fd, level, name, p, n);
  enter("setsockopt", fd);
  if (!f->kind)
    return fail(EBADF);
  e = fault(SIM_OP_SETSOCKOPT);
  if (e)
    return fail(e);
  if (level == SOL_SOCKET && name == SO_REUSEADDR)
    f->info.reuseaddr = *(const int *) p;
  if (level == SOL_SOCKET && name == SO_REUSEPORT)
    f->info.reuseport = *(const int *) p;
  return 0;
}

int getsockopt(int fd, int level, int name, void *restrict p, socklen_t *restrict n)
{
  file *f = get(fd);

  if (!issim(fd))
    return syscall(SYS_getsockopt, fd, level, name, p, n);
  if (!f->kind)
    return fail(EBADF);
  if (level == SOL_SOCKET && name == SO_ERROR)
  {
    *(int *) p = f->conn ? f->conn->err : 0;
    if (f->conn)
      f->conn->err = 0;
    return 0;
  }
  if (level == SOL_SOCKET && name == SO_TYPE)
  {
    *(int *) p = SOCK_STREAM;
    return 0;
  }
  return fail(ENOPROTOOPT);
}

int bind(int fd, const struct sockaddr *a, socklen_t n)
{
  file *f = get(fd);
  int e;

  if (!issim(fd))
    return fd < 0 ? fail(EBADF) : syscall(SYS_bind, fd, a, n);
  enter("bind", fd);
  if (!f->kind)
    return fail(EBADF);
  e = fault(SIM_OP_BIND);
  if (e)
    return fail(e);
  f->info.bound = 1;
  f->info.addrlen = n;
  memcpy(f->info.addr, a, n < 128 ? n : 128);
  return 0;
}

int listen(int fd, int backlog)
{
  file *f = get(fd);
  int e;

  if (!issim(fd))
    return fd < 0 ? fail(EBADF) : syscall(SYS_listen, fd, backlog);
  enter("listen", fd);
  if (!f->kind)
    return fail(EBADF);
  e = fault(SIM_OP_LISTEN);
  if (e)
    return fail(e);
  f->info.listening = 1;
  f->info.backlog = backlog;
  return 0;
}

int connect(int fd, const struct sockaddr *a, socklen_t n)
{
  file *f = get(fd);
  int e;

  if (!issim(fd))
    return fd < 0 ? fail(EBADF) : syscall(SYS_connect, fd, a, n);
  enter("connect", fd);
  if (!f->kind)
    return fail(EBADF);
  f->info.addrlen = n;
  memcpy(f->info.addr, a, n < 128 ? n : 128);
  e = fault(SIM_OP_CONNECT);
  f->info.connected = 1;
  if (e)
    return fail(e);
  return 0;
}

typedef struct { struct addrinfo ai; struct sockaddr_in sin; char canon[16]; } aiblock;

int getaddrinfo(const char *restrict host, const char *restrict serv, const struct addrinfo *restrict hints, struct addrinfo **restrict out)
{
  aiblock *b;
  int e;

  int i;
  (void) host;
  enter("getaddrinfo", -1);
  if (sim_getaddrinfo_hook)
    sim_getaddrinfo_hook(host, serv, hints, 0);
  e = fault(SIM_OP_GETADDRINFO);
  if (sim_getaddrinfo_hook)
    sim_getaddrinfo_hook(host, serv, hints, 1);
  if (e)
    return e;
  b = malloc(sizeof *b);
  memset(b, 0, sizeof *b);
  b->ai.ai_family = AF_INET;
  b->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
  b->ai.ai_protocol = IPPROTO_TCP;
  b->ai.ai_flags = hints ? hints->ai_flags : 0;
  b->ai.ai_addrlen = sizeof b->sin;
  b->ai.ai_addr = (struct sockaddr *) &b->sin;
  b->sin.sin_family = AF_INET;
  b->sin.sin_port = htons(serv ? atoi(serv) : 0);
  b->sin.sin_addr.s_addr = htonl(host && *host ? 0x7f000000u + (unsigned char) *host : 0);
  addrinfo_live++;
  for (i = 0; i < 64 && addrinfos[i]; i++);
  if (i < 64)
    addrinfos[i] = b;
  *out = &b->ai;
  return 0;
}

void freeaddrinfo(struct addrinfo *ai)
{
  int i;
  if (!ai)
    return; /* glibc tolerates NULL */
  enter("freeaddrinfo", -1);
  for (i = 0; i < 64 && addrinfos[i] != ai; i++);
  if (i == 64)
    mc_fail("freeaddrinfo of an address list that does not exist (any more)");
  addrinfos[i] = NULL;
  addrinfo_live--;
  free((aiblock *) ai);
}

int sim_addrinfo_live(void) { return addrinfo_live; }

/* ---- state hash ---- */

uint64_t sim_hash(void)
{
  uint64_t h = 0x51;
  int i, k;

  for (i = 0; i < SIM_FDS; i++)
  {
    file *f = &files[i];
    if (!f->kind)
      continue;
    h = mc_mix(h, i * 16 + f->kind);
    switch (f->kind)
    {
    case SIM_EPOLL:
      for (k = 0; k < f->nitems; k++)
        if (f->items[k].used)
        {
          int rank = 0, m;
          for (m = 0; m < f->nitems; m++)
            rank += f->items[m].used && f->items[m].ready && f->items[m].ord < f->items[k].ord;
          h = mc_mix(h, ((uint64_t) f->items[k].events << 20) ^ f->items[k].fd ^ (f->items[k].ready ? 0x10000 + rank * 0x1000ull : 0));
        }
      break;
    case SIM_EVENTFD:
      h = mc_mix(h, f->count);
      break;
    case SIM_TIMERFD:
      h = mc_mix(h, f->ticks);
      h = mc_mix(h, f->next ? f->next - clock_now : 0);
      h = mc_mix(h, f->interval);
      break;
    case SIM_INOTIFY:
      for (k = 0; k < (int) f->nev; k++)
        h = mc_mix(h, f->ev[k].wd * 31ull + f->ev[k].mask);
      for (k = 0; k < f->nwatch; k++)
        h = mc_mixs(h, f->watch[k].path, strlen(f->watch[k].path));
      break;
    case SIM_LISTEN:
      h = mc_mix(h, f->npend);
      break;
    case SIM_SOCK:
    case SIM_PIPE_R:
    case SIM_PIPE_W:
      h = mc_mix(h, f->conn->rxlen);
      h = mc_mix(h, f->conn->txlen);
      h = mc_mix(h, f->conn->gotlen);
      h = mc_mix(h, f->conn->delivered);
      h = mc_mix(h, f->conn->fin | f->conn->rst << 1 | (f->conn->err != 0) << 2 | f->conn->nospace << 3 | f->conn->shut_wr << 4);
      break;
    }
  }
  return h;
}
