/* C30: events.  C31: timers.  C32: filesystem notifications. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/inotify.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"

static long mem0;
static void begin(void)
{
  sim_reset();
  mem0 = mc_mem_live();
  reactor_construct();
}
static void end(void)
{
  reactor_destruct();
  MC_CHECK(sim_open_fds() == 0, "descriptors left open at the end:%s", sim_open_list());
  MC_CHECK(mc_mem_live() == mem0, "heap blocks left at the end: %ld", mc_mem_live() - mem0);
}
static void quiesce(void)
{
  int i;
  for (i = 0; i < 400 && sim_ready(); i++)
    reactor_loop_once();
  MC_CHECK(!sim_ready(), "the loop does not come to rest");
}

/* ------------------------------------------------------------------ C30 */
#define NE 3
static event *ev[NE];
static uint64_t given[NE], seen[NE];
static int eopen[NE], ne, eact, ein;

static void ev_cb(reactor_event *e);
static void ev_new(int i)
{
  ev[i] = malloc(sizeof *ev[i]);
  event_construct(ev[i], ev_cb, &ev[i]);
  eopen[i] = 0;
}
static void ev_open(int i)
{
  event_open(ev[i]);
  eopen[i] = 1;
  given[i] = seen[i] = 0;
  MC_CHECK(event_is_open(ev[i]), "not open after opening");
}

/* actions on one event: signal, close, reopen, destroy (and make anew), close twice */
#define EV_ACTIONS 5
static void ev_act(int i, int a)
{
  mc_note("%s event %d: %s", ein ? "      in the callback:" : "  ", i, ((char *[]) {"signal", "close", "close and open", "destroy, open a new one", "close twice"})[a]);
  mc_step();
  switch (a)
  {
  case 0:
    if (!eopen[i])
      mc_prune();
    given[i]++;
    event_signal(ev[i]);
    break;
  case 1:
  case 4:
    if (!eopen[i])
      mc_prune();
    event_close(ev[i]);
    if (a == 4)
      event_close(ev[i]);
    eopen[i] = 0;
    MC_CHECK(!event_is_open(ev[i]), "open after closing");
    break;
  case 2:
    if (eopen[i])
      event_close(ev[i]);
    ev_open(i);
    break;
  case 3:
    event_destruct(ev[i]);
    free(ev[i]);
    ev_new(i);
    ev_open(i);
    break;
  }
}

static void ev_cb(reactor_event *e)
{
  int i = (event **) e->state - ev;

  MC_CHECK(e->type == EVENT_SIGNAL, "event type %d", e->type);
  MC_CHECK(i >= 0 && i < ne && eopen[i], "callback of a closed event");
  MC_CHECK(e->data > 0, "callback for no signal");
  mc_note("    event %d: %llu", i, (unsigned long long) e->data);
  seen[i] += e->data;
  MC_CHECK(seen[i] <= given[i], "event %d: %llu signals reported, %llu given", i, (unsigned long long) seen[i], (unsigned long long) given[i]);
  if (eact)
  {
    int k = mc_choose(ne * EV_ACTIONS + 1, "reaction");
    if (k)
    {
      eact--;
      ein++;
      ev_act((k - 1) / EV_ACTIONS, (k - 1) % EV_ACTIONS);
      ein--;
    }
  }
}

/* another thread signals between the loop's system calls */
static int ev_injecting;
static void ev_call(const char *name, int fd)
{
  int k;
  (void) fd;
  if (ev_injecting || (strcmp(name, "read") && strcmp(name, "epoll_wait")))
    return;
  k = mc_dev(ne + 1, "signalled from elsewhere");
  if (!k || !eopen[k - 1])
    return;
  ev_injecting = 1;
  mc_note("      before %s: event %d is signalled", name, k - 1);
  given[k - 1]++;
  event_signal(ev[k - 1]);
  ev_injecting = 0;
}

static void c30(int n, int reacts)
{
  int i, k;

  begin();
  ne = n;
  ein = 0;
  eact = reacts;
  ev_injecting = 0;
  for (i = 0; i < ne; i++)
  {
    ev_new(i);
    ev_open(i);
  }
  sim_on_call = ev_call;
  for (i = 0; i < mc_param(); i++)
  {
    mc_state(mc_mix(mc_mix(sim_hash(), mc_mix(given[0] * 16 + seen[0], given[1] * 16 + seen[1])), i * 8 + eact));
    k = mc_choose(ne * EV_ACTIONS + 2, "action (0: stop, 1: turn)");
    if (k == 0)
      break;
    if (k == 1)
    {
      if (!sim_ready())
        mc_prune();
      mc_note("  turn");
      reactor_loop_once();
    }
    else
      ev_act((k - 2) / EV_ACTIONS, (k - 2) % EV_ACTIONS);
  }
  quiesce();
  sim_on_call = NULL;
  for (i = 0; i < ne; i++)
    if (eopen[i])
      MC_CHECK(seen[i] == given[i], "event %d: %llu signals given, %llu reported and no more pending", i, (unsigned long long) given[i], (unsigned long long) seen[i]);
  for (i = 0; i < ne; i++)
  {
    event_destruct(ev[i]);
    event_destruct(ev[i]);
    free(ev[i]);
  }
  end();
}
static void c30_one(void) { c30(1, 2); }
static void c30_two(void) { c30(2, 2); }
static void c30_three(void) { c30(3, 1); }
static void c30_burst(void)
{
  static const int more[] = {127, 128, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 100000};
  int n = mc_choose(mc_param() + 1 + 12, "signals"), i, k = 0;

  if (n > mc_param())
    n = more[n - mc_param() - 1];
  begin();
  sim_call_limit(sim_calls() + 10 * (n + 1000));
  ne = 1;
  ein = eact = 0;
  ev_new(0);
  ev_open(0);
  for (i = 0; i < n; i++)
    ev_act(0, 0);
  /* exactly that many are reported, also when more come in between */
  while (sim_ready() && k++ < 3 * n + 3)
  {
    reactor_loop_once();
    if (k == 2 || k == n)
      ev_act(0, 0);
  }
  quiesce();
  MC_CHECK(seen[0] == given[0], "%llu signals given, %llu reported", (unsigned long long) given[0], (unsigned long long) seen[0]);
  mc_state(n);
  event_destruct(ev[0]);
  free(ev[0]);
  end();
}

/* ------------------------------------------------------------------ C31 */
#define NT 3
static timer *tm_[NT];
static int tset[NT], nt, tact, tin, tlarge;
static uint64_t tat[NT], t0_[NT], ti_[NT], rep[NT];
static const uint64_t t0s[] = {0, 1, 5, 10}, tis[] = {0, 3, 10};

static uint64_t due(int i)
{
  uint64_t first = tat[i] + (t0_[i] ? t0_[i] : 1);

  if (!tset[i])
    return 0;
  /* a zero delay fires promptly: at most a nanosecond is asked for */
  if (sim_now() < first)
    return 0;
  return ti_[i] ? (sim_now() - first) / ti_[i] + 1 : 1;
}

static void tm_cb(reactor_event *e);
static void tm_set(int i, uint64_t t0, uint64_t ti)
{
  mc_note("%s timer %d: set %llu, %llu", tin ? "      in the callback:" : "  ", i, (unsigned long long) t0, (unsigned long long) ti);
  timer_set(tm_[i], t0, ti);
  tset[i] = 1;
  tat[i] = sim_now();
  t0_[i] = t0;
  ti_[i] = ti;
  rep[i] = 0;
}
static void tm_new(int i)
{
  tm_[i] = malloc(sizeof *tm_[i]);
  timer_construct(tm_[i], tm_cb, &tm_[i]);
  tset[i] = 0;
}
/* set one of several ways, clear, destroy */
#define TM_ACTIONS 6
static void tm_act(int i, int a)
{
  mc_step();
  switch (a)
  {
  case 0: tm_set(i, 5, 10); break;
  case 1: tm_set(i, 0, 0); break;
  case 2: tm_set(i, 10, 0); break;
  case 3: tm_set(i, 1, 3); break;
  case 4:
    mc_note("   timer %d: clear", i);
    if (!tset[i])
      mc_prune();
    timer_clear(tm_[i]);
    tset[i] = 0;
    break;
  case 5:
    mc_note("   timer %d: destroy", i);
    timer_destruct(tm_[i]);
    free(tm_[i]);
    tm_new(i);
    break;
  }
}
static void tm_cb(reactor_event *e)
{
  int i = (timer **) e->state - tm_;

  MC_CHECK(e->type == TIMER_EXPIRATION, "event type %d", e->type);
  MC_CHECK(i >= 0 && i < nt && tset[i], "expiration of a timer that is not set");
  MC_CHECK(e->data > 0, "no expirations reported");
  mc_note("    timer %d: %llu expirations", i, (unsigned long long) e->data);
  rep[i] += e->data;
  MC_CHECK(rep[i] <= due(i), "timer %d (delay %llu, interval %llu): %llu expirations reported %llu ns after it was set, %llu have passed", i, (unsigned long long) t0_[i],
           (unsigned long long) ti_[i], (unsigned long long) rep[i], (unsigned long long) (sim_now() - tat[i]), (unsigned long long) due(i));
  if (tact)
  {
    int k = mc_choose(nt * TM_ACTIONS + 2, "reaction");
    if (k == 1)
    {
      tact--;
      sim_advance(20); /* the callback takes a while */
    }
    else if (k)
    {
      tact--;
      tin++;
      tm_act((k - 2) / TM_ACTIONS, (k - 2) % TM_ACTIONS);
      tin--;
    }
  }
}
static void tm_call(const char *name, int fd)
{
  static const uint64_t d[] = {0, 1, 10};
  int k;
  (void) fd;
  if (strcmp(name, "read") && strcmp(name, "epoll_wait"))
    return;
  k = mc_dev(3, "time passes");
  if (k)
    sim_advance(d[k]);
}
static int tm_block(int epfd)
{
  (void) epfd;
  if (!sim_next_expiry())
    mc_fail("waiting although no timer is set");
  sim_advance(sim_next_expiry() - sim_now());
  return 0;
}
static void tm_judge(void)
{
  int i;
  for (i = 0; i < nt; i++)
    if (tset[i])
      MC_CHECK(rep[i] == due(i), "timer %d (delay %llu, interval %llu): %llu expirations have passed, %llu were reported", i, (unsigned long long) t0_[i], (unsigned long long) ti_[i],
               (unsigned long long) due(i), (unsigned long long) rep[i]);
}
static void c31(int n, int reacts)
{
  static const uint64_t adv[] = {1, 5, 10, 35};
  int i, k;

  begin();
  nt = n;
  tin = 0;
  tact = reacts;
  for (i = 0; i < nt; i++)
    tm_new(i);
  sim_on_call = tm_call;
  for (i = 0; i < mc_param(); i++)
  {
    mc_state(mc_mix(sim_hash(), mc_mix(mc_mix(rep[0] * 4 + tset[0], n > 1 ? rep[1] * 4 + tset[1] : 0), i * 8 + tact)));
    k = mc_choose(nt * TM_ACTIONS + 6, "action (0: stop, 1: turn, 2-5: time passes)");
    if (k == 0)
      break;
    if (k == 1)
    {
      if (!sim_ready())
        mc_prune();
      mc_note("  turn");
      reactor_loop_once();
    }
    else if (k < 6)
    {
      mc_note("  time passes: %llu", (unsigned long long) adv[k - 2]);
      sim_advance(adv[k - 2]);
      mc_step();
    }
    else
      tm_act((k - 6) / TM_ACTIONS, (k - 6) % TM_ACTIONS);
  }
  quiesce();
  tm_judge();
  sim_advance(37);
  quiesce();
  sim_on_call = NULL;
  quiesce();
  tm_judge();
  for (i = 0; i < nt; i++)
  {
    timer_destruct(tm_[i]);
    timer_destruct(tm_[i]);
    free(tm_[i]);
  }
  end();
}
static void c31_one(void) { c31(1, 2); }
static void c31_two(void) { c31(2, 2); }
static void c31_three(void) { c31(3, 1); }

/* one timer, every combination of sizes and delays of service: reported exactly at the right times */
static void values(uint64_t t0, uint64_t ti, uint64_t late)
{
  uint64_t first;
  int i;

  if (ti == 1 && late > 1000000)
    ti = 3;
  begin();
  nt = 1;
  tin = tact = 0;
  tm_new(0);
  tm_set(0, t0, ti);
  first = sim_next_expiry();
  MC_CHECK(first == sim_now() + (t0 ? t0 : 1), "first expiration is set for %lld ns from now instead of %llu", (long long) (first - sim_now()), (unsigned long long) (t0 ? t0 : 1));
  for (i = 0; i < 3; i++)
  {
    uint64_t next = sim_next_expiry();
    if (!next)
      break;
    sim_advance(next - sim_now() - 1);
    MC_CHECK(!sim_ready(), "expires early");
    sim_advance(1);
    MC_CHECK(sim_ready(), "does not expire on time");
    if (ti && late / ti < 1000000)
      sim_advance(late);
    reactor_loop_once();
    tm_judge();
    mc_step();
  }
  mc_state(mc_mix(mc_mix(t0, ti), late));
  timer_destruct(tm_[0]);
  free(tm_[0]);
  end();
}

static void c31_values(void)
{
  static const uint64_t v[] = {0, 1, 2, 999999999, 1000000000, 1000000001, 1999999999, 60000000000ull, 86400000000000ull, 4294967295ull, 4294967296ull, 315360000000000000ull};
  uint64_t t0 = v[mc_choose(12, "delay")], ti = v[mc_choose(12, "interval")];

  values(t0, ti, v[mc_choose(9, "service delay")]);
}

/* delays and intervals around every power of two and of ten */
static void c31_large(void)
{
  int k = mc_choose(61 + 18, "power"), off = mc_choose(3, "-1 0 1") - 1, what = mc_choose(4, "delay, interval, both, different");
  uint64_t x = 1, y;

  if (k < 61) x <<= k;
  else for (k -= 60; k; k--) x *= 10;
  x += off;
  y = what == 3 ? x * 3 / 7 : x;
  values(what == 1 ? 5 : x, what == 0 ? 0 : y, mc_choose(2, "late") ? x / 3 : 0);
}

/* every system call takes some time: intervals below, at and above that time */
static uint64_t tm_cost;
static void tm_slow(const char *name, int fd)
{
  (void) name;
  (void) fd;
  sim_advance(tm_cost);
}
static void c31_busy(void)
{
  static const uint64_t cost[] = {1, 2, 5, 40}, iv[] = {1, 2, 3, 7, 40, 41, 100};
  uint64_t before;
  int i, k, n = 1 + mc_choose(2, "timers");

  begin();
  nt = n;
  tin = tact = 0;
  tm_cost = cost[mc_choose(4, "time per system call")];
  for (i = 0; i < nt; i++)
  {
    tm_new(i);
    tm_set(i, mc_choose(3, "delay"), iv[mc_choose(7, "interval")]);
  }
  sim_on_call = tm_slow;
  sim_on_block = tm_block;
  for (k = 0; k < mc_param(); k++)
  {
    before = rep[0] + (n > 1 ? rep[1] : 0);
    sim_call_limit(sim_calls() + 200);
    reactor_loop_once();
    mc_step();
    MC_CHECK(rep[0] + (n > 1 ? rep[1] : 0) > before, "a turn with an expired timer reports nothing");
  }
  sim_on_call = NULL;
  sim_call_limit(sim_calls() + 10000);
  quiesce();
  tm_judge();
  mc_state(mc_mix(rep[0], rep[1]));
  for (i = 0; i < nt; i++)
  {
    timer_destruct(tm_[i]);
    free(tm_[i]);
  }
  end();
}

/* ------------------------------------------------------------------ C32 */
#define MAXW 1100
typedef struct { int wd; uint32_t mask; const char *name, *path; } expect;
static notify *nf;
static int nalive, nact, nin, nfd, nw, nqueued, nseen, nf_at, nf_what, nf_noemit;
static struct { int wd; uint32_t mask; const char *path; } watches[MAXW];
static expect q[2048];
static char text[1 << 22];
static size_t ntext;
static const char *keep(const char *s)
{
  size_t n = strlen(s) + 1;
  if (ntext + n > sizeof text)
    mc_error("text");
  ntext += n;
  return memcpy(text + ntext - n, s, n);
}
static uint32_t seq_mask;

static int find_inotify(void)
{
  int fd;
  for (fd = SIM_FD_BASE; fd < SIM_FD_BASE + SIM_FDS; fd++)
    if (sim_kind(fd) == SIM_INOTIFY)
      return fd;
  return -1;
}
static void nf_cb(reactor_event *e);
static void nf_new(void)
{
  nf = malloc(sizeof *nf);
  notify_construct(nf, nf_cb, &nf);
  nalive = 1;
  nw = 0;
  nqueued = nseen = 0;
  nfd = -1;
}
static const char *paths[] = {"/a", "/b/c", "/gone", "/denied"};
static void nf_watch_path(const char *path, uint32_t mask, int bad)
{
  char *arg;
  int wd, i;

  arg = strdup(path);
  wd = notify_watch(nf, arg, mask);
  memset(arg, '!', strlen(arg)); /* the caller's string may change afterwards */
  free(arg);
  nfd = find_inotify();
  if (bad)
  {
    MC_CHECK(wd == -1, "watching a path that cannot be watched returns %d", wd);
    return;
  }
  MC_CHECK(wd >= 0, "watching a path fails");
  MC_CHECK(sim_inotify_wd(nfd, path) == wd, "watching a path of %zu bytes gives id %d, the kernel's is %d", strlen(path), wd, sim_inotify_wd(nfd, path));
  MC_CHECK(sim_inotify_mask(nfd, wd) == mask, "a path is watched for %x instead of %x", sim_inotify_mask(nfd, wd), mask);
  for (i = 0; i < nw; i++)
    if (watches[i].wd == wd)
      return;
  watches[nw].wd = wd;
  watches[nw].mask = mask;
  watches[nw++].path = keep(path);
}
static void nf_watch(int p) { nf_watch_path(paths[p], IN_ALL_EVENTS, p >= 2); }
static int nf_emit(int w, const char *name, uint32_t mask)
{
  if (nfd < 0 || sim_kind(nfd) != SIM_INOTIFY || w >= nw || sim_inotify_wd(nfd, watches[w].path) != watches[w].wd)
    return 0;
  if (nqueued >= 2000)
    mc_error("queue");
  if (watches[w].mask & mask)
    q[nqueued++] = (expect) {.wd = watches[w].wd, .mask = mask, .name = keep(name), .path = watches[w].path};
  sim_inotify_emit(nfd, watches[w].wd, mask, name);
  return 1;
}
static void nf_forget(void)
{
  nqueued = nseen = nw = 0;
  nfd = -1;
}
/* 0-3 watch, 4-6 kernel events, 7 the watched path vanishes, 8 clear, 9 destroy, 10 queue overflow, 11 clear and watch again */
#define NF_ACTIONS 12
static void nf_act(int a)
{
  mc_note("%s %s", nin ? "      in the callback:" : "  ", ((char *[]) {"watch /a", "watch /b/c", "watch a missing path", "watch a forbidden path", "event on the first", "event on the second", "event with a name",
    "the first path vanishes", "clear", "destroy", "overflow", "clear and watch again"})[a]);
  mc_step();
  if (!nalive || (nf_noemit && a >= 4 && a <= 7))
    mc_prune();
  switch (a)
  {
  case 0: case 1: case 2: case 3:
    nf_watch(a);
    break;
  case 4:
    if (!nf_emit(0, "", IN_OPEN)) mc_prune();
    break;
  case 5:
    if (!nf_emit(1, "", IN_CLOSE_WRITE)) mc_prune();
    break;
  case 6:
    if (!nf_emit(nw > 1 ? 1 : 0, "name-of-file", IN_CREATE)) mc_prune();
    break;
  case 7:
    if (!nf_emit(0, "", IN_DELETE_SELF))
      mc_prune();
    q[nqueued++] = (expect) {.wd = watches[0].wd, .mask = IN_IGNORED, .name = "", .path = watches[0].path};
    inotify_rm_watch(nfd, watches[0].wd);
    break;
  case 8:
    notify_clear(nf);
    MC_CHECK(find_inotify() == -1, "the notification descriptor stays open after clearing");
    nf_forget();
    break;
  case 9:
    notify_destruct(nf);
    free(nf);
    nalive = 0;
    nf_forget();
    break;
  case 10:
    if (nfd < 0)
      mc_prune();
    sim_inotify_emit(nfd, -1, IN_Q_OVERFLOW, NULL);
    break;
  case 11:
    notify_clear(nf);
    nf_forget();
    nf_watch(1);
    break;
  }
}
static void nf_cb(reactor_event *e)
{
  notify_event *x = (notify_event *) e->data;
  expect *w;

  MC_CHECK(nalive, "callback of a destroyed notifier");
  MC_CHECK(e->type == NOTIFY_EVENT, "event type %d", e->type);
  if (x->mask & IN_Q_OVERFLOW)
  {
    /* reporting the overflow itself is fine as long as it is not attributed to a path */
    MC_CHECK(!x->path || !*x->path, "overflow reported under a path");
    return;
  }
  MC_CHECK(nseen < nqueued, "a notification (%x on '%s') that was not queued or belongs to a cleared watch", x->mask, x->path);
  w = &q[nseen++];
  mc_note("    notification %x on %s '%s'", x->mask, x->path, x->name);
  MC_CHECK(x->id == w->wd && x->mask == w->mask && strcmp(x->path, w->path) == 0 && strcmp(x->name, w->name) == 0,
           "notification %d is reported as %x on '%s' ('%s', id %d) instead of %x on '%s' ('%s', id %d)", nseen, x->mask, x->path, x->name, x->id, w->mask, w->path, w->name, w->wd);
  if (nf_at && nseen == nf_at)
  {
    nf_at = 0;
    nf_act(nf_what);
    return;
  }
  if (nact)
  {
    int k = mc_choose(NF_ACTIONS + 1, "reaction");
    if (k)
    {
      nact--;
      nin++;
      nf_act(k - 1);
      nin--;
    }
  }
}
static int nf_injecting;
static void nf_call(const char *name, int fd)
{
  int k;
  (void) fd;
  if (nf_injecting || (strcmp(name, "read") && strcmp(name, "epoll_wait")))
    return;
  k = mc_dev(3, "events arrive meanwhile");
  if (!k)
    return;
  nf_injecting = 1;
  if (k == 1) nf_emit(0, "x", IN_MODIFY);
  else nf_emit(nw > 1 ? 1 : 0, "", IN_ATTRIB);
  nf_injecting = 0;
}
static void nf_start(int reacts)
{
  begin();
  nin = 0;
  nact = reacts;
  nf_injecting = nf_at = nf_noemit = 0;
  ntext = 0;
  sim_inotify_fail("/gone", ENOENT);
  sim_inotify_fail("/denied", EACCES);
  nf_new();
}
static void nf_end(void)
{
  quiesce();
  sim_on_call = NULL;
  quiesce();
  MC_CHECK(nseen == nqueued, "%d notifications were queued, %d reported", nqueued, nseen);
  if (nalive)
  {
    notify_destruct(nf);
    free(nf);
  }
  end();
}
static void c32(void)
{
  int i, k;

  nf_start(2);
  sim_on_call = nf_call;
  nf_act(0);
  for (i = 0; i < mc_param(); i++)
  {
    mc_state(mc_mix(sim_hash(), mc_mix(nseen * 32 + nqueued, i * 8 + nact * 2 + nalive)));
    k = mc_choose(NF_ACTIONS + 2, "action (0: stop, 1: turn)");
    if (k == 0)
      break;
    if (k == 1)
    {
      if (!sim_ready())
        mc_prune();
      mc_note("  turn");
      reactor_loop_once();
    }
    else
      nf_act(k - 2);
  }
  nf_end();
}
/* more notifications than one read takes, with names of every length, the owner acting at any of them */
static void c32_burst(void)
{
  static const int counts[] = {1, 2, 84, 85, 86, 100, 256, 257, 300};
  int n = counts[mc_choose(9, "count")], len = (int[]) {0, 1, 15, 16, 17, 30, 100, 239, 240, 254, 255}[mc_choose(11, "name length")], at, what, i;
  char name[256];

  nf_start(0);
  nf_act(0);
  nf_act(1);
  for (i = 0; i < n; i++)
  {
    memset(name, 'a' + i % 26, len);
    name[len] = 0;
    nf_emit(i % 2, i % 7 == 6 ? "" : name, 1 << i % 12);
  }
  what = mc_choose(5, "nothing, clear, destroy, clear and watch, overflow behind them");
  if (what == 4)
    nf_act(10);
  else if (what)
  {
    at = mc_choose(4, "before any, in the first, in one in the middle, in the last");
    if (at == 0)
      nf_act((int[]) {8, 9, 11}[what - 1]);
    else
    {
      nf_at = at == 1 ? 1 : at == 2 ? n / 2 + 1 : n;
      nf_what = (int[]) {8, 9, 11}[what - 1];
    }
  }
  if (sim_ready())
    reactor_loop_once();
  mc_state(mc_mix(mc_mix(n, len), what));
  nf_end();
}
/* names of every length, so that records end at every offset of the reading buffer */
static void c32_layout(void)
{
  int pre = mc_choose(mc_param(), "records without a name"), len = mc_choose(35, "name length"), n = 8, i;
  char name[256];

  nf_start(0);
  nf_act(0);
  for (i = 0; i < pre; i++)
    nf_emit(0, "", IN_ACCESS);
  len = len < 31 ? len : len == 31 ? 111 : len == 32 ? 207 : len == 33 ? 254 : 255;
  memset(name, 'n', len);
  name[len] = 0;
  for (i = 0; i < n; i++)
    nf_emit(0, name, IN_CREATE);
  quiesce();
  mc_steps(pre + n);
  mc_state(mc_mix(pre, len));
  nf_end();
}
/* many paths of any length, watched for anything: notifications of each, in several orders */
static void c32_paths(void)
{
  static const int lens[] = {1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 511, 1023, 1024, 2000, 4094, 4095}, counts[] = {1, 2, 3, 8, 9, 16, 17, 32, 64, 65, 128, 129, 255, 256, 257, 500, 1024, 1025};
  int which = mc_choose(2, "one long path, many paths"), len = 1, n = 1, i, k, order, mask;
  static char path[4097];

  if (which)
    n = counts[mc_choose(18, "paths")];
  else
    len = lens[mc_choose(22, "path length")];
  order = mc_choose(4, "events: in order, backwards, every third, only the last");
  mask = mc_choose(14, "watched for");
  nf_start(0);
  sim_call_limit(sim_calls() + 20 * (n + 1000));
  for (i = 0; i < n; i++)
  {
    if (which)
      sprintf(path, "/dir/%d", i);
    else
    {
      memset(path, 'p', len);
      path[0] = '/';
      path[len] = 0;
    }
    nf_watch_path(path, mask < 12 ? 1u << mask : mask == 12 ? IN_ALL_EVENTS : i % 2 ? IN_CREATE | IN_ONLYDIR : IN_MODIFY, 0);
  }
  for (k = 0; k < 2; k++)
  {
    for (i = 0; i < n; i++)
    {
      int w = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? i * 3 % n : n - 1;
      if (order == 3 && i)
        break;
      nf_emit(w, i % 2 ? "f" : "", 1u << (mask < 12 && i % 2 ? mask : (i + k) % 12));
      if (mask < 12 || i % 5 == 4)
        nf_emit(w, i % 3 ? "g" : "", IN_ISDIR | (mask < 12 ? 1u << mask : IN_CREATE));
      if (nqueued > 1900)
        break;
    }
    quiesce();
  }
  mc_steps(2 * n);
  mc_state(mc_mix(mc_mix(n, len), order * 16 + mask));
  nf_end();
}
/* the kernel's queue overflows while the owner does not look */
static void c32_overflow(void)
{
  int limit = 1 + mc_choose(4, "queue limit"), n = mc_choose(7, "events"), more = mc_choose(3, "events afterwards"), i;

  nf_start(mc_choose(2, "reactions"));
  sim_inotify_limit(limit);
  nf_noemit = 1;
  nf_act(0);
  nf_act(1);
  for (i = 0; i < n; i++)
    if (i < limit)
      nf_emit(i % 2, "n", IN_CREATE);
    else
      sim_inotify_emit(nfd, watches[i % 2].wd, IN_CREATE, "n"); /* dropped; one overflow record */
  quiesce();
  if (nalive && nw)
  {
    sim_inotify_limit(0);
    for (i = 0; i < more; i++)
      nf_emit(0, "later", IN_DELETE);
  }
  mc_state(mc_mix(mc_mix(limit, n), more));
  nf_end();
}

const mc_scenario mc_scenarios[] = {
  {"C30", "one", c30_one, 1, 2, 7, 9, 4, 0},
  {"C30", "two", c30_two, 1, 2, 4, 5, 4, 0},
  {"C30", "three", c30_three, 0, 1, 4, 5, 4, 0},
  {"C30", "burst", c30_burst, 0, 0, 100, 300, 1, 0},
  {"C31", "one", c31_one, 1, 2, 4, 5, 4, 0},
  {"C31", "two", c31_two, 0, 1, 4, 5, 4, 0},
  {"C31", "three", c31_three, 0, 1, 4, 4, 4, 0},
  {"C31", "busy", c31_busy, 0, 0, 12, 60, 3, 0},
  {"C31", "values", c31_values, 0, 0, 0, 0, 3, 0},
  {"C31", "large", c31_large, 0, 0, 0, 0, 2, 0},
  {"C32", "sequences", c32, 1, 1, 4, 5, 4, 0},
  {"C32", "burst", c32_burst, 0, 0, 0, 0, 3, 0},
  {"C32", "layout", c32_layout, 0, 0, 260, 520, 2, 0},
  {"C32", "paths", c32_paths, 0, 0, 0, 0, 3, 0},
  {"C32", "overflow", c32_overflow, 0, 0, 0, 0, 3, 0},
  {NULL}
};
