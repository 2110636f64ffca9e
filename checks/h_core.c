/* C01-C04: the event loop core and descriptor readiness. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"

static long mem0;

static void begin(void)
{
  sim_reset();
  mem0 = mc_mem_live();
  reactor_construct();
}

static void end(void)
{
  reactor_destruct();
  MC_CHECK(sim_open_fds() == 0, "descriptors left open at the end:%s", sim_open_list());
  MC_CHECK(mc_mem_live() == mem0, "heap blocks left at the end: %ld", mc_mem_live() - mem0);
}

/* ------------------------------------------------------------------ C01: removed registrations never fire */

#define MAXN 48
typedef struct node node;
struct node
{
  reactor_handler handler; /* core flavour */
  descriptor      d;       /* descriptor flavour */
  int             i, fd, gen;
  int             is_desc;
};
static node *cur[MAXN];     /* registered object per slot, NULL: not registered */
static int gen[MAXN], signalled[MAXN], fires[MAXN], nn, budget, turn, flavour, node_abort;
static int fired_in_turn[MAXN], added_in_turn[MAXN];

static void node_cb(reactor_event *e);

static void node_add(int i)
{
  node *n = calloc(1, sizeof *n);

  n->i = i;
  n->gen = ++gen[i];
  n->is_desc = flavour;
  n->fd = eventfd(0, EFD_NONBLOCK);
  signalled[i] = 0;
  added_in_turn[i] = turn;
  if (n->is_desc)
  {
    descriptor_construct(&n->d, node_cb, n);
    descriptor_open(&n->d, n->fd, DESCRIPTOR_READ | (flavour == 2 ? DESCRIPTOR_LEVEL : 0));
  }
  else
  {
    reactor_handler_construct(&n->handler, node_cb, n);
    reactor_add(&n->handler, n->fd, EPOLLIN | EPOLLET);
  }
  cur[i] = n;
}

static void node_del(int i)
{
  node *n = cur[i];

  cur[i] = NULL;
  signalled[i] = 0;
  if (n->is_desc)
    descriptor_destruct(&n->d);
  else
  {
    reactor_delete(&n->handler, n->fd);
    close(n->fd);
    reactor_handler_destruct(&n->handler);
  }
  memset(n, 0x5a, sizeof *n);
  free(n);
}

static void node_signal(int i)
{
  uint64_t one = 1;

  signalled[i] = 1;
  if (write(cur[i]->fd, &one, 8) != 8)
    mc_error("eventfd");
}

/* one choice: what is done to the registrations; self is the slot whose callback runs, -1 outside */
static void node_action(int self)
{
  int n = 1 + nn * 3 + (self >= 0), c, i;

  if (!budget)
    return;
  c = mc_choose(n, self < 0 ? "between turns" : "in callback");
  if (!c)
    return;
  i = (c - 1) % nn;
  switch ((c - 1) / nn)
  {
  case 0: /* remove, or add again */
    budget--;
    if (cur[i])
      node_del(i);
    else
      node_add(i);
    break;
  case 1: /* replace by a new registration */
    if (!cur[i])
      mc_prune();
    budget--;
    node_del(i);
    node_add(i);
    break;
  case 2:
    if (!cur[i] || signalled[i])
      mc_prune();
    budget--;
    node_signal(i);
    break;
  case 3: /* the loop is to end: after this batch */
    budget = 0;
    node_abort = 1;
    reactor_abort();
    break;
  }
  mc_step();
  mc_note("    action %d on %d", (c - 1) / nn, i);
}

static void node_cb(reactor_event *e)
{
  node *n = e->state;
  uint64_t v;
  int i;

  for (i = 0; i < nn; i++)
    if (cur[i] == n)
      break;
  MC_CHECK(i < nn, "a registration that had been removed was dispatched");
  MC_CHECK(signalled[i], "registration %d dispatched with nothing to report", i);
  MC_CHECK(fired_in_turn[i] != turn || added_in_turn[i] == turn, "registration %d dispatched twice in one turn", i);
  fired_in_turn[i] = turn;
  fires[i]++;
  mc_note("    callback %d (generation %d)", i, n->gen);
  if (read(n->fd, &v, 8) != 8)
    mc_fail("registration %d dispatched but its descriptor is not readable", i);
  signalled[i] = 0;
  mc_outcome(i + 100 * turn);
  mc_step();
  node_action(i);
}

static void c01_state(void)
{
  uint64_t h = sim_hash();
  int i;
  for (i = 0; i < nn; i++)
    h = mc_mix(h, (cur[i] != NULL) + 2 * signalled[i] + 4 * (gen[i] & 63));
  mc_state(mc_mix(h, budget + 1000 * turn));
}

static void c01(int fl, int n)
{
  int i, k, expect[MAXN], g0[MAXN], order[MAXN], left, any;

  flavour = fl;
  node_abort = 0;
  nn = n;
  budget = mc_param();
  turn = 0;
  memset(gen, 0, sizeof gen);
  memset(fires, 0, sizeof fires);
  memset(cur, 0, sizeof cur);
  memset(signalled, 0, sizeof signalled);
  for (i = 0; i < nn; i++)
    fired_in_turn[i] = -1;
  begin();
  for (i = 0; i < nn; i++)
    node_add(i);
  /* the order in which they become ready */
  for (i = 0; i < nn; i++)
    order[i] = i;
  for (left = nn; left > 1; left--)
  {
    k = mc_choose(left, "next to become ready");
    i = order[left - 1];
    order[left - 1] = order[k];
    order[k] = i;
  }
  for (i = nn - 1; i >= 0; i--)
    node_signal(order[i]);
  for (;;)
  {
    node_action(-1);
    c01_state();
    any = 0;
    for (i = 0; i < nn; i++)
    {
      expect[i] = cur[i] && signalled[i];
      g0[i] = gen[i];
      any += expect[i];
    }
    if (!any)
      break;
    turn++;
    sim_ready() ? (void) 0 : mc_fail("a signalled registration is not reported by the loop");
    reactor_loop_once();
    for (i = 0; i < nn; i++)
      if (expect[i] && gen[i] == g0[i] && cur[i])
        MC_CHECK(fired_in_turn[i] == turn, "registration %d was ready and not removed, but was not dispatched", i);
    if (node_abort)
      break;
  }
  for (i = 0; i < nn; i++)
    if (cur[i])
      node_del(i);
  end();
}

static void c01_core(void) { c01(0, 3); }
static void c01_desc(void) { c01(1, 3); }
static void c01_level(void) { c01(2, 3); }
static void c01_four(void) { c01(1, 4); }

/* many ready at once: any one removes any range of the others */
static int many_who, many_from, many_to, many_all;
static void many_cb(reactor_event *e)
{
  node *n = e->state;
  uint64_t v;
  int i;

  for (i = 0; i < nn; i++)
    if (cur[i] == n)
      break;
  MC_CHECK(i < nn, "a removed registration was dispatched");
  MC_CHECK(read(n->fd, &v, 8) == 8, "registration %d dispatched twice", i);
  fires[i]++;
  signalled[i] = 0;
  mc_outcome(i);
  mc_step();
  if (i == many_who)
    for (i = many_from; i <= many_to; i++)
      if (cur[i])
      {
        node_del(i);
        if (many_all)
        {
          /* a new registration, not ready: it must not inherit the old report */
          node_add(i);
          cur[i]->d.handler.callback = many_cb;
        }
      }
}

static void c01_many(void)
{
  int i, turns = 0, gone;

  flavour = 1;
  nn = mc_param();
  turn = 0;
  memset(gen, 0, sizeof gen);
  memset(fires, 0, sizeof fires);
  memset(cur, 0, sizeof cur);
  memset(signalled, 0, sizeof signalled);
  many_who = mc_choose(nn, "which registration acts");
  many_from = mc_choose(nn, "first removed");
  many_to = many_from + (mc_choose(3, "how many") * (nn - 1) / 2);
  if (many_to >= nn)
    mc_prune();
  many_all = mc_choose(2, "register again");
  begin();
  for (i = 0; i < nn; i++)
  {
    node_add(i);
    cur[i]->d.handler.callback = many_cb;
  }
  for (i = 0; i < nn; i++)
    node_signal(i);
  while (sim_ready())
  {
    MC_CHECK(turns++ < nn + 2, "the loop does not come to rest");
    reactor_loop_once();
  }
  for (i = 0; i < nn; i++)
  {
    gone = i >= many_from && i <= many_to;
    /* ready registrations are reported in the order they became ready */
    if (!gone || i <= many_who)
      MC_CHECK(fires[i] == 1, "registration %d fired %d times", i, fires[i]);
    else
      MC_CHECK(fires[i] == 0, "registration %d fired although it was removed first", i);
    if (cur[i])
      node_del(i);
  }
  mc_state(mc_mix(many_who * 64 + many_from, many_to * 2 + many_all));
  end();
}

/* descriptors with several conditions at once: nothing of an event is delivered once its descriptor is gone */
typedef struct { descriptor d; int i, gen; } mnode;
static mnode *mn[3];
static sim_conn *mpeer[3];
static int mgen[3], mbudget, mmask;

static void mnode_cb(reactor_event *e);
static void mnode_open(int i)
{
  mn[i] = calloc(1, sizeof *mn[i]);
  mn[i]->i = i;
  mn[i]->gen = ++mgen[i];
  mpeer[i] = sim_conn_new(SIM_SOCK, 64);
  descriptor_construct(&mn[i]->d, mnode_cb, mn[i]);
  descriptor_open(&mn[i]->d, mpeer[i]->fd, mmask);
}
static void mnode_gone(int i, int how)
{
  mnode *n = mn[i];
  mn[i] = NULL;
  if (how == 2)
    descriptor_close(&n->d);
  else
    descriptor_destruct(&n->d);
  memset(n, 0x5a, sizeof *n);
  free(n);
}
static void mnode_cb(reactor_event *e)
{
  mnode *n = e->state;
  char b[16];
  int i, c, k;

  for (i = 0; i < nn; i++)
    if (mn[i] == n)
      break;
  MC_CHECK(i < nn, "an event was delivered for a descriptor object that had been closed");
  mc_outcome(e->type + 10 * i + 100 * n->gen);
  mc_step();
  if (e->type == DESCRIPTOR_READ)
    while (read(descriptor_fd(&n->d), b, sizeof b) > 0);
  if (!mbudget)
    return;
  c = mc_choose(1 + 4 * nn, "in callback: nothing, close, destroy, replace, new interest");
  if (!c)
    return;
  i = (c - 1) % nn;
  k = (c - 1) / nn;
  mbudget--;
  if (!mn[i])
    mnode_open(i);
  else if (k < 3)
  {
    mnode_gone(i, k == 0 ? 2 : 1);
    if (k == 2)
      mnode_open(i);
  }
  else
    descriptor_mask(&mn[i]->d, (DESCRIPTOR_READ | DESCRIPTOR_LEVEL) ^ (mmask & DESCRIPTOR_LEVEL));
}

static void c01_multi(void)
{
  int i, t, k;

  nn = 2;
  mbudget = mc_param();
  memset(mgen, 0, sizeof mgen);
  begin();
  mmask = DESCRIPTOR_READ | DESCRIPTOR_WRITE | (mc_choose(2, "edge, level") ? DESCRIPTOR_LEVEL : 0);
  for (i = 0; i < nn; i++)
    mnode_open(i);
  for (i = 0; i < nn; i++)
  {
    k = mc_choose(4, "peer: data, data and end, end, reset");
    if (k < 2)
      sim_peer_send(mpeer[i], "x", 1);
    if (k == 1 || k == 2)
      sim_peer_fin(mpeer[i]);
    if (k == 3)
      sim_peer_rst(mpeer[i]);
  }
  for (t = 0; t < 4 && sim_ready(); t++)
  {
    mc_state(mc_mix(sim_hash(), mbudget));
    reactor_loop_once();
  }
  for (i = 0; i < nn; i++)
    if (mn[i])
      mnode_gone(i, 1);
  end();
}

/* changed registrations: conditions and handlers given to reactor_modify hold from the next batch on */
typedef struct { reactor_handler h[2]; int fd, mask, which, in; } cnode;
static cnode cn[2];
static int cgot[2][2], cbits[2], cbudget;

static void cn_cb(reactor_event *e);

static void cn_action(const char *where)
{
  static const int masks[] = {0, EPOLLIN, EPOLLOUT, EPOLLIN | EPOLLOUT};
  uint64_t v = 1;
  int c, i;

  if (!cbudget)
    return;
  c = mc_choose(1 + 2 * 10, where);
  if (!c)
    return;
  cbudget--;
  i = (c - 1) % 2;
  c = (c - 1) / 2;
  if (c < 8)
  {
    if (masks[c % 4] == cn[i].mask && c / 4 == cn[i].which)
      mc_prune();
    cn[i].mask = masks[c % 4];
    cn[i].which = c / 4;
    reactor_modify(&cn[i].h[cn[i].which], cn[i].fd, cn[i].mask);
  }
  else if (c == 8)
  {
    if (cn[i].in || write(cn[i].fd, &v, 8) != 8)
      mc_prune();
    cn[i].in = 1;
  }
  else
  {
    if (!cn[i].in || read(cn[i].fd, &v, 8) != 8)
      mc_prune();
    cn[i].in = 0;
  }
  mc_step();
}

static void cn_cb(reactor_event *e)
{
  int i, k;
  uintptr_t s = (uintptr_t) e->state;

  i = s / 2;
  k = s % 2;
  MC_CHECK(e->type == REACTOR_EPOLL_EVENT, "event type %d", e->type);
  cgot[i][k]++;
  cbits[i] |= ((struct epoll_event *) e->data)->events;
  mc_outcome(i * 2 + k + 10 * cbits[i]);
  cn_action("in callback");
}

static void c01_modify(void)
{
  int i, k, t, want[2], to[2];

  cbudget = mc_param();
  begin();
  for (i = 0; i < 2; i++)
  {
    cn[i] = (cnode) {.fd = eventfd(0, EFD_NONBLOCK), .mask = mc_choose(2, "first interest") ? EPOLLIN | EPOLLOUT : EPOLLIN};
    for (k = 0; k < 2; k++)
      reactor_handler_construct(&cn[i].h[k], cn_cb, (void *) (uintptr_t) (i * 2 + k));
    reactor_add(&cn[i].h[0], cn[i].fd, cn[i].mask);
  }
  for (t = 0; t < 4; t++)
  {
    cn_action("between turns");
    for (i = 0; i < 2; i++)
    {
      want[i] = cn[i].mask & ((cn[i].in ? EPOLLIN : 0) | EPOLLOUT);
      to[i] = cn[i].which;
      cgot[i][0] = cgot[i][1] = cbits[i] = 0;
    }
    mc_state(mc_mix(sim_hash(), cbudget * 8 + cn[0].which * 2 + cn[1].which));
    MC_CHECK(sim_ready() == (want[0] || want[1]), "the loop has %s to report", sim_ready() ? "something" : "nothing");
    if (!sim_ready())
      break;
    reactor_loop_once();
    for (i = 0; i < 2; i++)
    {
      MC_CHECK(cgot[i][to[i]] == (want[i] != 0) && cgot[i][!to[i]] == 0, "registration %d was reported %d times to its handler and %d times to another", i, cgot[i][to[i]], cgot[i][!to[i]]);
      MC_CHECK(cbits[i] == want[i], "registration %d was reported with conditions %x instead of %x", i, cbits[i], want[i]);
    }
  }
  for (i = 0; i < 2; i++)
  {
    reactor_delete(&cn[i].h[cn[i].which], cn[i].fd);
    close(cn[i].fd);
    reactor_handler_destruct(&cn[i].h[0]);
    reactor_handler_destruct(&cn[i].h[1]);
  }
  end();
}

/* ------------------------------------------------------------------ C02: when the loop ends */

static int regs, stop, aborted, in_window, waits;
static descriptor *ds[8];
static int dpend[8], loop_budget, cb_budget, ndesc;

static void lc_open(int i);

static void do_abort(int how)
{
  aborted = 1;
  switch (how)
  {
  case 0:
    reactor_abort();
    break;
  case 1:
    raise(SIGTERM);
    break;
  case 2:
    raise(SIGINT);
    break;
  }
}

static void lc_cb(reactor_event *e)
{
  int i = (int) (intptr_t) e->state, c, n;
  uint64_t v;

  MC_CHECK(ds[i] && dpend[i], "unexpected dispatch of %d", i);
  MC_CHECK(e->type == DESCRIPTOR_READ, "wrong event type");
  if (read(descriptor_fd(ds[i]), &v, 8) != 8)
    mc_fail("dispatch without readiness");
  dpend[i] = 0;
  mc_step();
  mc_outcome(i);
  if (!cb_budget)
    return;
  c = mc_choose(2 + 3 + ndesc, "in callback: nothing, close all, abort, SIGTERM, SIGINT, toggle j");
  if (c)
    cb_budget--;
  if (c == 1)
  {
    for (n = 0; n < ndesc; n++)
      if (ds[n])
      {
        descriptor_close(ds[n]);
        free(ds[n]);
        ds[n] = NULL;
        dpend[n] = 0;
        regs--;
      }
  }
  else if (c >= 2 && c <= 4)
    do_abort(c - 2);
  else if (c > 4)
  {
    n = c - 5;
    if (ds[n])
    {
      descriptor_destruct(ds[n]);
      free(ds[n]);
      ds[n] = NULL;
      dpend[n] = 0;
      regs--;
    }
    else
      lc_open(n);
  }
}

static void lc_open(int i)
{
  ds[i] = malloc(sizeof *ds[i]);
  descriptor_construct(ds[i], lc_cb, (void *) (intptr_t) i);
  descriptor_open(ds[i], eventfd(0, EFD_NONBLOCK), DESCRIPTOR_READ);
  regs++;
}

static void lc_signal(int i)
{
  uint64_t one = 1;
  if (write(descriptor_fd(ds[i]), &one, 8) != 8)
    mc_error("write");
  dpend[i] = 1;
}

static int lc_wait(int epfd)
{
  (void) epfd;
  waits++;
  MC_CHECK(!aborted, "the loop waits for events again although its end was requested");
  MC_CHECK(regs > 0, "the loop waits for events with nothing registered");
  return 0;
}

static int lc_block(int epfd)
{
  int i, c;

  (void) epfd;
  MC_CHECK(!aborted, "the loop sleeps although its end was requested");
  mc_step();
  mc_state(mc_mix(sim_hash(), loop_budget * 64 + cb_budget));
  if (!loop_budget)
    c = 1 + mc_choose(2, "out of budget: SIGTERM or SIGINT");
  else
  {
    loop_budget--;
    c = mc_choose(3 + (1 << ndesc) - 1, "while waiting: interrupted, SIGTERM, SIGINT, readiness");
  }
  if (c == 0)
    return -1;
  if (c <= 2)
  {
    do_abort(c);
    return -1; /* the handler ran: the wait is interrupted */
  }
  c -= 2;
  for (i = 0; i < ndesc; i++)
    if (c >> i & 1)
    {
      if (!ds[i])
        mc_prune();
      lc_signal(i);
    }
  return 0;
}

static void c02_loop(void)
{
  struct sigaction sa;
  int i, round;

  ndesc = 2;
  for (round = 0; round < 2; round++)
  {
    begin();
    regs = 0;
    aborted = 0;
    waits = 0;
    loop_budget = round ? 1 : mc_param();
    cb_budget = round ? 1 : mc_param();
    memset(ds, 0, sizeof ds);
    memset(dpend, 0, sizeof dpend);
    sim_on_block = lc_block;
    sim_wait_hook = lc_wait;
    sigaction(SIGPIPE, NULL, &sa);
    MC_CHECK(sa.sa_handler != SIG_DFL, "SIGPIPE still terminates the process");
    for (i = mc_choose(ndesc + 1, "registrations to start with"); i > 0; i--)
      lc_open(i - 1);
    if (mc_choose(2, "abort before the loop") == 1)
      do_abort(0);
    reactor_loop();
    MC_CHECK(aborted || regs == 0, "the loop ended although %d registrations remain and no end was requested", regs);
    for (i = 0; i < ndesc; i++)
    {
      MC_CHECK(!dpend[i] || aborted, "readiness of %d was never dispatched", i);
      if (ds[i])
      {
        descriptor_destruct(ds[i]);
        free(ds[i]);
        ds[i] = NULL;
      }
    }
    sim_on_block = NULL;
    sim_wait_hook = NULL;
    end();
  }
}

/* a termination signal in the window between the loop's own test and its wait */
static int win_at, win_kind, wk_waits;
static int win_wait(int epfd)
{
  (void) epfd;
  if (wk_waits++ == win_at)
    do_abort(win_kind);
  return 0;
}
static int win_block(int epfd)
{
  (void) epfd;
  if (aborted)
    mc_known("signal-before-wait", "a termination signal delivered after the loop tested its state and before it waits does not end the wait: the loop sleeps until the next event");
  if (loop_budget-- <= 0)
    mc_prune();
  lc_signal(0);
  return 0;
}
static void c02_window(void)
{
  begin();
  ndesc = 1;
  regs = aborted = wk_waits = 0;
  memset(ds, 0, sizeof ds);
  memset(dpend, 0, sizeof dpend);
  cb_budget = 0;
  loop_budget = 3;
  lc_open(0);
  win_at = mc_choose(3, "signal at which wait");
  win_kind = 1 + mc_choose(2, "SIGTERM or SIGINT");
  if (mc_choose(2, "an event is already pending at that wait"))
    lc_signal(0);
  sim_on_block = win_block;
  sim_wait_hook = win_wait;
  mc_step();
  mc_state(win_at * 2 + win_kind);
  reactor_loop();
  MC_CHECK(aborted, "the loop ended by itself");
  sim_on_block = NULL;
  sim_wait_hook = NULL;
  descriptor_destruct(ds[0]);
  free(ds[0]);
  end();
}

/* any number of simultaneously ready descriptors is served, level-triggered ones fairly */
static descriptor *fs[160];
static int fcount[160], flevel[160], fdrain;
static void fair_cb(reactor_event *e)
{
  int i = (int) (intptr_t) e->state;
  uint64_t v;

  fcount[i]++;
  mc_step();
  if (fdrain && read(descriptor_fd(fs[i]), &v, 8) != 8)
    mc_fail("descriptor %d dispatched without being ready", i);
}
static void c02_fair(void)
{
  static const int sizes[] = {1, 2, 7, 8, 15, 16, 31, 32, 33, 47, 63, 64, 65, 95, 96, 97, 127, 128, 129, 150};
  int n = sizes[mc_choose(sizeof sizes / sizeof *sizes, "simultaneously ready descriptors")], i, t = 0;
  int mode = mc_choose(3, "edge / level drained / level never drained"), min = 0;
  uint64_t one = 1;

  begin();
  fdrain = mode != 2;
  memset(fcount, 0, sizeof fcount);
  for (i = 0; i < n; i++)
  {
    fs[i] = malloc(sizeof *fs[i]);
    descriptor_construct(fs[i], fair_cb, (void *) (intptr_t) i);
    descriptor_open(fs[i], eventfd(0, EFD_NONBLOCK), DESCRIPTOR_READ | (mode ? DESCRIPTOR_LEVEL : 0));
    if (write(descriptor_fd(fs[i]), &one, 8) != 8)
      mc_error("write");
  }
  if (mode < 2)
  {
    while (sim_ready())
    {
      MC_CHECK(t++ < n + 1, "the loop does not come to rest");
      reactor_loop_once();
    }
    for (i = 0; i < n; i++)
      MC_CHECK(fcount[i] == 1, "descriptor %d of %d was dispatched %d times", i, n, fcount[i]);
  }
  else
  {
    for (t = 0; t < n; t++)
      reactor_loop_once();
    for (i = 0; i < n; i++)
    {
      MC_CHECK(fcount[i], "descriptor %d of %d starves", i, n);
      if (!i || fcount[i] < min)
        min = fcount[i];
    }
    for (i = 0; i < n; i++)
      MC_CHECK(fcount[i] <= min + 2, "descriptor %d of %d is served %d times while another is served %d times", i, n, fcount[i], min);
  }
  mc_state(n * 4 + mode);
  for (i = 0; i < n; i++)
  {
    descriptor_destruct(fs[i]);
    free(fs[i]);
  }
  end();
}

/* ------------------------------------------------------------------ C03: readiness translation */

static descriptor *td;
static sim_conn *tc;
static int tref, tmask, tlog[16], tn, tclosed, tbudget, tkind, tefd, tsock;

static uint32_t want(int mask)
{
  return (mask & DESCRIPTOR_READ ? EPOLLIN : 0) | (mask & DESCRIPTOR_WRITE ? EPOLLOUT : 0) | EPOLLRDHUP | (mask & DESCRIPTOR_LEVEL ? 0 : EPOLLET);
}

static const char *tname(int t) { return t == DESCRIPTOR_READ ? "READ" : t == DESCRIPTOR_WRITE ? "WRITE" : t == DESCRIPTOR_CLOSE ? "CLOSE" : "?"; }

static void t_close(void)
{
  int fd = descriptor_fd(td);

  descriptor_close(td);
  MC_CHECK(!descriptor_is_open(td), "still open after close");
  MC_CHECK(!sim_is_open(fd), "the descriptor was not closed");
  tclosed = 1;
  epoll_ctl(tref, EPOLL_CTL_DEL, fd, NULL);
  if (mc_choose(2, "close again"))
    descriptor_close(td);
}

static void t_setmask(int m)
{
  descriptor_mask(td, m);
  tmask = m;
  epoll_ctl(tref, EPOLL_CTL_MOD, descriptor_fd(td), (struct epoll_event[]) {{.events = want(m)}});
}

static void t_cb(reactor_event *e)
{
  int c;
  char buf[64];

  MC_CHECK(!tclosed, "%s delivered after the descriptor was closed", tname(e->type));
  MC_CHECK(tn < 4, "too many events in one turn");
  tlog[tn++] = e->type;
  mc_outcome(e->type + 1);
  mc_step();
  mc_note("    %s", tname(e->type));
  if (!tbudget)
    return;
  c = mc_choose(3 + 7, "in callback: nothing, read all, close, other mask");
  if (!c)
    return;
  tbudget--;
  if (c == 1)
    while (read(descriptor_fd(td), buf, sizeof buf) > 0);
  else if (c == 2)
    t_close();
  else
    t_setmask((tmask + c - 2) & 7);
}

static void c03_env(int c)
{
  uint64_t one = 1;
  char buf[128];

  switch (c)
  {
  case 0: /* becomes readable */
    if (tsock)
    {
      if (tc->fin || tc->rst)
        mc_prune();
      sim_peer_send(tc, "x", 1);
    }
    else if (write(tefd, &one, 8) != 8)
      mc_error("write");
    break;
  case 1: /* send space used up */
    if (!tsock || tc->txlen || tc->rst)
      mc_prune();
    memset(buf, 'y', sizeof buf);
    if (write(tc->fd, buf, sizeof buf) < 0)
      mc_prune();
    break;
  case 2: /* send space back */
    if (!tsock || !tc->txlen)
      mc_prune();
    sim_peer_take(tc, 1000);
    break;
  case 3:
    if (!tsock || tc->fin || tc->rst)
      mc_prune();
    sim_peer_fin(tc);
    break;
  case 4:
    if (!tsock || tc->rst)
      mc_prune();
    sim_peer_rst(tc);
    break;
  case 5: /* drained from outside a callback */
    if (tsock ? !tc->rxlen : !sim_eventfd_count(tefd))
      mc_prune();
    while (read(descriptor_fd(td), buf, sizeof buf) > 0);
    break;
  }
}

static void c03(int kind)
{
  struct epoll_event ev[4];
  int budget = mc_param(), n, want_log[4], wn, i, c;

  begin();
  tkind = kind;
  tsock = kind != SIM_EVENTFD;
  tc = NULL;
  tclosed = 0;
  tbudget = 2;
  tref = epoll_create1(0);
  td = malloc(sizeof *td);
  descriptor_construct(td, t_cb, NULL);
  MC_CHECK(!descriptor_is_open(td), "open before it was opened");
  if (kind == SIM_EVENTFD)
    tefd = eventfd(0, EFD_NONBLOCK);
  else
  {
    tc = sim_conn_new(kind, 64);
    tefd = tc->fd;
  }
  tmask = mc_choose(8, "mask");
  descriptor_open(td, tefd, tmask);
  MC_CHECK(descriptor_is_open(td) && descriptor_fd(td) == tefd, "wrong descriptor");
  epoll_ctl(tref, EPOLL_CTL_ADD, tefd, (struct epoll_event[]) {{.events = want(tmask)}});
  while (!tclosed)
  {
    mc_state(mc_mix(sim_hash(), tmask * 100 + budget * 4 + tbudget));
    MC_CHECK(sim_ready_on(tref) == sim_ready_on(sim_epoll_fd() == tref ? tref - 1 : sim_epoll_fd()),
             "readiness is %s although the interest set says otherwise", sim_ready_on(tref) ? "not reported" : "reported");
    if (!budget)
      break;
    budget--;
    c = mc_choose(sim_ready_on(tref) ? 15 : 14, "next: environment 0-5, mask 6-12, close 13, turn 14");
    mc_step();
    if (c < 6)
      c03_env(c);
    else if (c < 13)
      t_setmask((tmask + c - 5) & 7);
    else if (c == 13)
      t_close();
    else
    {
      n = epoll_wait(tref, ev, 4, 0);
      wn = 0;
      if (n == 1)
      {
        if (ev[0].events & EPOLLIN)
          want_log[wn++] = DESCRIPTOR_READ;
        if (ev[0].events & EPOLLOUT)
          want_log[wn++] = DESCRIPTOR_WRITE;
        if (ev[0].events & (EPOLLHUP | EPOLLRDHUP | EPOLLERR))
          want_log[wn++] = DESCRIPTOR_CLOSE;
      }
      tn = 0;
      reactor_loop_once();
      MC_CHECK(tn <= wn, "%s delivered but not due", tname(tlog[wn < tn ? wn : 0]));
      for (i = 0; i < tn; i++)
        MC_CHECK(tlog[i] == want_log[i], "event %d is %s, due %s", i, tname(tlog[i]), tname(want_log[i]));
      MC_CHECK(tclosed || tn == wn, "%s due and not delivered", tname(want_log[tn]));
    }
  }
  close(tref);
  descriptor_destruct(td);
  descriptor_destruct(td);
  free(td);
  end();
}
static void c03_sock(void) { c03(SIM_SOCK); }
static void c03_event(void) { c03(SIM_EVENTFD); }
static void c03_pipe_r(void) { c03(SIM_PIPE_R); }
static void c03_pipe_w(void) { c03(SIM_PIPE_W); }

/* without a callback every event is ignored */
static void c03_null(void)
{
  sim_conn *c;
  descriptor d;
  int k;

  begin();
  descriptor_construct(&d, NULL, NULL);
  c = sim_conn_new(SIM_SOCK, 64);
  descriptor_open(&d, c->fd, mc_choose(8, "mask"));
  k = mc_choose(3, "data, end, reset");
  if (k == 0)
    sim_peer_send(c, "x", 1);
  else if (k == 1)
    sim_peer_fin(c);
  else
    sim_peer_rst(c);
  for (k = 0; k < 3 && sim_ready(); k++)
    reactor_loop_once();
  mc_step();
  mc_state(k);
  descriptor_destruct(&d);
  end();
}

/* ------------------------------------------------------------------ C04: the loop's clock */

static int k_turn, k_have, k_budget;
static uint64_t k_value, k_wake, k_last;
static descriptor kd[3];

static void k_query(void)
{
  uint64_t v = reactor_now();

  mc_outcome(v & 0xffffff);
  if (k_have)
    MC_CHECK(v == k_value, "the loop's clock moved from %llu to %llu within one turn", (unsigned long long) k_value, (unsigned long long) v);
  else
  {
    MC_CHECK(v >= k_wake && v <= sim_now(), "the loop's clock says %llu, the turn began at %llu and it is %llu",
             (unsigned long long) v, (unsigned long long) k_wake, (unsigned long long) sim_now());
    MC_CHECK(v >= k_last, "the loop's clock went backwards");
  }
  k_have = 1;
  k_value = k_last = v;
}

static void k_cb(reactor_event *e)
{
  uint64_t v;
  int i = (int) (intptr_t) e->state, k;

  if (read(descriptor_fd(&kd[i]), &v, 8) != 8)
    mc_fail("not readable");
  for (k = 0; k < 2; k++)
  {
    mc_step();
    switch (mc_choose(3, "in callback: query, time passes, nothing"))
    {
    case 0:
      k_query();
      break;
    case 1:
      sim_advance(k ? 1 : 1500000000);
      break;
    }
  }
}

static int k_block(int epfd)
{
  int c, i;
  uint64_t one = 1;

  (void) epfd;
  if (k_budget-- <= 0)
  {
    reactor_abort();
    return -1;
  }
  sim_advance(mc_choose(2, "time passes while waiting") ? 3000000000ull : 0);
  c = 1 + mc_choose(3, "readiness of 0, 1, both");
  for (i = 0; i < 2; i++)
    if (c >> i & 1)
      if (write(descriptor_fd(&kd[i]), &one, 8) != 8)
        mc_error("write");
  mc_state(mc_mix(sim_hash(), k_budget + sim_now()));
  k_turn++;
  k_have = 0;
  k_wake = sim_now();
  return 0;
}

static void c04(void)
{
  int i;

  sim_reset();
  mem0 = mc_mem_live();
  if (mc_choose(2, "near a second boundary"))
    sim_set_now(sim_now() + 999999999);
  k_last = k_wake = sim_now();
  k_have = 0;
  k_budget = mc_param();
  reactor_construct();
  if (mc_choose(2, "query before the loop"))
  {
    k_query();
    k_have = 0;
  }
  for (i = 0; i < 2; i++)
  {
    descriptor_construct(&kd[i], k_cb, (void *) (intptr_t) i);
    descriptor_open(&kd[i], eventfd(0, EFD_NONBLOCK), DESCRIPTOR_READ);
  }
  sim_on_block = k_block;
  reactor_loop();
  sim_on_block = NULL;
  for (i = 0; i < 2; i++)
    descriptor_destruct(&kd[i]);
  end();
}

const mc_scenario mc_scenarios[] = {
  {"C01", "core", c01_core, 0, 0, 4, 5, 4, 0},
  {"C01", "descriptor", c01_desc, 0, 0, 4, 5, 4, 0},
  {"C01", "level", c01_level, 0, 0, 4, 5, 4, 0},
  {"C01", "four", c01_four, 0, 0, 3, 4, 4, 0},
  {"C01", "multi", c01_multi, 0, 0, 3, 4, 4, 0},
  {"C01", "many", c01_many, 0, 0, 32, 40, 2, 0},
  {"C01", "modify", c01_modify, 0, 0, 3, 4, 3, 0},
  {"C02", "loop", c02_loop, 0, 0, 3, 4, 5, 0},
  {"C02", "window", c02_window, 0, 0, 0, 0, 1, MC_SINGLE},
  {"C02", "fair", c02_fair, 0, 0, 0, 0, 1, 0},
  {"C03", "socket", c03_sock, 0, 0, 4, 5, 3, 0},
  {"C03", "eventfd", c03_event, 0, 0, 4, 5, 3, 0},
  {"C03", "pipe-read", c03_pipe_r, 0, 0, 4, 5, 3, 0},
  {"C03", "pipe-write", c03_pipe_w, 0, 0, 4, 5, 3, 0},
  {"C03", "no-callback", c03_null, 0, 0, 0, 0, 1, MC_SINGLE},
  {"C04", "clock", c04, 0, 0, 2, 3, 4, 0},
  {0}
};
