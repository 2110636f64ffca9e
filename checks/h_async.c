/* C33, C34: asynchronous calls and name lookups, every interleaving of owner and worker up to a number of preemptions. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <netdb.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"
#include "msched.h"

#define N(a) ((int) (sizeof a / sizeof a[0]))
#define MAXG 330
#define OBJS 2

enum { A_NONE, A_CALL, A_CANCEL, A_DESTROY, A_TURN, A_OPEN, A_ALIVE, A_CONSTRUCT, A_MUTATE };
static const char *aname[] = {"nothing", "call", "cancel", "destroy", "turn", "gate opens", "tick", "construct", "caller changes its strings"};
enum { B_PLAIN, B_STEPS, B_GATE, B_GATE_DEAF, B_KINDS }; /* what the call does */

typedef struct { int obj, called, returned, done, cancelled, gate, value, body, worker; char host[1100], serv[1100]; int nohost, noserv, family, type, flags, fails, resolving, resolved; } gen_t;
typedef struct { void *o; int alive, gen, outstanding, holds_result; } obj_t;

static gen_t G[MAXG];
static int ng, react, deep, body;
static obj_t O[OBJS];

/* ---- C33 ---- */
static void call_act(int i, int a);
static void res_act(int i, int a, int variant);
static void res_begin(void);
static void res_finish(int objs);

static int gate_open(void *p) { return ((gen_t *) p)->gate; }

static void async_cb(reactor_event *e)
{
  obj_t *o = e->state;
  gen_t *g = o->gen >= 0 ? &G[o->gen] : NULL;
  int i;

  switch (e->type)
  {
  case ASYNC_CALL:
    MC_CHECK(sched_self() > 0, "the call runs in the owner's thread");
    /* the call belongs to the generation that was current when its thread was made */
    for (g = NULL, i = 0; i < ng; i++)
      if (G[i].worker == sched_self())
        g = &G[i];
    MC_CHECK(g, "a call runs in a thread that was not made for it");
    MC_CHECK(g->obj == (int) (o - O), "the call of another object runs");
    MC_CHECK(!g->cancelled, "a call that was cancelled before begins");
    MC_CHECK(!g->called, "the call runs twice");
    g->called = 1;
    mc_note("      call %d runs", (int) (g - G));
    switch (g->body)
    {
    case B_STEPS:
      for (i = 0; i < 3; i++)
      {
        sched_point("in the call");
        MC_CHECK(!g->cancelled, "the call still runs after cancelling has returned");
      }
      break;
    case B_GATE:
      sched_block(gate_open, g, 1, "in the call, waiting for the owner");
      break;
    case B_GATE_DEAF:
      usleep(0);
      sched_point("in the call");
      break;
    }
    MC_CHECK(!g->cancelled, "the call still runs after cancelling has returned");
    g->value = 42 + (int) (g - G);
    g->returned = 1;
    break;
  case ASYNC_DONE:
    MC_CHECK(sched_self() == 0, "completion is reported in another thread");
    MC_CHECK(o->alive, "completion is reported for a destroyed object");
    MC_CHECK(o->outstanding && g, "completion is reported although no call is outstanding");
    MC_CHECK(!g->cancelled, "completion is reported after cancelling");
    MC_CHECK(g->returned, "completion is reported before the call has returned");
    MC_CHECK(g->value == 42 + (int) (g - G), "the effects of the call are not visible");
    MC_CHECK(!g->done, "completion is reported twice");
    g->done = 1;
    o->outstanding = 0;
    mc_note("      call %d is done", (int) (g - G));
    mc_step();
    if (react)
    {
      static const int re[] = {A_NONE, A_CALL, A_CANCEL, A_DESTROY};
      i = react - 1;
      react = 0;
      call_act(o - O, re[i]);
    }
    break;
  default:
    mc_fail("event %d", e->type);
  }
}

static void called_off(obj_t *o)
{
  if (o->outstanding)
  {
    G[o->gen].cancelled = 1;
  }
  o->outstanding = 0;
}

static void tick_cb(reactor_event *e) { (void) e; }

static void call_act(int i, int a)
{
  obj_t *o = &O[i];
  int n;

  mc_note("  %s (%d)", aname[a], i);
  switch (a)
  {
  case A_CALL:
    if (!o->alive || o->outstanding || ng == MAXG)
      return;
    G[ng] = (gen_t) {.obj = i, .body = body, .worker = sched_created()};
    o->gen = ng++;
    o->outstanding = 1;
    sched_fence_off(o->o, sched_created());
    async_call(o->o);
    MC_CHECK(sched_created() == G[o->gen].worker + 1, "%d threads were made for one call", sched_created() - G[o->gen].worker);
    break;
  case A_CANCEL:
    if (!o->alive)
      return;
    async_cancel(o->o);
    called_off(o);
    sched_fence_off(o->o, sched_created());
    break;
  case A_DESTROY:
    if (!o->alive)
      return;
    async_destruct(o->o);
    called_off(o);
    o->alive = 0;
    sched_delete(o->o);
    break;
  case A_CONSTRUCT:
    if (o->alive)
      return;
    o->o = sched_new(sizeof(async), "async object");
    o->alive = 1;
    o->outstanding = 0;
    o->gen = -1;
    async_construct(o->o, async_cb, o);
    break;
  case A_TURN:
    for (n = i = 0; i < OBJS; i++)
      if (O[i].alive && O[i].outstanding)
      {
        if (G[O[i].gen].body == B_GATE && !G[O[i].gen].gate)
          continue; /* it waits for the owner */
        n++;
      }
    if (!n)
      return;
    reactor_loop_once();
    break;
  case A_OPEN:
    for (i = 0; i < ng; i++)
      G[i].gate = 1;
    break;
  }
  mc_step();
  if (sched_self() == 0)
    sched_point("between actions");
}

static void hash_state(int k)
{
  uint64_t h = sim_hash();
  int i;
  for (i = 0; i < ng; i++)
    h = mc_mix(h, G[i].called | G[i].returned << 1 | G[i].done << 2 | G[i].cancelled << 3 | G[i].gate << 4);
  for (i = 0; i < OBJS; i++)
    h = mc_mix(h, O[i].alive | O[i].outstanding << 1 | (O[i].gen + 1) << 2);
  mc_state(mc_mix(h, k));
}

static void begin(void)
{
  sim_reset();
  ng = react = 0;
  memset(O, 0, sizeof O);
  sched_begin();
  reactor_construct();
}

static void wind_up(int objs)
{
  int i, n;
  /* what is still outstanding completes */
  call_act(0, A_OPEN);
  for (n = 0; n < 40; n++)
  {
    for (i = 0; i < objs && !(O[i].alive && O[i].outstanding); i++);
    if (i == objs)
      break;
    call_act(i, A_OPEN);
    call_act(i, A_TURN);
  }
  for (i = 0; i < ng; i++)
    MC_CHECK(G[i].cancelled ? !G[i].done : G[i].done && G[i].called, "call %d: %s, %s", i, G[i].cancelled ? "cancelled" : "not cancelled", G[i].done ? "reported" : "not reported");
  react = 0;
}

static void finish(int objs)
{
  int i;
  for (i = 0; i < objs; i++)
    call_act(i, A_DESTROY);
  reactor_destruct();
  sched_end(1);
  MC_CHECK(sim_open_fds() == 0, "descriptors left open:%s", sim_open_list());
  mc_outcome(sim_hash());
}

static void program(int *p, int n, int r)
{
  int i;
  sched_state_base = mc_mix(body, r);
  for (i = 0; i < n; i++)
    sched_state_base = mc_mix(sched_state_base, p[i]);
}

static void async_programs(void)
{
  static const int acts[] = {A_CALL, A_CANCEL, A_DESTROY, A_TURN, A_CONSTRUCT, A_OPEN};
  int prog[8], n = mc_param(), i, r, r2;

  body = mc_choose(B_KINDS, "the call: returns, takes steps, waits until cancelled or released, takes steps without a cancellation point");
  r = mc_choose(4, "in the completion callback: nothing, call again, cancel, destroy");
  for (i = 0; i < n; i++)
    if (!(prog[i] = mc_choose(N(acts) + 1, "action (0: end)")))
      break;
  for (r2 = i; r2 < n; r2++)
    mc_choose(1, "(end)"); /* a fixed number of choices before threads run */
  n = i;
  program(prog, n, r);
  begin();
  react = r + 1;
  call_act(0, A_CONSTRUCT);
  call_act(0, A_CALL);
  for (i = 0; i < n; i++)
  {
    hash_state(i);
    call_act(0, acts[prog[i] - 1]);
  }
  wind_up(1);
  finish(1);
}

/* two objects at once */
static void async_two(void)
{
  static const int acts[] = {A_CALL, A_CANCEL, A_DESTROY, A_TURN};
  int prog[8], who[8], n = mc_param(), i, r, r2;

  body = mc_choose(2, "the call: returns, takes steps");
  r = mc_choose(4, "in the completion callback: nothing, call again, cancel, destroy");
  for (i = 0; i < n; i++)
  {
    if (!(prog[i] = mc_choose(N(acts) + 1, "action (0: end)")))
      break;
    who[i] = mc_choose(2, "object");
  }
  for (r2 = i; r2 < n; r2++)
    mc_choose(1, "(end)"); /* a fixed number of choices before threads run */
  n = i;
  program(prog, n, r);
  begin();
  react = r + 1;
  call_act(0, A_CONSTRUCT);
  call_act(1, A_CONSTRUCT);
  call_act(0, A_CALL);
  call_act(1, A_CALL);
  for (i = 0; i < n; i++)
  {
    hash_state(i);
    call_act(who[i], acts[prog[i] - 1]);
  }
  wind_up(2);
  finish(2);
}

/* hundreds of calls on one object, one after the other */
static void sequence(int lookups)
{
  int mode = mc_choose(lookups ? 4 : 3, "every call completes, is cancelled, by turns, (superseded by the next)"), n, i;

  body = B_PLAIN;
  mc_choose(1, "(end)");
  sched_memory_points = 0;
  if (lookups)
    res_begin();
  else
    begin();
  react = 0;
  if (lookups)
    res_act(0, A_CONSTRUCT, 0);
  else
    call_act(0, A_CONSTRUCT);
  for (n = 0; n < mc_param(); n++)
  {
    if (lookups)
      res_act(0, A_CALL, n);
    else
      call_act(0, A_CALL);
    if (mode == 1 || (mode == 2 && n % 2))
    {
      if (lookups)
        res_act(0, A_CANCEL, 0);
      else
        call_act(0, A_CANCEL);
    }
    else if (mode != 3 || n % 16 == 15)
    {
      call_act(0, A_TURN);
      MC_CHECK(!O[0].outstanding, "call %d does not complete", n);
    }
    for (i = n; mode != 3 && i <= n; i++)
      MC_CHECK(sched_alive() == 1, "the thread of call %d is still there", n);
    hash_state(n);
  }
  if (lookups)
    res_finish(1);
  else
  {
    wind_up(1);
    finish(1);
  }
  sched_memory_points = 1;
}
static void async_sequence(void) { sequence(0); }
static void resolver_sequence(void) { sequence(1); }

/* ---- C34 ---- */
static void res_act(int i, int a, int variant);
static int react_variant;

static void resolving(const char *host, const char *serv, const struct addrinfo *hints, int after)
{
  gen_t *g = NULL;
  int i;
  for (i = 0; i < ng; i++)
    if (G[i].worker == sched_self())
      g = &G[i];
  MC_CHECK(g, "a name is looked up in a thread that was not made for it");
  for (i = 0; i < 2; i++)
  {
    MC_CHECK(!g->cancelled, "a cancelled lookup is %s", after ? "still under way" : "begun");
    MC_CHECK(g->nohost ? !host : host != NULL, "host %s", host ? "given" : "missing");
    MC_CHECK(g->noserv ? !serv : serv != NULL, "service %s", serv ? "given" : "missing");
    if (host)
    {
      sched_check(host, strlen(g->host) + 1, "host name");
      MC_CHECK(!strcmp(host, g->host), "the host looked up is '%.20s', given was '%s'", host, g->host);
    }
    if (serv)
    {
      sched_check(serv, strlen(g->serv) + 1, "service name");
      MC_CHECK(!strcmp(serv, g->serv), "the service looked up is '%.20s', given was '%s'", serv, g->serv);
    }
    MC_CHECK(hints && hints->ai_family == g->family && hints->ai_socktype == g->type && hints->ai_flags == g->flags, "family %d type %d flags %d, given were %d %d %d", hints->ai_family, hints->ai_socktype, hints->ai_flags, g->family, g->type, g->flags);
    if (!i)
      sched_cancel_point("resolving");
  }
  if (!after)
  {
    MC_CHECK(!g->called, "the name is looked up twice");
    g->called = 1;
    if (g->body == B_GATE)
      sched_block(gate_open, g, 1, "resolving");
  }
  else
    g->returned = 1;
}

static int resolve_fault(int op)
{
  int i;
  if (op != SIM_OP_GETADDRINFO)
    return 0;
  for (i = 0; i < ng; i++)
    if (G[i].worker == sched_self())
      return G[i].fails ? EAI_NONAME : 0;
  return 0;
}

static void resolver_cb(reactor_event *e)
{
  obj_t *o = e->state;
  gen_t *g = o->gen >= 0 ? &G[o->gen] : NULL;
  struct addrinfo *ai;
  int i;

  MC_CHECK(sched_self() == 0, "the result is reported in another thread");
  MC_CHECK(o->alive, "a result is reported for a destroyed resolver");
  MC_CHECK(o->outstanding && g, "a result is reported although no lookup is outstanding");
  MC_CHECK(!g->cancelled && !g->done, "a result is reported %s", g->done ? "twice" : "after cancelling");
  MC_CHECK(g->returned, "a result is reported before the lookup has ended");
  g->done = 1;
  o->outstanding = 0;
  mc_note("      result of lookup %d: %s", (int) (g - G), e->type == RESOLVER_SUCCESS ? "success" : "failure");
  MC_CHECK(e->type == (g->fails ? RESOLVER_FAILURE : RESOLVER_SUCCESS), "event %d for a lookup that %s", e->type, g->fails ? "failed" : "succeeded");
  ai = (struct addrinfo *) e->data;
  MC_CHECK(g->fails ? !ai : ai != NULL, "result %p", (void *) ai);
  if (ai)
  {
    struct sockaddr_in *sin = (struct sockaddr_in *) ai->ai_addr;
    MC_CHECK(ai->ai_socktype == (g->type ? g->type : SOCK_STREAM) && ai->ai_flags == g->flags, "the result is not the resolver's answer");
    MC_CHECK(ntohl(sin->sin_addr.s_addr) == (g->nohost || !g->host[0] ? 0 : 0x7f000000u + (unsigned char) g->host[0]), "the result is that of another host");
    MC_CHECK(ntohs(sin->sin_port) == (g->noserv ? 0 : atoi(g->serv)), "the result is that of another service");
  }
  mc_step();
  if (react)
  {
    i = react;
    react = 0;
    res_act(o - O, i, react_variant);
  }
}

static char arg_host[1100], arg_serv[1100];
typedef struct { const char *h, *s; int family, type, flags, fails; } look_t;
static look_t special;
static void res_act(int i, int a, int variant)
{
  look_t look[] = {
    {"alpha", "80", AF_UNSPEC, SOCK_STREAM, 0, 0}, {"bravo", "8080", AF_INET, SOCK_DGRAM, AI_NUMERICHOST, 0}, {"xray", "80", AF_UNSPEC, SOCK_STREAM, 0, 1},
    {NULL, "1234", AF_INET, SOCK_STREAM, AI_PASSIVE, 0}, {"charlie", NULL, AF_UNSPEC, 0, 0, 0}, {"yankee", NULL, AF_INET6, SOCK_STREAM, 0, 1}, special};
  obj_t *o = &O[i];
  int n;

  mc_note("  %s (%d)", a == A_CALL ? "lookup" : aname[a], i);
  switch (a)
  {
  case A_CALL:
    if (!o->alive || ng == MAXG)
      return;
    if (variant != N(look) - 1)
      variant %= N(look) - 1;
    if (o->outstanding)
      G[o->gen].resolved = 1; /* superseded below */
    G[ng] = (gen_t) {.obj = i, .body = body, .worker = sched_created(), .nohost = !look[variant].h, .noserv = !look[variant].s, .family = look[variant].family,
                     .type = look[variant].type, .flags = look[variant].flags, .fails = look[variant].fails};
    strcpy(G[ng].host, look[variant].h ? look[variant].h : "");
    strcpy(G[ng].serv, look[variant].s ? look[variant].s : "");
    strcpy(arg_host, G[ng].host);
    strcpy(arg_serv, G[ng].serv);
    n = o->gen;
    {
      int was = o->outstanding;
      /* the new thread is counted when it is made; the old one must be gone by then */
      o->gen = ng++;
      o->outstanding = 1;
      resolver_lookup(o->o, look[variant].h ? arg_host : NULL, look[variant].s ? arg_serv : NULL, look[variant].family, look[variant].type, 0, look[variant].flags);
      if (was)
        G[n].cancelled = 1;
      MC_CHECK(sched_created() == G[o->gen].worker + 1, "%d threads were made for one lookup", sched_created() - G[o->gen].worker);
    }
    memset(arg_host, 'z', strlen(arg_host) + 5);
    memset(arg_serv, '9', strlen(arg_serv) + 5);
    sched_fence_off(o->o, G[o->gen].worker);
    break;
  case A_CANCEL:
    if (!o->alive)
      return;
    resolver_cancel(o->o);
    called_off(o);
    sched_fence_off(o->o, sched_created());
    break;
  case A_ALIVE:
    if (!o->alive || o->outstanding)
      return;
    resolver_clear(o->o);
    break;
  case A_DESTROY:
    if (!o->alive)
      return;
    resolver_destruct(o->o);
    called_off(o);
    o->alive = 0;
    sched_delete(o->o);
    break;
  case A_CONSTRUCT:
    if (o->alive)
      return;
    o->o = sched_new(sizeof(resolver), "resolver");
    o->alive = 1;
    o->outstanding = 0;
    o->gen = -1;
    resolver_construct(o->o, resolver_cb, o);
    break;
  case A_TURN: case A_OPEN:
    call_act(i, a);
    return;
  }
  mc_step();
  if (sched_self() == 0)
    sched_point("between actions");
}

static void res_begin(void)
{
  begin();
  sim_getaddrinfo_on = 1;
  sim_getaddrinfo_hook = resolving;
  sim_fault = resolve_fault;
}

static void res_finish(int objs)
{
  int i;
  wind_up(objs);
  for (i = 0; i < objs; i++)
    res_act(i, A_DESTROY, 0);
  reactor_destruct();
  sched_end(1);
  MC_CHECK(sim_addrinfo_live() == 0, "%d address lists are left", sim_addrinfo_live());
  MC_CHECK(sim_open_fds() == 0, "descriptors left open:%s", sim_open_list());
  mc_outcome(sim_hash());
}

static void resolver_programs(void)
{
  static const int acts[] = {A_CALL, A_CANCEL, A_DESTROY, A_TURN, A_ALIVE, A_OPEN};
  static const int re[] = {A_NONE, A_CALL, A_CANCEL, A_DESTROY, A_ALIVE};
  int prog[8], n = mc_param(), i, r, v, r2;

  body = mc_choose(2, "the resolver: answers, waits") ? B_GATE : B_PLAIN;
  v = mc_choose(6, "lookup");
  r = re[mc_choose(N(re), "in the result callback: nothing, look up again, cancel, destroy, clear")];
  for (i = 0; i < n; i++)
    if (!(prog[i] = mc_choose(N(acts) + 1, "action (0: end)")))
      break;
  for (r2 = i; r2 < n; r2++)
    mc_choose(1, "(end)"); /* a fixed number of choices before threads run */
  n = i;
  program(prog, n, r);
  res_begin();
  react = r;
  react_variant = v + 1;
  res_act(0, A_CONSTRUCT, 0);
  res_act(0, A_CALL, v);
  for (i = 0; i < n; i++)
  {
    hash_state(i);
    if (acts[prog[i] - 1] == A_DESTROY && i + 1 < n)
    {
      res_act(0, A_DESTROY, 0);
      res_act(0, A_CONSTRUCT, 0);
      continue;
    }
    res_act(0, acts[prog[i] - 1], v + 1 + i);
  }
  res_finish(1);
}
static void resolver_two(void)
{
  static const int acts[] = {A_CALL, A_CANCEL, A_DESTROY, A_TURN};
  static const int re[] = {A_NONE, A_CALL, A_CANCEL, A_DESTROY, A_ALIVE};
  int prog[8], who[8], n = mc_param(), i, r, r2;

  body = B_PLAIN;
  r = re[mc_choose(N(re), "in the result callback: nothing, look up again, cancel, destroy, clear")];
  for (i = 0; i < n; i++)
  {
    if (!(prog[i] = mc_choose(N(acts) + 1, "action (0: end)")))
      break;
    who[i] = mc_choose(2, "resolver");
  }
  for (r2 = i; r2 < n; r2++)
    mc_choose(1, "(end)"); /* a fixed number of choices before threads run */
  n = i;
  program(prog, n, r);
  res_begin();
  react = r;
  react_variant = 1;
  res_act(0, A_CONSTRUCT, 0);
  res_act(1, A_CONSTRUCT, 0);
  res_act(0, A_CALL, 0);
  res_act(1, A_CALL, 2);
  for (i = 0; i < n; i++)
  {
    hash_state(i);
    res_act(who[i], acts[prog[i] - 1], i + 3);
  }
  res_finish(2);
}

/* arguments of any length and kind */
static void resolver_arguments(void)
{
  static const int lens[] = {-1, 0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 1090};
  static const int families[] = {AF_UNSPEC, AF_INET, AF_INET6}, types[] = {0, SOCK_STREAM, SOCK_DGRAM}, flags[] = {0, AI_PASSIVE, AI_NUMERICHOST | AI_NUMERICSERV, AI_CANONNAME, 0x7fff};
  static char h[1100], s[1100];
  int lh = lens[mc_choose(N(lens), "host")], ls = lens[mc_choose(N(lens), "service")], k = mc_choose(6, "family, type, flags, failure"), i;

  if (k && lh > 16 && lh != 64 && ls > 16 && ls != 32)
    mc_prune();
  for (i = 0; i < lh; i++)
    h[i] = "a.-9\xc3%:"[(i + i / 7) % 7];
  h[lh < 0 ? 0 : lh] = 0;
  for (i = 0; i < ls; i++)
    s[i] = i < 4 ? '1' + i : 'a' + i % 26;
  s[ls < 0 ? 0 : ls] = 0;
  special = (look_t) {lh < 0 ? NULL : h, ls < 0 ? NULL : s, families[k % 3], types[k / 2], flags[k % 5], k == 5};
  body = B_PLAIN;
  mc_note("host of %d, service of %d bytes", lh, ls);
  mc_state(mc_mix(mc_mix(lh, ls), k));
  mc_choose(1, "(end)");
  res_begin();
  react = 0;
  res_act(0, A_CONSTRUCT, 0);
  res_act(0, A_CALL, 6);
  res_finish(1);
}

const mc_scenario mc_scenarios[] = {
  {"C33", "programs", async_programs, 2, 3, 3, 4, 5, 0},
  {"C33", "two", async_two, 2, 3, 2, 2, 4, 0},
  {"C33", "endurance", async_sequence, 0, 0, 300, 300, 1, 0},
  {"C34", "endurance", resolver_sequence, 0, 0, 300, 300, 1, 0},
  {"C34", "programs", resolver_programs, 2, 3, 2, 3, 4, 0},
  {"C34", "arguments", resolver_arguments, 0, 0, 0, 0, 3, 0},
  {"C34", "two", resolver_two, 2, 2, 1, 2, 2, 0},
  {NULL}
};
