/* C05: two threads, each with its own event loop; each must observe exactly what it observes when it runs alone. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"
#include "msched.h"

#define N(a) ((int) (sizeof a / sizeof a[0]))
#define LOG 4096
typedef struct
{
  int prog, tid;
  char log[LOG];
  int len;
  event *e[4];
  stream *st;
  server *sv;
  timer *tm;
  notify *nf;
  uint64_t t0;
  int n;
} ctx;

static void note(ctx *c, const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  c->len += vsnprintf(c->log + c->len, LOG - c->len, fmt, ap);
  va_end(ap);
  if (c->len >= LOG - 1)
    mc_error("log");
  c->log[c->len++] = '\n';
  c->log[c->len] = 0;
  mc_note("      [%d] %s", sched_self(), c->log + (c->len > 80 ? c->len - 80 : 0));
  MC_CHECK(sched_self() == c->tid, "a callback of thread %d's loop runs in thread %d", c->tid, sched_self());
}
static void step(const char *what) { mc_step(); sched_point(what); }

/* ---- programs ---- */
static void ev_cb(reactor_event *r)
{
  ctx *c = r->state;
  note(c, "signal %d/%llu", r->type, (unsigned long long) r->data);
  step("in a callback");
  switch (c->prog)
  {
  case 0: /* the first closes the others of the batch */
    event_close(c->e[1]);
    event_close(c->e[2]);
    event_close(c->e[0]);
    break;
  case 1: /* abort with registrations left */
    if (++c->n == 2)
      reactor_abort();
    break;
  case 2: /* the loop ends when nothing is registered any more */
    if (++c->n < 3)
      event_signal(c->e[0]);
    else
      event_close(c->e[0]);
    break;
  case 3: /* the clock stands still within a turn and goes on afterwards */
    {
      uint64_t a = reactor_now();
      step("between two readings of the clock");
      sim_advance(1000);
      step("between two readings of the clock");
      note(c, "clock %s, %s", a == reactor_now() ? "stands" : "moves", a > c->t0 || !c->t0 ? "later" : "not later");
      c->t0 = a;
      if (++c->n < 2)
        event_signal(c->e[0]);
      else
        event_close(c->e[0]);
    }
    break;
  }
}
static void *fresh(size_t n) { return sched_new(n, "object"); }

static void p_events(ctx *c, int objects, int signals)
{
  int i, k;
  for (i = 0; i < objects; i++)
  {
    c->e[i] = fresh(sizeof(event));
    event_construct(c->e[i], ev_cb, c);
    event_open(c->e[i]);
    step("between actions");
  }
  for (i = 0; i < objects; i++)
    for (k = 0; k < signals; k++)
      event_signal(c->e[i]);
  step("between actions");
  reactor_loop();
  note(c, "loop ended");
  step("between actions");
  for (i = 0; i < objects; i++)
  {
    note(c, "event %d %s", i, event_is_open(c->e[i]) ? "open" : "closed");
    event_destruct(c->e[i]);
    sched_delete(c->e[i]);
  }
}

static void st_cb(reactor_event *r)
{
  ctx *c = r->state;
  data d;
  switch (r->type)
  {
  case STREAM_READ:
    d = stream_read(c->st);
    note(c, "read %.*s", (int) data_size(d), (char *) data_base(d));
    step("in a callback");
    stream_write(c->st, d);
    stream_consume(c->st, data_size(d));
    stream_flush(c->st);
    break;
  case STREAM_WRITE: note(c, "write"); break;
  default: note(c, "close"); stream_close(c->st); break;
  }
}
static void p_stream(ctx *c)
{
  sim_conn *k = sim_conn_new(SIM_SOCK, 1000);
  char b[64];
  c->st = fresh(sizeof(stream));
  stream_construct(c->st, st_cb, c);
  stream_open(c->st, k->fd, STREAM_READ, NULL);
  step("between actions");
  snprintf(b, sizeof b, "hello");
  sim_peer_send(k, b, strlen(b));
  reactor_loop_once();
  step("between actions");
  note(c, "sent %.*s", (int) k->txlen, k->tx);
  stream_notify(c->st);
  reactor_loop_once();
  sim_peer_fin(k);
  reactor_loop();
  note(c, "loop ended");
  stream_destruct(c->st);
  sched_delete(c->st);
}

/* the other side goes away: writing to it is an error, not the end of the process */
static void p_gone(ctx *c)
{
  sim_conn *k = sim_conn_new(SIM_SOCK, 1000);
  c->st = fresh(sizeof(stream));
  stream_construct(c->st, st_cb, c);
  stream_open(c->st, k->fd, STREAM_READ, NULL);
  sim_peer_fin(k);
  sim_peer_rst(k);
  step("between actions");
  stream_write(c->st, data_string("hello"));
  stream_flush(c->st);
  stream_write(c->st, data_string("hello"));
  stream_flush(c->st);
  step("between actions");
  reactor_loop();
  note(c, "loop ended");
  stream_destruct(c->st);
  sched_delete(c->st);
}

/* file changes */
static void nf_cb(reactor_event *r)
{
  ctx *c = r->state;
  notify_event *v = (notify_event *) r->data;
  note(c, "change %d/%x in %s: %s", v->id, v->mask, v->path + 2, v->name ? v->name : "-");
  step("in a callback");
  if (++c->n == 3)
    notify_clear(c->nf);
}
static void p_notify(ctx *c)
{
  int fd;
  char a[] = "/?/a", b[] = "/?/b";
  a[1] = b[1] = '0' + c->tid;
  c->nf = fresh(sizeof(notify));
  notify_construct(c->nf, nf_cb, c);
  step("between actions");
  note(c, "watch %d", notify_watch(c->nf, a, 0x100));
  note(c, "watch %d", notify_watch(c->nf, b, 0x2));
  step("between actions");
  for (fd = SIM_FD_BASE; sim_kind(fd) != SIM_INOTIFY || sim_inotify_wd(fd, a) < 0; fd++)
    MC_CHECK(fd < SIM_FD_BASE + SIM_FDS, "no inotify descriptor watches the path");
  sim_inotify_emit(fd, 1, 0x100, "x");
  sim_inotify_emit(fd, 2, 2, NULL);
  sim_inotify_emit(fd, 1, 0x100, "yy");
  reactor_loop();
  note(c, "loop ended");
  notify_destruct(c->nf);
  sched_delete(c->nf);
}

static void tm_cb(reactor_event *r)
{
  ctx *c = r->state;
  note(c, "timer %d/%llu", r->type, (unsigned long long) r->data);
  step("in a callback");
  if (++c->n == 2)
    timer_clear(c->tm);
}
static void p_timer(ctx *c)
{
  c->tm = fresh(sizeof(timer));
  timer_construct(c->tm, tm_cb, c);
  timer_set(c->tm, 0, 0);
  step("between actions");
  sim_advance(1000);
  reactor_loop_once();
  timer_set(c->tm, 0, 0);
  step("between actions");
  sim_advance(1000);
  reactor_loop();
  note(c, "loop ended");
  timer_destruct(c->tm);
  sched_delete(c->tm);
}

static void sv_cb(reactor_event *r)
{
  ctx *c = r->state;
  server_request *q = (server_request *) r->data;
  note(c, "request %.*s", (int) data_size(q->target), (char *) data_base(q->target));
  step("in a callback");
  if (data_size(q->target) == 2)
    server_ok(q, data_string("text/plain"), data_string("ok"));
  else
    server_not_found(q);
}
static void p_server(ctx *c)
{
  static const char q[] = "GET /a HTTP/1.1\r\n\r\nGET /bb HTTP/1.1\r\nA: b\r\n\r\nX\1";
  int lfd = sim_listen_new();
  sim_conn *k;
  c->sv = fresh(sizeof(server));
  server_construct(c->sv, sv_cb, c);
  server_open(c->sv, lfd, NULL);
  step("between actions");
  k = sim_listen_connect(lfd, 100000);
  sim_peer_send(k, q, sizeof q - 1);
  while (!k->closed)
  {
    reactor_loop_once();
    step("between actions");
    sim_peer_take(k, -1);
  }
  sim_peer_take(k, -1);
  note(c, "%.*s", (int) k->gotlen, k->got);
  server_shutdown(c->sv);
  step("between actions");
  reactor_loop();
  note(c, "loop ended");
  server_destruct(c->sv);
  sched_delete(c->sv);
}

static void *run(void *p)
{
  ctx *c = p;
  c->tid = sched_self();
  step("start");
  reactor_construct();
  step("between actions");
  switch (c->prog)
  {
  case 0: p_events(c, 3, 1); break;
  case 1: p_events(c, 1, 5); break;
  case 2: p_events(c, 1, 1); break;
  case 3: p_events(c, 1, 1); break;
  case 4: p_stream(c); break;
  case 5: p_timer(c); break;
  case 6: p_server(c); break;
  case 7: p_gone(c); break;
  case 8: p_notify(c); break;
  }
  step("between actions");
  reactor_destruct();
  return NULL;
}
#define PROGS 9
static const char *pname[] = {"events closed by a callback", "abort", "signals until closed", "clock", "stream", "timer", "server", "peer gone", "notify"};

static char alone[PROGS][LOG];

static void pair(int a, int b, int points)
{
  static ctx c[2];
  int i, p;

  for (i = 0; i < 2; i++)
  {
    p = i ? b : a;
    if (*alone[p])
      continue;
    memset(c, 0, sizeof c);
    c[0].prog = p;
    signal(SIGPIPE, SIG_DFL);
    sim_reset();
    sched_memory_points = 0;
    sched_begin();
    sched_spawn(run, &c[0], pname[p]);
    sched_end(1);
    memcpy(alone[p], c[0].log, LOG);
  }
  memset(c, 0, sizeof c);
  signal(SIGPIPE, SIG_DFL);
  c[0].prog = a;
  c[1].prog = b;
  sim_reset();
  sched_memory_points = points;
  sched_state_base = a * 16 + b;
  sched_begin();
  sched_spawn(run, &c[0], pname[a]);
  sched_spawn(run, &c[1], pname[b]);
  sched_end(1);
  for (i = 0; i < 2; i++)
    MC_CHECK(!strcmp(c[i].log, alone[c[i].prog]), "thread %d (%s) observes\n%snext to a thread with %s, but alone\n%s", i + 1, pname[c[i].prog], c[i].log, pname[c[!i].prog], alone[c[i].prog]);
  MC_CHECK(sim_open_fds() == 0, "descriptors left open:%s", sim_open_list());
}

static void threads_calls(void)
{
  int a = mc_choose(PROGS, "first thread"), b = mc_choose(PROGS - a, "second thread") + a;
  mc_choose(1, "-");
  pair(a, b, 2);
}
static void threads_memory(void)
{
  static const int light[] = {0, 1, 2, 3, 4, 5, 7, 8};
  int a = mc_choose(N(light), "first thread"), b = mc_choose(N(light) - a, "second thread") + a;
  pair(light[a], light[b], 1);
}
static void threads_server(void)
{
  int b = mc_choose(PROGS, "second thread");
  pair(6, b, 1);
}

const mc_scenario mc_scenarios[] = {
  {"C05", "calls", threads_calls, 3, 4, 0, 0, 2, 0},
  {"C05", "memory", threads_memory, 2, 3, 0, 0, 2, 0},
  {"C05", "server-memory", threads_server, 1, 2, 0, 0, 1, 0},
  {NULL}
};
