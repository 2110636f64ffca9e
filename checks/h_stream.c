/* C06-C09, C11: plain streams over sockets and pipes, explored against the simulated kernel. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"

#define MAXC 6

/* the owner's view and the peer's view of one connection */
typedef struct
{
  sim_conn *c;
  int       gen;
  uint64_t  wrote, flushed;      /* bytes written to the stream in total, of these: at the last flush */
  uint64_t  verified;            /* accepted bytes compared so far */
  uint64_t  in, consumed;        /* bytes the peer sent, the owner consumed */
  int       fin, rst;            /* peer finished / failed */
  int       notify;              /* notification requested and not delivered */
  int       reads, writes, closes;
  int       mask;
} link_t;

static stream *S;
static link_t L[MAXC];
static int nl, cur, alive, open_, in_cb, react, kind, mask_, cap_, where_cb, lost_close, turn_pending, big, small, no_close;
static uint64_t turn_in;
static int turn_reads;
static long mem0;
static int *reactions, nreactions;
static int *inject, ninject;

enum { A_WRITE, A_WRITE_BIG, A_ALLOC, A_FLUSH, A_NOTIFY, A_CONSUME_ALL, A_CONSUME_1, A_CLOSE, A_DESTROY, A_REOPEN, A_CLOSE_TWICE,
       E_SEND, E_SEND_BIG, E_TAKE_1, E_TAKE, E_FIN, E_RST, E_GROW, E_SHRINK, A_TURN, A_STOP, A_WRITE_0, A_REOPEN_WRITTEN, A_READ };
static const char *action_name[] = {"write", "write big", "allocate", "flush", "notify", "consume all", "consume 1", "close", "destroy", "close and reopen", "close twice",
  "peer sends", "peer sends big", "peer takes a little", "peer takes all", "peer finishes", "peer resets", "send space grows", "send space shrinks", "turn", "stop", "write nothing",
  "reopen with pre-written output", "look"};

static uint8_t pat(int g, uint64_t i) { return (uint8_t) (i * 131 + i / 251 * 7 + g * 89 + 1); }
static uint8_t pin(int g, uint64_t i) { return (uint8_t) (i * 151 + i / 239 * 5 + g * 61 + 2); }

/* n bytes of a pattern from at on (computed once per connection and direction) */
static void *fill(uint8_t (*f)(int, uint64_t), int g, uint64_t at, size_t n)
{
  static struct { uint8_t *p; size_t n, cap; } t[2][MAXC];
  __typeof__(t[0][0]) *x = &t[f == pin][g];
  uint8_t *p;
  size_t cap;

  if (at + n > x->cap)
  {
    cap = (at + n) * 2 + 65536;
    p = mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
      mc_error("out of memory");
    if (x->p)
    {
      memcpy(p, x->p, x->n);
      munmap(x->p, x->cap);
    }
    x->p = p;
    x->cap = cap;
  }
  for (; x->n < at + n; x->n++)
    x->p[x->n] = f(g, x->n);
  return x->p + at;
}

static size_t differs(const void *a, const void *b, size_t n)
{
  const uint8_t *x = a, *y = b;
  size_t i = 0, k;

  for (; n - i >= 4096; i += 4096)
    if (memcmp(x + i, y + i, 4096))
      break;
  for (k = i; k < n; k++)
    if (x[k] != y[k])
      return k;
  return n;
}

/* what the kernel accepted is a prefix of what was written; what is offered is what was sent */
static void verify(void)
{
  int i;
  uint64_t k;

  for (i = 0; i < nl; i++)
  {
    link_t *l = &L[i];
    MC_CHECK(l->c->sent <= l->wrote, "the peer of connection %d was sent %zu bytes, only %llu were written", i, l->c->sent, (unsigned long long) l->wrote);
    if (!l->c->rst || l->c->sent == l->c->gotlen + l->c->txlen)
      while (l->verified < l->c->sent)
      {
        int taken = l->verified < l->c->gotlen;
        const uint8_t *p = taken ? l->c->got + l->verified : l->c->tx + (l->verified - l->c->gotlen), *w;
        size_t n = (taken ? l->c->gotlen : l->c->sent) - l->verified;
        w = fill(pat, l->gen, l->verified, n);
        k = differs(p, w, n);
        MC_CHECK(k == n, "byte %llu of the output of connection %d arrives as %02x instead of %02x", (unsigned long long) (l->verified + k), i, p[k], w[k]);
        l->verified += n;
      }
    l->verified = l->c->sent;
  }
  if (alive && open_)
  {
    link_t *l = &L[cur];
    data d = stream_read(S);
    MC_CHECK(data_size(d) == l->c->delivered - l->consumed, "%zu bytes are offered for reading, the peer's next %llu were received", data_size(d), (unsigned long long) (l->c->delivered - l->consumed));
    if (data_size(d))
    {
      const uint8_t *w = fill(pin, l->gen, l->consumed, data_size(d));
      k = differs(data_base(d), w, data_size(d));
      MC_CHECK(k == data_size(d), "byte %llu of the input is offered as %02x instead of %02x", (unsigned long long) (l->consumed + k), ((uint8_t *) data_base(d))[k], w[k]);
    }
  }
}

static void cb(reactor_event *e);

static void new_link(void)
{
  link_t *l;

  if (nl == MAXC)
    mc_prune();
  l = &L[nl];
  *l = (link_t) {.gen = nl, .mask = mask_};
  l->c = sim_conn_new(kind, cap_);
  cur = nl++;
}

static void do_open(void)
{
  stream_open(S, L[cur].c->fd, mask_, NULL);
  open_ = 1;
}

static void do_close(void)
{
  stream_close(S);
  open_ = 0;
  MC_CHECK(L[cur].c->closed, "the descriptor stays open after closing the stream");
}

static void do_destroy(void)
{
  stream_destruct(S);
  free(S);
  alive = open_ = 0;
  MC_CHECK(L[cur].c->closed, "the descriptor stays open after destroying the stream");
}

static int out_possible(void) { return kind != SIM_PIPE_R; }
static int in_possible(void) { return kind != SIM_PIPE_W; }

/* one action; prunes the path where the action makes no sense */
static void act(int a)
{
  link_t *l = &L[cur];
  size_t n;
  void *p;

  mc_note("%s%s", in_cb ? "      in the callback: " : "  ", action_name[a]);
  switch (a)
  {
  case A_WRITE: case A_WRITE_BIG: case A_WRITE_0: case A_ALLOC:
    if (!alive || !open_ || !out_possible())
      mc_prune();
    n = a == A_WRITE ? small : a == A_WRITE_BIG ? big : a == A_ALLOC ? small + 1 : 0;
    p = fill(pat, l->gen, l->wrote, n);
    if (a == A_ALLOC)
      memcpy(stream_allocate(S, n), p, n);
    else
      stream_write(S, data_construct(p, n));
    l->wrote += n;
    break;
  case A_FLUSH:
    if (!alive || !open_ || !out_possible())
      mc_prune();
    l->flushed = l->wrote;
    stream_flush(S);
    break;
  case A_NOTIFY:
    if (!alive || !open_ || !out_possible())
      mc_prune();
    l->notify = 1;
    stream_notify(S);
    break;
  case A_CONSUME_ALL: case A_CONSUME_1:
    if (!alive || !open_)
      mc_prune();
    n = data_size(stream_read(S));
    if (!n)
      mc_prune();
    if (a == A_CONSUME_1)
      n = n > 1 ? n / 2 : 1;
    l->consumed += n;
    stream_consume(S, n);
    break;
  case A_CLOSE:
    if (!alive || !open_)
      mc_prune();
    do_close();
    break;
  case A_CLOSE_TWICE:
    if (!alive || !open_)
      mc_prune();
    do_close();
    stream_close(S);
    break;
  case A_DESTROY:
    if (!alive)
      mc_prune();
    do_destroy();
    break;
  case A_REOPEN: case A_REOPEN_WRITTEN:
    if (!alive)
      mc_prune();
    if (open_)
      do_close();
    new_link();
    l = &L[cur];
    if (a == A_REOPEN_WRITTEN)
    {
      if (!out_possible())
        mc_prune();
      stream_write(S, data_construct(fill(pat, l->gen, 0, small), small));
      l->wrote = small;
      stream_notify(S);
      l->notify = 1;
    }
    do_open();
    break;
  case E_SEND: case E_SEND_BIG:
    if (l->fin || l->rst || l->c->closed || !in_possible())
      mc_prune();
    n = a == E_SEND ? small : big;
    sim_peer_send(l->c, fill(pin, l->gen, l->in, n), n);
    l->in += n;
    break;
  case E_TAKE_1:
    if (!sim_in_flight(l->c))
      mc_prune();
    sim_peer_take(l->c, l->c->cap > 16 ? l->c->cap / 2 : 1);
    break;
  case E_TAKE:
    if (!sim_in_flight(l->c))
      mc_prune();
    sim_peer_take(l->c, -1);
    break;
  case E_FIN:
    if (l->fin || l->rst || l->c->closed || kind == SIM_PIPE_W)
      mc_prune();
    l->fin = 1;
    sim_peer_fin(l->c);
    break;
  case E_RST:
    if (l->rst || l->c->closed || kind == SIM_PIPE_R)
      mc_prune();
    l->rst = 1;
    sim_peer_rst(l->c);
    break;
  case E_GROW:
    if (l->c->cap >= (size_t) cap_ * 4 || l->c->closed || !out_possible())
      mc_prune();
    sim_set_cap(l->c, l->c->cap * 4);
    break;
  case E_SHRINK:
    if (l->c->cap < (size_t) cap_ || l->c->closed || !out_possible())
      mc_prune();
    sim_set_cap(l->c, 2);
    break;
  case A_READ:
    if (!alive || !open_)
      mc_prune();
    break;
  }
  mc_step();
  verify();
}

static uint64_t pending_at_turn; /* unsent output when the turn began */
static int cb_react;

static void cb(reactor_event *e)
{
  link_t *l = &L[cur];

  MC_CHECK(alive, "a destroyed stream's callback is invoked");
  MC_CHECK(open_, "a closed stream's callback is invoked");
  MC_CHECK(e->state == (void *) &S, "the callback is given the wrong state");
  MC_CHECK(!in_cb, "callback invoked from within the callback");
  mc_note("    event %s", e->type == STREAM_READ ? "read" : e->type == STREAM_WRITE ? "write" : e->type == STREAM_CLOSE ? "close" : "?");
  switch (e->type)
  {
  case STREAM_READ:
    MC_CHECK(l->mask & STREAM_READ, "read event on a stream not opened for reading");
    l->reads++;
    turn_reads++;
    break;
  case STREAM_WRITE:
    MC_CHECK(l->notify || pending_at_turn || l->wrote > l->c->sent, "write event that was neither requested nor due to pending output");
    l->notify = 0;
    l->writes++;
    break;
  case STREAM_CLOSE:
    MC_CHECK(l->fin || l->rst, "close event although the peer is there");
    if (l->mask & STREAM_READ)
      MC_CHECK(l->c->delivered == l->in, "close event before all input was offered (%zu of %llu bytes)", l->c->delivered, (unsigned long long) l->in);
    l->closes++;
    break;
  default:
    mc_fail("unknown event %d", e->type);
  }
  verify();
  in_cb = 1;
  if (react && nreactions)
  {
    int k = mc_choose(nreactions + 1, "reaction");
    if (k)
    {
      react--;
      act(reactions[k - 1]);
      /* a second action in the same callback */
      if (react && cb_react)
      {
        k = mc_choose(nreactions + 1, "second reaction");
        if (k)
        {
          react--;
          act(reactions[k - 1]);
        }
      }
    }
  }
  in_cb = 0;
}

/* the environment acts right before a system call of the library */
static int injecting;
static void on_call(const char *name, int fd)
{
  int k;

  (void) fd;
  if (injecting || !ninject || !alive)
    return;
  if (strcmp(name, "read") && strcmp(name, "write") && strcmp(name, "epoll_ctl") && strcmp(name, "epoll_wait"))
    return;
  k = mc_dev(ninject + 1, "environment acts before a system call");
  if (!k)
    return;
  injecting = 1;
  {
    link_t *l = &L[cur];
    int a = inject[k - 1];
    size_t n;
    mc_note("      before %s: %s", name, action_name[a]);
    switch (a)
    {
    case E_SEND: case E_SEND_BIG:
      if (l->fin || l->rst || l->c->closed || !in_possible()) mc_prune();
      n = a == E_SEND ? small : big;
      sim_peer_send(l->c, fill(pin, l->gen, l->in, n), n);
      l->in += n;
      break;
    case E_TAKE: if (!sim_in_flight(l->c)) mc_prune(); sim_peer_take(l->c, -1); break;
    case E_TAKE_1: if (!sim_in_flight(l->c)) mc_prune(); sim_peer_take(l->c, 1); break;
    case E_FIN: if (l->fin || l->rst || l->c->closed || kind == SIM_PIPE_W) mc_prune(); l->fin = 1; sim_peer_fin(l->c); break;
    case E_RST: if (l->rst || l->c->closed || kind == SIM_PIPE_R) mc_prune(); l->rst = 1; sim_peer_rst(l->c); break;
    }
  }
  injecting = 0;
}

static void turn(void)
{
  link_t *l = &L[cur];
  int g = cur, n0;
  uint64_t had;

  pending_at_turn = l->wrote - l->c->sent;
  turn_in = l->in;
  had = l->c->delivered;
  turn_reads = 0;
  n0 = l->closes;
  mc_note("  turn");
  reactor_loop_once();
  mc_step();
  verify();
  (void) n0;
  if (alive && open_ && cur == g && (l->mask & STREAM_READ))
  {
    MC_CHECK(l->c->delivered >= turn_in, "%llu bytes that had arrived before the turn were not read in it", (unsigned long long) (turn_in - l->c->delivered));
    if (l->c->delivered > had)
      MC_CHECK(turn_reads > 0, "input arrived in this turn, but no read event was delivered");
  }
}

/* lets everything that is due happen */
static void settle(int takes)
{
  int i;

  for (i = 0; i < 200; i++)
  {
    if (sim_ready())
      turn();
    else if (takes && alive && open_ && sim_in_flight(L[cur].c))
      sim_peer_take(L[cur].c, -1);
    else
      return;
  }
  mc_fail("the stream does not come to rest");
}

static void base(void)
{
  sim_reset();
  mem0 = mc_mem_live();
  reactor_construct();
  nl = 0;
  in_cb = 0;
  alive = 1;
  open_ = 0;
  react = 0;
  nreactions = ninject = injecting = 0;
  cb_react = 0;
  pending_at_turn = 0;
  S = malloc(sizeof *S);
  stream_construct(S, cb, &S);
  sim_on_call = on_call;
}

static void finish(void)
{
  react = 0;
  ninject = 0;
  if (alive)
  {
    if (open_)
      verify();
    do_destroy();
  }
  reactor_destruct();
  MC_CHECK(sim_open_fds() == 0, "descriptors left open at the end:%s", sim_open_list());
  MC_CHECK(mc_mem_live() == mem0, "heap blocks left at the end: %ld", mc_mem_live() - mem0);
}

static void state(int budget)
{
  link_t *l = &L[cur];
  mc_state(mc_mix(mc_mix(mc_mix(sim_hash(), l->wrote * 64 + l->flushed), l->in * 64 + l->consumed), (uint64_t) l->notify | budget << 1 | alive << 5 | open_ << 6 | (uint64_t) cur << 7 | (uint64_t) react << 10));
}

/* a sequence of mc_param() actions out of acts, turns included, then everything due happens */
static void run(const int *acts, int nacts, int *re, int nre, int reacts, int *inj, int ninj, int deep)
{
  int i, k;

  reactions = re;
  nreactions = nre;
  react = reacts;
  cb_react = deep;
  inject = inj;
  ninject = ninj;
  for (i = 0; i < mc_param(); i++)
  {
    state(mc_param() - i);
    k = mc_choose(nacts + 2, "action (0: stop, 1: turn)");
    if (k == 0)
      break;
    if (k == 1)
    {
      if (!sim_ready())
        mc_prune();
      turn();
    }
    else
      act(acts[k - 2]);
  }
}

/* C06/C08 common end: after the peer took everything, everything flushed must have been sent */
static void progress(void)
{
  link_t *l = &L[cur];

  ninject = 0;
  settle(0);
  l = &L[cur];
  if (alive && open_ && !l->rst && !l->fin)
  {
    MC_CHECK(l->c->sent >= l->flushed || sim_in_flight(l->c) > 0, "%llu flushed bytes stay unsent although there is room and nothing is scheduled", (unsigned long long) (l->flushed - l->c->sent));
    if (l->notify)
      MC_CHECK(sim_in_flight(l->c) > 0, "the requested write notification is not delivered although sending is possible");
  }
  if (l->c->cap < (size_t) cap_ && !l->c->closed)
    sim_set_cap(l->c, cap_);
  settle(1);
  l = &L[cur];
  if (alive && open_ && !l->rst && !l->fin)
  {
    MC_CHECK(l->c->sent >= l->flushed, "%llu flushed bytes are never sent although the peer reads everything", (unsigned long long) (l->flushed - l->c->sent));
    MC_CHECK(!l->notify, "the requested write notification is never delivered although the peer reads everything");
  }
}

static void opened(int k, int mask, int cap)
{
  kind = k;
  mask_ = mask;
  cap_ = cap;
  new_link();
}

static void pre_open(void)
{
  link_t *l = &L[cur];
  int pre = mc_choose(4, "before opening: nothing, notify, write, both");

  if (pre & 1)
  {
    stream_notify(S);
    l->notify = 1;
  }
  if (pre & 2)
  {
    stream_write(S, data_construct(fill(pat, l->gen, 0, small), small));
    l->wrote = small;
  }
  do_open();
}

#define N(a) ((int) (sizeof a / sizeof a[0]))

/* ---- C06 ---- */
static int c06_re[] = {A_WRITE, A_FLUSH, A_WRITE_BIG, A_ALLOC, A_NOTIFY};
static int c06_inj[] = {E_TAKE, E_TAKE_1};
static void c06_socket(void)
{
  static const int acts[] = {A_WRITE, A_WRITE_BIG, A_ALLOC, A_FLUSH, A_NOTIFY, E_TAKE_1, E_TAKE};
  base();
  small = 3;
  big = 12;
  opened(SIM_SOCK, mc_choose(4, "mask"), 8);
  pre_open();
  run(acts, N(acts), c06_re, N(c06_re), 1, NULL, 0, 0);
  progress();
  finish();
}
static void c06_pipe(void)
{
  static const int acts[] = {A_WRITE, A_WRITE_BIG, A_ALLOC, A_FLUSH, A_NOTIFY, E_TAKE_1, E_TAKE};
  base();
  small = 3;
  big = 12;
  opened(SIM_PIPE_W, mc_choose(2, "mask") * STREAM_WRITE, 8);
  pre_open();
  run(acts, N(acts), c06_re, N(c06_re), 1, NULL, 0, 0);
  progress();
  finish();
}
/* writing and flushing inside callbacks */
static void c06_callbacks(void)
{
  static const int acts[] = {A_WRITE_BIG, A_FLUSH, A_NOTIFY, E_TAKE, E_SEND};
  base();
  small = 3;
  big = 12;
  opened(SIM_SOCK, STREAM_READ, 8);
  do_open();
  run(acts, N(acts), c06_re, N(c06_re), 3, NULL, 0, 1);
  progress();
  finish();
}
/* the peer reads at any moment, the send space changes */
static void c06_pace(void)
{
  static const int acts[] = {A_WRITE_BIG, A_FLUSH, A_ALLOC, E_TAKE_1, E_TAKE, E_GROW, E_SHRINK, A_WRITE_0};
  base();
  small = 3;
  big = 12;
  opened(SIM_SOCK, STREAM_READ, 6);
  do_open();
  run(acts, N(acts), c06_re, 2, 1, c06_inj, N(c06_inj), 0);
  progress();
  finish();
}
/* the kernel takes any part of what is offered although there is room */
static size_t part_write(int fd, int wr, size_t n)
{
  if (!wr || fd < SIM_FD_BASE)
    return n;
  switch (mc_dev(4, "bytes accepted: all, one, half, all but one"))
  {
  case 1: return 1;
  case 2: return n / 2 ? n / 2 : 1;
  case 3: return n - 1 ? n - 1 : 1;
  default: return n;
  }
}
static void c06_partial(void)
{
  static const int acts[] = {A_WRITE, A_WRITE_BIG, A_FLUSH, E_TAKE};
  base();
  small = 3;
  big = 12;
  opened(mc_choose(2, "socket, pipe") ? SIM_PIPE_W : SIM_SOCK, 0, 10);
  do_open();
  sim_split = part_write;
  run(acts, N(acts), c06_re, 2, 1, NULL, 0, 0);
  sim_split = NULL;
  progress();
  finish();
}
static void c06_large(void)
{
  static const int acts[] = {A_WRITE, A_WRITE_BIG, A_FLUSH, E_TAKE_1, E_TAKE, A_NOTIFY};
  base();
  small = 1000;
  big = 66000;
  opened(SIM_SOCK, STREAM_READ, 50000);
  do_open();
  run(acts, N(acts), c06_re, 2, 1, NULL, 0, 0);
  progress();
  finish();
}

/* much output against any send space, taken in any portion */
static void c06_long(void)
{
  static const size_t sizes[] = {1, 100, 4096, 65536, 300001}, caps[] = {1, 7, 4096, 65535, 65536, 212992}, takes[] = {1, 1000, 65536, -1};
  int i, n = mc_param(), every, g = 0;
  size_t s, t;

  base();
  s = sizes[mc_choose(N(sizes), "size of a write")];
  every = 1 + 6 * mc_choose(2, "flush after every 1, 7");
  opened(mc_choose(2, "socket, pipe") ? SIM_PIPE_W : SIM_SOCK, 0, caps[mc_choose(N(caps), "send space")]);
  t = takes[mc_choose(N(takes), "taken at a time")];
  /* bounded: at most some thousand takes in one execution */
  if (s * n / (t < (size_t) cap_ ? t : (size_t) cap_) > 2500)
    mc_prune();
  do_open();
  for (i = 0; i < n; i++)
  {
    stream_write(S, data_construct(fill(pat, 0, L[cur].wrote, s), s));
    L[cur].wrote += s;
    if (i % every == every - 1 || i == n - 1)
      act(A_FLUSH);
    if (i % 4 == 3 && sim_in_flight(L[cur].c))
      sim_peer_take(L[cur].c, t);
    if (sim_ready())
      turn();
  }
  while (L[cur].c->sent < L[cur].wrote)
  {
    MC_CHECK(sim_in_flight(L[cur].c), "%llu flushed bytes stay unsent although there is room and nothing is scheduled", (unsigned long long) (L[cur].wrote - L[cur].c->sent));
    sim_peer_take(L[cur].c, t);
    while (sim_ready())
    {
      MC_CHECK(g++ < 100000, "the stream does not come to rest");
      turn();
    }
  }
  mc_state(mc_mix(L[cur].wrote, g));
  progress();
  finish();
}

/* ---- C07 ---- */
static int c07_re[] = {A_CONSUME_ALL, A_CONSUME_1, A_WRITE_BIG, A_FLUSH, A_NOTIFY};
static int c07_inj[] = {E_SEND, E_SEND_BIG, E_FIN};
static int c07_inj_sock[] = {E_SEND, E_FIN, E_RST};
static void c07_end(void)
{
  link_t *l = &L[cur];
  ninject = 0;
  settle(1);
  l = &L[cur];
  if (alive && open_ && (l->mask & STREAM_READ))
  {
    MC_CHECK(l->c->delivered == l->in, "%llu received bytes are never offered", (unsigned long long) (l->in - l->c->delivered));
    MC_CHECK(!l->in || l->reads, "input arrived but no read event was delivered");
  }
  if (alive && open_ && (l->fin || l->rst))
    MC_CHECK(l->closes, "the peer has gone but no close event was delivered");
  finish();
}
static void c07_socket(void)
{
  static const int acts[] = {E_SEND, E_SEND_BIG, A_CONSUME_ALL, A_CONSUME_1, E_FIN, E_RST, A_NOTIFY};
  base();
  small = 2;
  big = 9;
  opened(SIM_SOCK, mc_choose(4, "mask"), 64);
  do_open();
  run(acts, N(acts), c07_re, 2, 2, NULL, 0, 0);
  c07_end();
}
static void c07_pipe(void)
{
  static const int acts[] = {E_SEND, E_SEND_BIG, A_CONSUME_ALL, A_CONSUME_1, E_FIN};
  base();
  small = 2;
  big = 9;
  opened(SIM_PIPE_R, STREAM_READ, 64);
  if (mc_choose(2, "input before opening"))
    act(E_SEND);
  do_open();
  run(acts, N(acts), c07_re, 2, 2, NULL, 0, 0);
  c07_end();
}
static void c07_both(void)
{
  static const int acts[] = {E_SEND, A_WRITE_BIG, A_FLUSH, E_TAKE, E_FIN, A_CONSUME_1, A_NOTIFY};
  base();
  small = 2;
  big = 12;
  opened(SIM_SOCK, STREAM_READ, 8);
  do_open();
  run(acts, N(acts), c07_re, N(c07_re), 2, NULL, 0, 1);
  c07_end();
}
/* input arrives while the library is reading */
static void c07_racing(void)
{
  static const int acts[] = {E_SEND, E_SEND_BIG, A_CONSUME_ALL, E_FIN};
  int sock;
  base();
  small = 2;
  big = 9;
  sock = !mc_choose(2, "socket, pipe");
  opened(sock ? SIM_SOCK : SIM_PIPE_R, STREAM_READ, 64);
  do_open();
  run(acts, N(acts), c07_re, 2, 1, sock ? c07_inj_sock : c07_inj, 3, 0);
  c07_end();
}
/* sizes around the block the library reads in */
static void c07_large(void)
{
  static const int sizes[] = {1, STREAM_RECEIVE_SIZE - 1, STREAM_RECEIVE_SIZE, STREAM_RECEIVE_SIZE + 1, 2 * STREAM_RECEIVE_SIZE - 1, 2 * STREAM_RECEIVE_SIZE, 2 * STREAM_RECEIVE_SIZE + 1, 3 * STREAM_RECEIVE_SIZE};
  int i, n = mc_param(), end, sock;
  size_t s;
  base();
  small = 2;
  big = 9;
  sock = !mc_choose(2, "socket, pipe");
  opened(sock ? SIM_SOCK : SIM_PIPE_R, STREAM_READ, 64);
  do_open();
  reactions = c07_re;
  nreactions = 2;
  react = 1;
  for (i = 0; i < n; i++)
  {
    s = sizes[mc_choose(N(sizes), "size")];
    sim_peer_send(L[cur].c, fill(pin, 0, L[cur].in, s), s);
    L[cur].in += s;
    mc_step();
    if (mc_choose(2, "turn") && sim_ready())
      turn();
  }
  end = mc_choose(3, "then: nothing, finish, reset");
  if (end == 1)
    act(E_FIN);
  if (end == 2)
  {
    if (!sock)
      mc_prune();
    act(E_RST);
  }
  inject = sock ? c07_inj_sock : c07_inj;
  ninject = end ? 0 : 1;
  if (sim_ready())
    turn();
  state(0);
  c07_end();
}

/* one arrival of any size up to many blocks */
static void c07_blocks(void)
{
  static const int quick[] = {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 129};
  size_t n;
  int sock, end;

  base();
  sock = !mc_choose(2, "socket, pipe");
  opened(sock ? SIM_SOCK : SIM_PIPE_R, STREAM_READ, 64);
  n = (size_t) STREAM_RECEIVE_SIZE * (mc_thorough() ? 2 + mc_choose(320, "blocks") : quick[mc_choose(N(quick), "blocks")]) + mc_choose(3, "and bytes (-1, 0, 1)") - 1;
  end = mc_choose(sock ? 3 : 2, "then: nothing, finish, reset");
  if (mc_choose(2, "arrives before opening"))
  {
    sim_peer_send(L[cur].c, fill(pin, 0, 0, n), n);
    do_open();
  }
  else
  {
    do_open();
    sim_peer_send(L[cur].c, fill(pin, 0, 0, n), n);
  }
  L[cur].in += n;
  mc_step();
  if (end)
    act(end == 1 ? E_FIN : E_RST);
  reactions = c07_re;
  nreactions = 1;
  react = 1;
  turn();
  state(n & 0xffff);
  c07_end();
}
/* many turns: the same amounts arriving and being consumed over and over */
static void c07_long(void)
{
  static const size_t sizes[] = {1, 3, 100, 4095, 4096, 65535, 65536, 65537, 131072};
  static const char *how[] = {"nothing", "all", "half", "one byte", "all but one byte", "all every eighth time"};
  int i, n = mc_param(), h, s2;
  size_t s, c;

  base();
  opened(mc_choose(2, "socket, pipe") ? SIM_PIPE_R : SIM_SOCK, STREAM_READ, 64);
  do_open();
  s = sizes[mc_choose(N(sizes), "size")];
  s2 = sizes[mc_choose(N(sizes), "size of every second arrival")];
  h = mc_choose(N(how), "consumed");
  mc_note("%d times %zu and %d bytes, consuming %s", n, s, s2, how[h]);
  for (i = 0; i < n; i++)
  {
    c = i & 1 ? s2 : s;
    sim_peer_send(L[cur].c, fill(pin, 0, L[cur].in, c), c);
    L[cur].in += c;
    turn();
    if (!alive || !open_)
      break;
    c = data_size(stream_read(S));
    c = h == 0 ? 0 : h == 1 ? c : h == 2 ? c / 2 : h == 3 ? (c ? 1 : 0) : h == 4 ? (c ? c - 1 : 0) : i % 8 == 7 ? c : 0;
    L[cur].consumed += c;
    stream_consume(S, c);
    verify();
  }
  verify();
  mc_state(mc_mix(L[cur].in, L[cur].consumed));
  if (mc_choose(2, "finishes"))
    act(E_FIN);
  c07_end();
}

/* ---- C08 ---- */
static int c08_re[] = {A_NOTIFY, A_WRITE_BIG, A_FLUSH, A_WRITE};
static void c08(int k, int m)
{
  static const int acts[] = {A_NOTIFY, A_WRITE_BIG, A_FLUSH, A_WRITE, E_TAKE_1, E_TAKE, E_SEND};
  base();
  small = 3;
  big = 12;
  opened(k, m, 8);
  pre_open();
  run(acts, k == SIM_SOCK ? N(acts) : N(acts) - 1, c08_re, N(c08_re), 2, NULL, 0, 1);
  progress();
  finish();
}
static void c08_socket(void) { c08(SIM_SOCK, STREAM_READ); }
static void c08_socket_rw(void) { c08(SIM_SOCK, STREAM_READ | STREAM_WRITE); }
static void c08_socket_wo(void) { c08(SIM_SOCK, 0); }
static void c08_pipe(void) { c08(SIM_PIPE_W, 0); }
static void c08_pipe_w(void) { c08(SIM_PIPE_W, STREAM_WRITE); }
static void c08_racing(void)
{
  static const int acts[] = {A_NOTIFY, A_WRITE_BIG, A_FLUSH, E_TAKE_1, E_TAKE};
  base();
  small = 3;
  big = 12;
  opened(mc_choose(2, "socket, pipe") ? SIM_PIPE_W : SIM_SOCK, 0, 8);
  do_open();
  run(acts, N(acts), c08_re, 3, 1, c06_inj, N(c06_inj), 0);
  progress();
  finish();
}

/* ---- C09 ---- */
static int c09_re[] = {A_WRITE_BIG, A_FLUSH, A_CLOSE, A_NOTIFY, A_DESTROY, A_CONSUME_ALL};
static int c09_inj[] = {E_FIN, E_RST};
static void c09_end(void)
{
  link_t *l = &L[cur];
  ninject = 0;
  settle(0);
  l = &L[cur];
  if (alive && open_ && (l->fin || l->rst))
  {
    MC_CHECK(l->closes, "the peer has gone but the owner is not told");
    if (l->mask & STREAM_READ)
      MC_CHECK(l->c->delivered == l->in, "input received before the failure is not delivered");
  }
  settle(1);
  finish();
}
static void c09(int k, int m)
{
  static const int acts[] = {A_WRITE, A_FLUSH, E_SEND, E_FIN, E_RST, A_WRITE_BIG, A_NOTIFY, E_TAKE, A_CLOSE};
  base();
  small = 2;
  big = 12;
  opened(k, m, 8);
  do_open();
  run(acts, N(acts), c09_re, N(c09_re), 2, NULL, 0, 0);
  c09_end();
}
static void c09_socket(void) { c09(SIM_SOCK, STREAM_READ); }
static void c09_socket_wo(void) { c09(SIM_SOCK, 0); }
static void c09_socket_rw(void) { c09(SIM_SOCK, STREAM_READ | STREAM_WRITE); }
static void c09_pipe_w(void) { c09(SIM_PIPE_W, 0); }
static void c09_pipe_r(void) { c09(SIM_PIPE_R, STREAM_READ); }
static void c09_racing(void)
{
  static const int acts[] = {A_WRITE, A_FLUSH, E_SEND, A_WRITE_BIG, A_NOTIFY, E_TAKE};
  base();
  small = 2;
  big = 12;
  opened(mc_choose(2, "socket, pipe") ? SIM_PIPE_W : SIM_SOCK, STREAM_READ, 8);
  do_open();
  run(acts, N(acts), c09_re, 3, 1, c09_inj, N(c09_inj), 0);
  c09_end();
}

/* ---- C11 ---- */
static int c11_re[] = {A_CLOSE, A_DESTROY, A_REOPEN, A_CLOSE_TWICE, A_WRITE_BIG, A_FLUSH, A_NOTIFY, A_REOPEN_WRITTEN, A_CONSUME_1};
static void c11(int k, int m)
{
  static const int acts[] = {A_WRITE_BIG, A_FLUSH, E_SEND, A_NOTIFY, A_CLOSE, A_REOPEN, A_DESTROY, A_CLOSE_TWICE, E_FIN, E_RST, E_TAKE, A_REOPEN_WRITTEN, A_CONSUME_1};
  base();
  small = 2;
  big = 12;
  opened(k, m, 8);
  do_open();
  run(acts, N(acts), c11_re, N(c11_re), 2, NULL, 0, 1);
  progress();
  finish();
}
static void c11_socket(void) { c11(SIM_SOCK, STREAM_READ); }
static void c11_pipe_w(void) { c11(SIM_PIPE_W, 0); }
static void c11_pipe_r(void) { c11(SIM_PIPE_R, STREAM_READ); }
/* all three events in one batch, the owner acting in each of them */
static void c11_batch(void)
{
  int what, i;
  base();
  small = 2;
  big = 12;
  opened(SIM_SOCK, STREAM_READ, 8);
  do_open();
  act(A_WRITE_BIG);
  act(A_FLUSH);
  if (mc_choose(2, "notify"))
    act(A_NOTIFY);
  settle(0);
  what = mc_choose(8, "peer sends / takes / goes");
  if (what & 1) act(E_SEND);
  if (what & 2) act(E_TAKE);
  if (what & 4) act(mc_choose(2, "finish, reset") ? E_RST : E_FIN);
  reactions = c11_re;
  nreactions = N(c11_re);
  react = mc_param();
  cb_react = 1;
  for (i = 0; i < 3 && sim_ready(); i++)
    turn();
  state(0);
  progress();
  finish();
}

const mc_scenario mc_scenarios[] = {
  {"C06", "socket", c06_socket, 0, 0, 5, 7, 4, 0},
  {"C06", "pipe", c06_pipe, 0, 0, 5, 7, 4, 0},
  {"C06", "callbacks", c06_callbacks, 0, 0, 5, 7, 4, 0},
  {"C06", "pace", c06_pace, 1, 2, 5, 6, 4, 0},
  {"C06", "partial-writes", c06_partial, 2, 3, 5, 7, 4, 0},
  {"C06", "large", c06_large, 0, 0, 4, 6, 4, 0},
  {"C06", "long", c06_long, 0, 0, 24, 200, 4, 0},
  {"C07", "socket", c07_socket, 0, 0, 5, 7, 4, 0},
  {"C07", "pipe", c07_pipe, 0, 0, 6, 8, 4, 0},
  {"C07", "both-directions", c07_both, 0, 0, 5, 6, 4, 0},
  {"C07", "racing", c07_racing, 1, 2, 5, 6, 4, 0},
  {"C07", "large", c07_large, 1, 2, 2, 3, 3, 0},
  {"C07", "blocks", c07_blocks, 0, 0, 0, 0, 3, 0},
  {"C07", "long", c07_long, 0, 0, 40, 300, 4, 0},
  {"C08", "socket", c08_socket, 0, 0, 5, 6, 4, 0},
  {"C08", "socket-write-only", c08_socket_wo, 0, 0, 4, 6, 4, 0},
  {"C08", "socket-both", c08_socket_rw, 0, 0, 4, 6, 4, 0},
  {"C08", "pipe", c08_pipe, 0, 0, 5, 6, 4, 0},
  {"C08", "pipe-write", c08_pipe_w, 0, 0, 4, 6, 4, 0},
  {"C08", "racing", c08_racing, 1, 2, 5, 6, 4, 0},
  {"C09", "socket", c09_socket, 0, 0, 5, 6, 4, 0},
  {"C09", "socket-write-only", c09_socket_wo, 0, 0, 4, 6, 4, 0},
  {"C09", "socket-both", c09_socket_rw, 0, 0, 4, 6, 4, 0},
  {"C09", "pipe-writer", c09_pipe_w, 0, 0, 5, 6, 4, 0},
  {"C09", "pipe-reader", c09_pipe_r, 0, 0, 5, 6, 4, 0},
  {"C09", "racing", c09_racing, 1, 2, 5, 6, 4, 0},
  {"C11", "socket", c11_socket, 0, 0, 4, 5, 4, 0},
  {"C11", "pipe-writer", c11_pipe_w, 0, 0, 4, 5, 4, 0},
  {"C11", "pipe-reader", c11_pipe_r, 0, 0, 4, 5, 4, 0},
  {"C11", "batch", c11_batch, 0, 0, 4, 6, 4, 0},
  {NULL}
};
