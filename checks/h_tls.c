/* C10, C11: encrypted streams, with real TLS on both ends, explored against the simulated kernel. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"
#include "tlspeer.h"

#define N(a) ((int) (sizeof a / sizeof a[0]))
#define MAXC 5

typedef struct
{
  sim_conn *c;
  tlspeer  *p;               /* NULL: a plain connection */
  int       gen;
  uint64_t  wrote, flushed;  /* by the stream's owner */
  uint64_t  pwrote;          /* by the peer */
  uint64_t  seen, consumed;  /* offered to the owner, consumed */
  uint64_t  verified;
  int       fin, rst, notify, closes, reads, writes, mask;
} link_t;

static stream *S;
static link_t L[MAXC];
static int nl, cur, alive, open_, in_cb, react, nreactions, cap_, mask_, small, big, side, version, notify_while_pending;
static long mem0;
static int *reactions, rekeys;

enum { A_WRITE, A_WRITE_BIG, A_ALLOC, A_FLUSH, A_NOTIFY, A_CONSUME, A_CLOSE, A_DESTROY, A_REOPEN, A_REOPEN_PLAIN,
       E_PWRITE, E_PWRITE_BIG, E_TAKE_1, E_TAKE, E_NET_1, E_NET, E_FIN, E_RST, E_BYE, E_REKEY, A_TURN };
static const char *aname[] = {"write", "write big", "allocate", "flush", "notify", "consume", "close", "destroy", "close and reopen encrypted", "close and reopen plain",
  "peer writes", "peer writes big", "peer reads a little", "peer reads all", "network delivers a little", "network delivers all", "peer finishes", "peer resets", "peer closes properly", "peer changes its keys and asks for the same", "turn"};

static uint8_t pat(int g, uint64_t i) { return (uint8_t) (i * 131 + i / 251 * 7 + g * 89 + 1); }
static uint8_t pin(int g, uint64_t i) { return (uint8_t) (i * 151 + i / 239 * 5 + g * 61 + 2); }
static void *fill(uint8_t (*f)(int, uint64_t), int g, uint64_t at, size_t n)
{
  static uint8_t b[1 << 20];
  size_t i;
  for (i = 0; i < n; i++)
    b[i] = f(g, at + i);
  return b;
}

static uint64_t received(link_t *l) { return l->p ? l->p->plen : l->c->gotlen; }

static void verify(void)
{
  int i;
  uint64_t k;

  for (i = 0; i < nl; i++)
  {
    link_t *l = &L[i];
    const uint8_t *d = l->p ? l->p->plain : l->c->got;
    MC_CHECK(received(l) <= l->wrote, "the peer of connection %d receives %llu bytes, only %llu were written", i, (unsigned long long) received(l), (unsigned long long) l->wrote);
    for (k = l->verified; k < received(l); k++)
      MC_CHECK(d[k] == pat(l->gen, k), "byte %llu of the output of connection %d arrives as %02x instead of %02x", (unsigned long long) k, i, d[k], pat(l->gen, k));
    l->verified = received(l);
    if (l->p && !l->fin && !l->rst)
      MC_CHECK(!l->p->failed, "the peer of connection %d receives something that does not decrypt", i);
  }
  if (alive && open_)
  {
    link_t *l = &L[cur];
    data d = stream_read(S);
    MC_CHECK(l->consumed + data_size(d) >= l->seen && l->consumed + data_size(d) <= l->pwrote, "%zu bytes are offered after %llu consumed, the peer wrote %llu, %llu had been offered",
             data_size(d), (unsigned long long) l->consumed, (unsigned long long) l->pwrote, (unsigned long long) l->seen);
    for (k = 0; k < data_size(d); k++)
      if (((uint8_t *) data_base(d))[k] != pin(l->gen, l->consumed + k))
        mc_fail("byte %llu of the input is offered as %02x instead of %02x", (unsigned long long) (l->consumed + k), ((uint8_t *) data_base(d))[k], pin(l->gen, l->consumed + k));
    l->seen = l->consumed + data_size(d);
  }
}

static void cb(reactor_event *e);

static void new_link(int plain)
{
  link_t *l;
  if (nl == MAXC)
    mc_prune();
  l = &L[nl];
  *l = (link_t) {.gen = nl, .mask = mask_};
  l->c = sim_conn_new(SIM_SOCK, cap_);
  if (!plain)
  {
    l->p = tp_new(side == 0, version);
    if (side == 1)
      tp_feed(l->p, l->c);
  }
  cur = nl++;
}

static void do_open(void)
{
  stream_open(S, L[cur].c->fd, mask_, L[cur].p ? side ? tp_server_ctx : tp_client_ctx : NULL);
  open_ = 1;
}
static void do_close(void)
{
  stream_close(S);
  open_ = 0;
  MC_CHECK(L[cur].c->closed, "the descriptor stays open after closing the stream");
}
static void do_destroy(void)
{
  stream_destruct(S);
  free(S);
  alive = open_ = 0;
  MC_CHECK(L[cur].c->closed, "the descriptor stays open after destroying the stream");
}
static void take(link_t *l, size_t n)
{
  sim_peer_take(l->c, n);
  if (l->p)
    tp_feed(l->p, l->c);
}
static size_t queued(link_t *l) { return l->p && !l->c->closed && !l->fin && !l->rst ? tp_queued(l->p) : 0; }
static int established(link_t *l) { return !l->p || SSL_is_init_finished(l->p->ssl); }

static void act(int a)
{
  link_t *l = &L[cur];
  size_t n;
  void *p;

  mc_note("%s%s", in_cb ? "      in the callback: " : "  ", aname[a]);
  switch (a)
  {
  case A_WRITE: case A_WRITE_BIG: case A_ALLOC:
    if (!alive || !open_)
      mc_prune();
    n = a == A_WRITE ? small : a == A_WRITE_BIG ? big : small + 1;
    p = fill(pat, l->gen, l->wrote, n);
    if (a == A_ALLOC)
      memcpy(stream_allocate(S, n), p, n);
    else
      stream_write(S, data_construct(p, n));
    l->wrote += n;
    break;
  case A_FLUSH:
    if (!alive || !open_)
      mc_prune();
    l->flushed = l->wrote;
    stream_flush(S);
    break;
  case A_NOTIFY:
    if (!alive || !open_)
      mc_prune();
    l->notify = 1;
    stream_notify(S);
    break;
  case A_CONSUME:
    if (!alive || !open_ || !data_size(stream_read(S)))
      mc_prune();
    n = data_size(stream_read(S));
    n = n > 1 ? n - n / 3 : 1;
    l->consumed += n;
    stream_consume(S, n);
    break;
  case A_CLOSE:
    if (!alive || !open_)
      mc_prune();
    do_close();
    stream_close(S);
    break;
  case A_DESTROY:
    if (!alive)
      mc_prune();
    do_destroy();
    break;
  case A_REOPEN: case A_REOPEN_PLAIN:
    if (!alive)
      mc_prune();
    if (open_)
      do_close();
    new_link(a == A_REOPEN_PLAIN);
    do_open();
    break;
  case E_PWRITE: case E_PWRITE_BIG:
    if (l->fin || l->rst || l->c->closed || !established(l))
      mc_prune();
    n = a == E_PWRITE ? small : big;
    if (l->p)
      tp_write(l->p, fill(pin, l->gen, l->pwrote, n), n);
    else
      sim_peer_send(l->c, fill(pin, l->gen, l->pwrote, n), n);
    l->pwrote += n;
    break;
  case E_TAKE_1: case E_TAKE:
    if (!sim_in_flight(l->c))
      mc_prune();
    take(l, a == E_TAKE ? (size_t) -1 : l->c->cap > 16 ? l->c->cap / 2 : 1);
    break;
  case E_NET_1: case E_NET:
    if (!queued(l))
      mc_prune();
    tp_net(l->p, l->c, a == E_NET ? (size_t) -1 : queued(l) / 2 ? queued(l) / 2 : 1);
    break;
  case E_FIN:
    if (l->fin || l->rst || l->c->closed)
      mc_prune();
    l->fin = 1;
    sim_peer_fin(l->c);
    break;
  case E_RST:
    if (l->rst || l->c->closed)
      mc_prune();
    l->rst = 1;
    sim_peer_rst(l->c);
    break;
  case E_BYE:
    if (l->fin || l->rst || l->c->closed || !l->p || !established(l))
      mc_prune();
    SSL_shutdown(l->p->ssl);
    tp_pull(l->p);
    tp_net(l->p, l->c, -1);
    l->fin = 1;
    sim_peer_fin(l->c);
    break;
  case E_REKEY:
    /* OpenSSL 3.0 ends a connection (bad length) when asked a second time while output is held up: not ours */
    if (rekeys++ || l->fin || l->rst || l->c->closed || !l->p || !established(l))
      mc_prune();
    ERR_set_mark();
    if (version == 0 ? SSL_key_update(l->p->ssl, SSL_KEY_UPDATE_REQUESTED) != 1 : SSL_renegotiate(l->p->ssl) != 1)
      mc_prune();
    SSL_do_handshake(l->p->ssl);
    ERR_pop_to_mark();
    tp_pull(l->p);
    break;
  }
  mc_step();
  verify();
}

static void cb(reactor_event *e)
{
  link_t *l = &L[cur];
  int k;

  MC_CHECK(alive, "a destroyed stream's callback is invoked");
  MC_CHECK(open_, "a closed stream's callback is invoked");
  MC_CHECK(e->state == (void *) &S, "the callback is given the wrong state");
  mc_note("    event %s", e->type == STREAM_READ ? "read" : e->type == STREAM_WRITE ? "write" : e->type == STREAM_CLOSE ? "close" : "?");
  switch (e->type)
  {
  case STREAM_READ:
    MC_CHECK(l->mask & STREAM_READ, "read event on a stream not opened for reading");
    l->reads++;
    break;
  case STREAM_WRITE:
    MC_CHECK(l->notify || !l->p, "write event that was not requested");
    if (l->p && notify_while_pending)
      MC_CHECK(l->c->sent > 0 || l->wrote == 0, "write event before anything was sent");
    l->notify = 0;
    l->writes++;
    break;
  case STREAM_CLOSE:
    MC_CHECK(l->fin || l->rst, "close event although the peer is there");
    l->closes++;
    break;
  default:
    mc_fail("unknown event %d", e->type);
  }
  verify();
  in_cb++;
  while (react > 0 && (k = mc_choose(nreactions + 1, "reaction")))
  {
    react--;
    act(reactions[k - 1]);
  }
  in_cb--;
}

static void turn(void)
{
  mc_note("  turn");
  reactor_loop_once();
  mc_step();
  verify();
}

/* everything due happens; net: what the peer sends arrives, take: the peer reads */
static void settle(int net, int takes)
{
  int i;

  for (i = 0; i < 3000; i++)
  {
    link_t *l = &L[cur];
    if (sim_ready())
      turn();
    else if (takes && alive && open_ && sim_in_flight(l->c))
      take(l, -1);
    else if (net && alive && open_ && queued(l))
      tp_net(l->p, l->c, -1);
    else
      return;
  }
  mc_fail("the stream does not come to rest");
}

/* the crypto library sets itself up during its first connections */
static void warm(void)
{
  int i;
  for (i = 0; i < 4; i++)
  {
    side = i & 1;
    version = i >> 1;
    mask_ = STREAM_READ;
    cap_ = 1 << 20;
    reactor_construct();
    nl = cur = in_cb = react = 0;
    alive = 1;
    S = malloc(sizeof *S);
    stream_construct(S, cb, &S);
    new_link(0);
    do_open();
    act(A_NOTIFY);
    settle(1, 1);
    stream_destruct(S);
    free(S);
    alive = open_ = 0;
    reactor_destruct();
    tp_free(L[0].p);
    ERR_clear_error();
  }
}

static int warmed;
static void base(void)
{
  sim_reset();
  tp_init();
  if (!warmed)
  {
    warmed = 1;
    warm();
    sim_reset();
  }
  tp_seed(7);
  OPENSSL_thread_stop(); /* the error queue keeps buffers of its own */
  mem0 = mc_mem_live();
  reactor_construct();
  nl = cur = in_cb = react = nreactions = open_ = 0;
  alive = 1;
  notify_while_pending = 0;
  small = 5;
  big = 20000;
  mask_ = STREAM_READ;
  S = malloc(sizeof *S);
  stream_construct(S, cb, &S);
}

static void finish(void)
{
  int i;
  react = 0;
  if (alive)
    do_destroy();
  reactor_destruct();
  MC_CHECK(sim_open_fds() == 0, "descriptors left open at the end:%s", sim_open_list());
  for (i = 0; i < nl; i++)
    if (L[i].p)
      tp_free(L[i].p);
  OPENSSL_thread_stop();
  MC_CHECK(mc_mem_live() == mem0, "heap blocks left at the end: %ld", mc_mem_live() - mem0);
}

/* with a peer that reads and a network that delivers everything must arrive on both sides */
static void progress(void)
{
  link_t *l;

  react = 0;
  settle(1, 1);
  l = &L[cur];
  if (!alive || !open_)
    return;
  if (!l->fin && !l->rst)
  {
    MC_CHECK(established(l), "the handshake is never completed");
    if (l->flushed || 1)
      MC_CHECK(received(l) >= l->flushed, "%llu of %llu flushed bytes never arrive", (unsigned long long) (l->flushed - received(l)), (unsigned long long) l->flushed);
    MC_CHECK(!l->notify, "the requested write notification is never delivered");
    if (l->mask & STREAM_READ)
      MC_CHECK(l->seen == l->pwrote, "%llu of %llu bytes the peer wrote are never offered", (unsigned long long) (l->pwrote - l->seen), (unsigned long long) l->pwrote);
  }
  else
    MC_CHECK(l->closes, "the peer has gone but no close event was delivered");
}

/* the handshake takes its course */
static void connect_(void)
{
  settle(1, 1);
}

static uint64_t hash(int b)
{
  link_t *l = &L[cur];
  return mc_mix(mc_mix(sim_hash(), l->wrote + l->flushed * 31 + l->pwrote * 977 + l->consumed * 7919), b | l->notify << 8 | open_ << 9 | alive << 10 | cur << 11 | react << 14);
}

static void run(const int *acts, int nacts, int *re, int nre, int reacts)
{
  int i, k;
  reactions = re;
  nreactions = nre;
  react = reacts;
  for (i = 0; i < mc_param(); i++)
  {
    mc_state(hash(mc_param() - i));
    k = mc_choose(nacts + 2, "action (0: stop, 1: turn)");
    if (k == 0)
      break;
    if (k == 1)
    {
      if (!sim_ready())
        mc_prune();
      turn();
    }
    else
      act(acts[k - 2]);
  }
}
static void choose_kind(void)
{
  side = mc_choose(2, "the stream is: client, server");
  version = mc_choose(2, "TLS 1.3, 1.2");
}

/* ---- C10 ---- */
/* amounts queued on both sides before or after the handshake; fragments of every size in both directions; any send space */
static void transfer(int bulk)
{
  static const int sizes[] = {0, 1, 100, 16384, 16385, 40000, 130000};
  static const int frag[] = {1 << 30, 3, 250, 5000};
  static const int takes[] = {1 << 30, 1000, 60};
  static const int caps[] = {1 << 20, 3000, 100};
  int w, pw, f, t, early, i, wo;
  link_t *l;

  base();
  choose_kind();
  if (bulk)
  {
    i = mc_choose(3, "large amounts: written by the owner, by the peer, by both");
    w = i == 1 ? 7 : 1000000;
    pw = i == 0 ? 9 : 1000000;
    f = mc_choose(2, "the network delivers at a time") ? 5000 : 1 << 30;
    t = 1 << 30;
    cap_ = mc_choose(2, "send space") ? 200000 : 1 << 20;
    early = mc_choose(2, "written: before opening, after the handshake") * 3;
    wo = 0;
  }
  else
  {
    w = sizes[mc_choose(N(sizes), "the owner writes")];
    pw = sizes[mc_choose(N(sizes), "the peer writes")];
    f = frag[mc_choose(N(frag), "the network delivers at a time")];
    t = takes[mc_choose(N(takes), "the peer reads at a time")];
    cap_ = caps[mc_choose(N(caps), "send space")];
    early = mc_choose(4, "written: before opening, before the handshake and flushed, not flushed but notified, after");
    wo = mc_choose(2, "mask");
  }
  if ((w > 20000 || pw > 20000) && ((f < 250 && pw > 20000) || t < 1000 || cap_ < 3000) && !mc_thorough())
    mc_prune();
  if (wo && pw)
    mc_prune();
  mask_ = wo ? STREAM_WRITE : STREAM_READ;
  new_link(0);
  l = &L[0];
  if (early == 0)
  {
    stream_write(S, data_construct(fill(pat, 0, 0, w), w));
    l->wrote = w;
  }
  do_open();
  if (early == 0 || early == 1 || early == 2)
  {
    if (early)
    {
      stream_write(S, data_construct(fill(pat, 0, 0, w), w));
      l->wrote = w;
    }
    if (early == 2)
      act(A_NOTIFY);
    else
      act(A_FLUSH);
    l->flushed = l->wrote;
  }
  for (i = 0; i < 200000; i++)
  {
    if (early == 3 && established(l) && l->wrote < (uint64_t) w)
    {
      stream_write(S, data_construct(fill(pat, 0, 0, w), w));
      l->wrote = w;
      act(A_FLUSH);
    }
    if (established(l) && l->pwrote < (uint64_t) pw)
    {
      tp_write(l->p, fill(pin, 0, 0, pw), pw);
      l->pwrote = pw;
    }
    if (sim_ready())
      turn();
    else
    {
      int moved = 0;
      if (sim_in_flight(l->c))
      {
        take(l, t);
        moved = 1;
      }
      if (queued(l))
      {
        tp_net(l->p, l->c, f);
        moved = 1;
      }
      if (!moved)
        break;
    }
    mc_step();
  }
  mc_state(hash(0));
  MC_CHECK(established(l), "the handshake is never completed");
  progress();
  MC_CHECK(l->wrote == received(l) && l->wrote == (uint64_t) w, "%llu of %d bytes arrive", (unsigned long long) received(l), w);
  if (!wo)
    MC_CHECK(l->seen == (uint64_t) pw, "%llu of %d bytes are offered", (unsigned long long) l->seen, pw);
  finish();
}
static void c10_transfer(void) { transfer(0); }
static void c10_bulk(void) { transfer(1); }
static int c10_re[] = {A_WRITE, A_FLUSH, A_NOTIFY, A_WRITE_BIG, A_CONSUME};
/* any order of actions from the beginning of the handshake */
static void c10_handshake(void)
{
  static const int acts[] = {A_WRITE, A_FLUSH, A_NOTIFY, E_TAKE_1, E_TAKE, E_NET_1, E_NET, A_WRITE_BIG};
  base();
  choose_kind();
  cap_ = 400;
  new_link(0);
  do_open();
  run(acts, N(acts), c10_re, 3, 1);
  progress();
  finish();
}
/* any order of actions on an established connection */
static void c10_established(void)
{
  static const int acts[] = {A_WRITE, A_WRITE_BIG, A_FLUSH, A_NOTIFY, E_TAKE_1, E_TAKE, E_PWRITE, E_PWRITE_BIG, E_NET_1, E_NET};
  base();
  choose_kind();
  cap_ = 1 << 20;
  new_link(0);
  do_open();
  act(A_NOTIFY);
  connect_();
  MC_CHECK(established(&L[0]), "the handshake is never completed");
  sim_set_cap(L[0].c, 3000);
  run(acts, N(acts), c10_re, N(c10_re), 2);
  progress();
  finish();
}
/* new keys on an established connection (1.3), a new handshake on one (1.2, asked for by the server) */
static void c10_rekey(void)
{
  static const int acts[] = {A_WRITE_BIG, A_FLUSH, E_TAKE, E_PWRITE, E_NET, E_REKEY, A_WRITE, E_TAKE_1, E_PWRITE_BIG, E_NET_1};
  base();
  choose_kind();
  rekeys = 0;
  if (version == 1 && side == 1)
    mc_prune(); /* refused */
  mask_ = mc_choose(2, "mask") ? STREAM_WRITE : STREAM_READ;
  cap_ = 1 << 20;
  new_link(0);
  do_open();
  act(A_NOTIFY);
  connect_();
  MC_CHECK(established(&L[0]), "the handshake is never completed");
  if (mc_choose(2, "send space"))
  {
    sim_set_cap(L[0].c, 30);
    big = 700;
  }
  else
    sim_set_cap(L[0].c, 3000);
  if (mc_choose(2, "output waiting"))
  {
    act(A_WRITE_BIG);
    act(A_FLUSH);
  }
  run(acts, mc_thorough() ? N(acts) : 6, NULL, 0, 0);
  progress();
  finish();
}
/* the peer's bytes cut at any one place (and delivered around a turn), handshake and data */
static void c10_cut(void)
{
  size_t cut, sent = 0;
  int i, max = 2600;
  link_t *l;

  base();
  choose_kind();
  cap_ = mc_choose(2, "send space") ? 200 : 1 << 20;
  cut = mc_choose(max, "cut after");
  new_link(0);
  do_open();
  l = &L[0];
  act(A_WRITE);
  act(A_FLUSH);
  for (i = 0; i < 20000; i++)
  {
    if (established(l) && !l->pwrote)
      act(E_PWRITE);
    if (sim_ready())
      turn();
    else if (sim_in_flight(l->c))
      take(l, -1);
    else if (queued(l))
    {
      size_t n = queued(l);
      if (sent < cut && cut < sent + n)
        n = cut - sent;
      sent += tp_net(l->p, l->c, n);
      mc_step();
    }
    else
      break;
  }
  if (cut >= sent)
    mc_prune();
  mc_state(hash(0));
  progress();
  finish();
}
/* the peer disappears after any number of steps */
static void c10_gone(void)
{
  int how, at, i, big_, f;
  link_t *l;

  base();
  choose_kind();
  how = mc_choose(3, "finish, reset, proper close");
  at = mc_choose(mc_param(), "after step");
  big_ = mc_choose(2, "data queued");
  f = mc_choose(2, "fragments") ? 100 : 1 << 30;
  cap_ = mc_choose(2, "send space") ? 300 : 1 << 20;
  new_link(0);
  l = &L[0];
  do_open();
  act(big_ ? A_WRITE_BIG : A_WRITE);
  act(A_FLUSH);
  for (i = 0; i < at; i++)
  {
    if (established(l) && !l->pwrote)
      act(E_PWRITE);
    if (sim_ready())
      turn();
    else if (sim_in_flight(l->c))
      take(l, f);
    else if (queued(l))
      tp_net(l->p, l->c, f);
    else
      break;
  }
  if (i < at)
    mc_prune();
  mc_state(hash(0));
  act(how == 0 ? E_FIN : how == 1 ? E_RST : E_BYE);
  if (mc_choose(2, "the owner writes on"))
  {
    act(A_WRITE);
    act(A_FLUSH);
  }
  progress();
  finish();
}

/* ---- C11 ---- */
static int c11_re[] = {A_CLOSE, A_DESTROY, A_REOPEN, A_REOPEN_PLAIN, A_WRITE, A_FLUSH, A_CONSUME};
static void c11_tls(void)
{
  static const int acts[] = {A_WRITE, A_WRITE_BIG, A_FLUSH, A_NOTIFY, E_PWRITE, E_NET, E_TAKE, A_CLOSE, A_DESTROY, A_REOPEN, A_REOPEN_PLAIN, E_FIN, A_CONSUME};
  int first;
  base();
  choose_kind();
  first = mc_choose(3, "first: plain, encrypted, encrypted and established");
  cap_ = 1 << 20;
  new_link(first == 0);
  do_open();
  if (first == 2)
  {
    act(A_NOTIFY);
    connect_();
  }
  if (first)
    sim_set_cap(L[0].c, 1000);
  run(acts, N(acts), c11_re, N(c11_re), 2);
  progress();
  finish();
}

const mc_scenario mc_scenarios[] = {
  {"C10", "transfer", c10_transfer, 0, 0, 1, 1, 5, 0},
  {"C10", "bulk", c10_bulk, 0, 0, 1, 1, 3, 0},
  {"C10", "handshake", c10_handshake, 0, 0, 5, 7, 5, 0},
  {"C10", "established", c10_established, 0, 0, 4, 6, 5, 0},
  {"C10", "rekey", c10_rekey, 0, 0, 4, 6, 5, 0},
  {"C10", "cut", c10_cut, 0, 0, 1, 1, 4, 0},
  {"C10", "gone", c10_gone, 0, 0, 60, 120, 4, 0},
  {"C11", "tls", c11_tls, 0, 0, 3, 5, 5, 0},
  {NULL}
};
