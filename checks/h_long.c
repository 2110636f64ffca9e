/* Endurance: single histories of tens of thousands of operations on the same objects, for the properties that promise
 * something for every history.  Whatever the library counts, numbers, rotates or accumulates passes the limits of
 * 8 and 16 bits here.  The histories are few and long, the oracle of each round is complete. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"

#define N(a) ((int) (sizeof a / sizeof a[0]))
#define SEC 1000000000ull

static long mem0;
static int rounds;
static void begin(void)
{
  static int warm;
  if (!warm)
  {
    /* what the C library sets up once */
    time_t t = 0;
    struct tm tm;
    char b[64];
    tzset();
    gmtime_r(&t, &tm);
    strftime(b, sizeof b, "%a %d %b %Y %H:%M:%S", &tm);
    warm = 1;
  }
  sim_reset();
  sim_call_limit(1u << 31);
  rounds = mc_param();
  mem0 = mc_mem_live();
  reactor_construct();
}
static void end(void)
{
  reactor_destruct();
  MC_CHECK(sim_open_fds() == 0, "descriptors left open at the end:%s", sim_open_list());
  MC_CHECK(mc_mem_live() == mem0, "heap blocks left at the end: %ld", mc_mem_live() - mem0);

  mc_outcome(sim_calls());
}
static void state(int r, uint64_t more)
{
  mc_step();
  mc_state(mc_mix(mc_mix(sim_hash(), r), more));
}
static void turn(int r)
{
  MC_CHECK(sim_ready(), "round %d: nothing is reported although something happened", r);
  reactor_loop_once();
}
/* turns until nothing is ready */
static void rest(int r)
{
  int i;
  for (i = 0; i < 100 && sim_ready(); i++)
    reactor_loop_once();
  MC_CHECK(!sim_ready(), "round %d: the loop does not come to rest", r);
}
static uint8_t pat(uint64_t i) { return (uint8_t) (i * 131 + i / 251 * 7 + i / 65536 * 3 + 1); }

/* ---- C01, C02, C04: the loop ---- */
#define LD 40
static struct { int *fd; reactor_handler h; sim_conn *c; int calls, on; uint64_t seen; } D[LD];
static int dcalls, dr, dmode, dlast, dself;

static void d_drain(int i)
{
  char b[16];
  while (read(D[i].c->fd, b, sizeof b) > 0);
}
static void d_cb(reactor_event *e)
{
  int i = (int *) e->state - (int *) D[0].fd;
  struct epoll_event *ep = (struct epoll_event *) e->data;

  MC_CHECK(e->type == REACTOR_EPOLL_EVENT, "type %d", e->type);
  MC_CHECK(i >= 0 && i < LD && D[i].on, "round %d: callback of a descriptor that is not added", dr);
  MC_CHECK(ep->events & EPOLLIN, "round %d: events %x", dr, ep->events);
  D[i].calls++;
  dcalls++;
  dlast = i;
  MC_CHECK(reactor_now() == sim_now(), "round %d: the time is off by %lld", dr, (long long) (reactor_now() - sim_now()));
  d_drain(i);
  if (dself)
  {
    reactor_delete(&D[i].h, D[i].c->fd);
    D[i].on = 0;
  }
}
static void core_loop(int mode)
{
  static int ids[LD];
  int i, k, r, n = 0;

  dmode = mode;
  begin();
  for (i = 0; i < LD; i++)
  {
    memset(&D[i], 0, sizeof D[i]);
    D[i].fd = &ids[i];
    D[i].c = sim_conn_new(SIM_PIPE_R, 0);
    reactor_handler_construct(&D[i].h, d_cb, &ids[i]);
    reactor_add(&D[i].h, D[i].c->fd, EPOLLIN | (i % 2 ? EPOLLET : 0));
    D[i].on = 1;
  }
  for (r = 0; r < rounds; r++)
  {
    dr = r;
    dself = 0;
    sim_set_now(sim_now() + 1 + (r % 3 ? 999999 : r % 7 ? 17 : SEC));
    switch (mode)
    {
    case 0: /* one after the other */
      n = 1;
      k = r % LD;
      sim_peer_send(D[k].c, "x", 1);
      break;
    case 1: /* many at once */
      n = 1 + r % 32;
      for (i = 0; i < n; i++)
        sim_peer_send(D[(r + i) % LD].c, "x", 1);
      break;
    case 2: /* deleted and added again */
      k = r % LD;
      reactor_delete(&D[k].h, D[k].c->fd);
      D[k].on = 0;
      sim_peer_send(D[k].c, "x", 1);
      if (r % 2)
        MC_CHECK(!sim_ready(), "round %d: a deleted descriptor is watched", r);
      D[k].on = 1;
      reactor_add(&D[k].h, D[k].c->fd, EPOLLIN | (r % 3 ? EPOLLET : 0));
      n = 1;
      break;
    case 3: /* changed */
      k = r % LD;
      reactor_modify(&D[k].h, D[k].c->fd, EPOLLET);
      sim_peer_send(D[k].c, "x", 1);
      MC_CHECK(!sim_ready(), "round %d: a descriptor is watched for what was not asked", r);
      reactor_modify(&D[k].h, D[k].c->fd, EPOLLIN);
      n = 1;
      break;
    case 4: /* deletes itself in its callback */
      dself = 1;
      k = r % LD;
      sim_peer_send(D[k].c, "x", 1);
      n = 1;
      break;
    }
    dcalls = 0;
    turn(r);
    MC_CHECK(dcalls == n, "round %d: %d callbacks for %d ready descriptors", r, dcalls, n);
    if (n == 1)
      MC_CHECK(dlast == r % LD, "round %d: descriptor %d is reported instead of %d", r, dlast, r % LD);
    MC_CHECK(!sim_ready(), "round %d: something is still ready", r);
    if (mode == 4)
    {
      k = r % LD;
      D[k].on = 1;
      reactor_add(&D[k].h, D[k].c->fd, EPOLLIN);
    }
    MC_CHECK(reactor_now() == sim_now(), "round %d: the time is off by %lld", r, (long long) (reactor_now() - sim_now()));
    state(r, mode);
  }
  for (i = 0; i < LD; i++)
  {
    if (D[i].on)
      reactor_delete(&D[i].h, D[i].c->fd);
    close(D[i].c->fd);
  }
  end();
}
static void core_endurance(void) { core_loop(mc_choose(5, "one at a time, many, deleted and added, changed, deletes itself")); }

/* the loop runs until it is stopped or nothing is left */
static int lmode, lcount;
static void l_cb(reactor_event *e)
{
  int i = (int *) e->state - (int *) D[0].fd, k;
  char b[4];

  MC_CHECK(D[i].on, "callback of a descriptor that is not added");
  while (read(D[i].c->fd, b, sizeof b) > 0);
  lcount++;
  MC_CHECK(lcount <= rounds, "the loop goes on after it was stopped");
  mc_step();
  if (lcount == rounds)
  {
    if (lmode == 0)
      reactor_abort();
    else
      for (k = 0; k < 2; k++)
      {
        reactor_delete(&D[k].h, D[k].c->fd);
        D[k].on = 0;
      }
    return;
  }
  if (lmode == 2)
  {
    reactor_delete(&D[i].h, D[i].c->fd);
    reactor_add(&D[i].h, D[i].c->fd, EPOLLIN);
  }
  sim_peer_send(D[lcount % 2].c, "x", 1);
}
static int l_block(int epfd)
{
  (void) epfd;
  mc_fail("the loop sleeps in round %d although its work is done", lcount);
}
static void loop_endurance(void)
{
  static int ids[2];
  int i;

  lmode = mc_choose(3, "stopped, all deleted, deleted and added all the time");
  begin();
  lcount = 0;
  for (i = 0; i < 2; i++)
  {
    memset(&D[i], 0, sizeof D[i]);
    D[i].fd = &ids[i];
    D[i].c = sim_conn_new(SIM_PIPE_R, 0);
    reactor_handler_construct(&D[i].h, l_cb, &ids[i]);
    reactor_add(&D[i].h, D[i].c->fd, EPOLLIN);
    D[i].on = 1;
  }
  sim_peer_send(D[0].c, "x", 1);
  sim_on_block = l_block;
  reactor_loop();
  sim_on_block = NULL;
  MC_CHECK(lcount == rounds, "the loop ends after %d callbacks instead of %d", lcount, rounds);
  for (i = 0; i < 2; i++)
  {
    if (D[i].on)
      reactor_delete(&D[i].h, D[i].c->fd);
    close(D[i].c->fd);
  }
  state(rounds, lmode);
  end();
}

/* ---- C03: descriptors ---- */
static descriptor ds;
static int dev[3], ddo;
static sim_conn *dc;
static void ds_cb(reactor_event *e)
{
  char b[8];
  MC_CHECK(e->type >= 0 && e->type <= 2, "event %d", e->type);
  MC_CHECK(descriptor_is_open(&ds), "event of a closed descriptor");
  dev[e->type]++;
  if (e->type == DESCRIPTOR_READ)
    while (read(descriptor_fd(&ds), b, sizeof b) > 0);
  if (ddo == e->type + 1)
    descriptor_close(&ds);
}
static void descriptor_endurance(void)
{
  int mode = mc_choose(3, "opened and closed, mask changed, closed in the callback"), r, level;

  begin();
  ddo = 0;
  descriptor_construct(&ds, ds_cb, NULL);
  for (r = 0; r < rounds; r++)
  {
    level = r % 2 ? DESCRIPTOR_LEVEL : 0;
    memset(dev, 0, sizeof dev);
    if (!descriptor_is_open(&ds))
    {
      dc = sim_conn_new(SIM_SOCK, 64);
      descriptor_open(&ds, dc->fd, (mode == 1 ? DESCRIPTOR_CLOSE : DESCRIPTOR_READ) | level);
      MC_CHECK(descriptor_is_open(&ds) && descriptor_fd(&ds) == dc->fd, "round %d: not open", r);
    }
    switch (mode)
    {
    case 0:
      sim_peer_send(dc, "a", 1);
      turn(r);
      MC_CHECK(dev[0] == 0 && dev[1] == 1 && dev[2] == 0, "round %d: %d close, %d read, %d write events for one byte", r, dev[0], dev[1], dev[2]);
      sim_peer_fin(dc);
      turn(r);
      MC_CHECK(dev[0] == 1 && dev[2] == 0, "round %d: %d close, %d read, %d write events when the peer finished", r, dev[0], dev[1], dev[2]);
      descriptor_close(&ds);
      MC_CHECK(dc->closed, "round %d: closed and still open", r);
      break;
    case 1:
      sim_peer_send(dc, "a", 1);
      MC_CHECK(!sim_ready(), "round %d: watched for what was not asked", r);
      descriptor_mask(&ds, DESCRIPTOR_READ);
      turn(r);
      MC_CHECK(dev[0] == 0 && dev[1] == 1 && dev[2] == 0, "round %d: %d close, %d read, %d write events for one byte", r, dev[0], dev[1], dev[2]);
      descriptor_mask(&ds, DESCRIPTOR_WRITE);
      turn(r);
      MC_CHECK(dev[0] == 0 && dev[1] == 1 && dev[2] == 1, "round %d: %d close, %d read, %d write events for one byte and space", r, dev[0], dev[1], dev[2]);
      descriptor_mask(&ds, DESCRIPTOR_CLOSE);
      MC_CHECK(!sim_ready(), "round %d: watched for what was not asked", r);
      break;
    case 2:
      sim_peer_send(dc, "a", 1);
      if (r % 3 == 0)
        sim_peer_fin(dc);
      ddo = 1 + DESCRIPTOR_READ;
      turn(r);
      ddo = 0;
      MC_CHECK(dev[1] == 1 && !descriptor_is_open(&ds) && dc->closed, "round %d: not closed by its callback", r);
      MC_CHECK(!sim_ready(), "round %d: a closed descriptor is watched", r);
      break;
    }
    MC_CHECK(sim_open_fds() == 1 + descriptor_is_open(&ds), "round %d: descriptors:%s", r, sim_open_list());
    state(r, mode);
  }
  descriptor_destruct(&ds);
  end();
}

/* ---- C06-C09, C11: streams ---- */
static stream *st;
static sim_conn *sc;
static int sev[3];
static uint64_t sin_, scon;
static void st_cb(reactor_event *e)
{
  MC_CHECK(e->type >= 0 && e->type <= 2, "event %d", e->type);
  sev[e->type]++;
}
static void st_open(size_t cap, int mask)
{
  sc = sim_conn_new(SIM_SOCK, cap);
  sin_ = scon = 0;
  stream_open(st, sc->fd, mask, NULL);
}
static void st_new(void)
{
  st = malloc(sizeof *st);
  stream_construct(st, st_cb, NULL);
  memset(sev, 0, sizeof sev);
}
static void st_free(void)
{
  stream_destruct(st);
  free(st);
}
/* what the peer has taken is the pattern from at on */
static uint64_t peer_check(uint64_t at, int r)
{
  size_t i;
  for (i = 0; i < sc->gotlen; i++)
    MC_CHECK(sc->got[i] == pat(at + i), "round %d: byte %llu of the output is wrong", r, (unsigned long long) (at + i));
  at += sc->gotlen;
  sc->gotlen = 0;
  return at;
}
static void stream_writes(void)
{
  int mode = mc_choose(4, "flushed at once, slow peer, allocated, flushed now and then"), r;
  static const int sizes[] = {1, 2, 7, 64, 255, 3, 19};
  uint64_t w = 0, v = 0;
  uint8_t b[256], *p;
  int n, i;

  begin();
  st_new();
  st_open(mode == 1 ? 100 : 1 << 20, STREAM_READ);
  for (r = 0; r < rounds; r++)
  {
    n = sizes[r % N(sizes)];
    if (mode == 1)
      n = n % 40 + 1;
    p = mode == 2 ? stream_allocate(st, n) : b;
    for (i = 0; i < n; i++)
      p[i] = pat(w + i);
    if (mode != 2)
      stream_write(st, data_construct(b, n));
    w += n;
    if (mode != 3 || r % 1000 == 999)
      stream_flush(st);
    if (mode == 1)
    {
      for (i = 0; i < 4 && sc->sent < w; i++)
      {
        sim_peer_take(sc, 25);
        v = peer_check(v, r);
        if (sim_ready())
          reactor_loop_once();
      }
      if (r % 64 == 63)
      {
        while (sc->sent < w)
        {
          sim_peer_take(sc, 100);
          turn(r);
        }
      }
    }
    else if (mode != 3 || r % 1000 == 999)
      MC_CHECK(sc->sent == w, "round %d: %llu bytes written and flushed, %llu sent", r, (unsigned long long) w, (unsigned long long) sc->sent);
    if (mode != 1)
      sim_peer_take(sc, -1);
    v = peer_check(v, r);
    if (sim_ready() && r % 5 == 0)
      reactor_loop_once();
    state(r, sc->sent);
  }
  stream_flush(st);
  while (sc->sent < w)
  {
    sim_peer_take(sc, 100);
    v = peer_check(v, r);
    turn(r);
  }
  sim_peer_take(sc, -1);
  v = peer_check(v, r);
  MC_CHECK(v == w, "%llu bytes of %llu arrive", (unsigned long long) v, (unsigned long long) w);
  MC_CHECK(!sev[STREAM_CLOSE] && !sev[STREAM_READ], "%d close, %d read events", sev[0], sev[1]);
  st_free();
  end();
}
static void stream_reads(void)
{
  int mode = mc_choose(3, "consumed at once, consumed later, in pieces"), r, n, i;
  static const int sizes[] = {1, 2, 7, 64, 255, 3, 19};
  uint64_t in = 0, con = 0;
  uint8_t b[256];
  data d;

  begin();
  st_new();
  st_open(1000, STREAM_READ);
  for (r = 0; r < rounds; r++)
  {
    n = sizes[r % N(sizes)];
    for (i = 0; i < n; i++)
      b[i] = pat(in + i);
    sim_peer_send(sc, b, n);
    in += n;
    sev[STREAM_READ] = 0;
    turn(r);
    MC_CHECK(sev[STREAM_READ] == 1, "round %d: %d read events", r, sev[STREAM_READ]);
    d = stream_read(st);
    MC_CHECK(data_size(d) == in - con, "round %d: %zu bytes readable instead of %llu", r, data_size(d), (unsigned long long) (in - con));
    if (mode == 0)
      n = in - con;
    else if (mode == 1)
      n = r % 50 == 49 ? (int) (in - con) - 1 : 0;
    else
      n = (int) (in - con) > 3 ? (int) (in - con) - r % 4 : 0;
    for (i = 0; i < (int) data_size(d); i += mode == 1 && i > 300 ? 97 : 1)
      MC_CHECK(((uint8_t *) data_base(d))[i] == pat(con + i), "round %d: byte %llu of the input is wrong", r, (unsigned long long) (con + i));
    stream_consume(st, n);
    con += n;
    MC_CHECK(data_size(stream_read(st)) == in - con, "round %d: %zu bytes remain", r, data_size(stream_read(st)));
    rest(r);
    MC_CHECK(sev[STREAM_READ] == 1, "round %d: %d read events", r, sev[STREAM_READ]);
    state(r, in - con);
  }
  MC_CHECK(!sev[STREAM_CLOSE] && !sev[STREAM_WRITE], "%d close, %d write events", sev[0], sev[2]);
  st_free();
  end();
}
static void stream_notes(void)
{
  int mode = mc_choose(3, "notification, after output, of a slow peer"), r, n;
  begin();
  st_new();
  st_open(10, STREAM_READ);
  for (r = 0; r < rounds; r++)
  {
    sev[STREAM_WRITE] = 0;
    if (mode)
    {
      stream_write(st, data_construct("0123456789abcdef", mode == 2 ? 16 : 5));
      stream_flush(st);
      if (mode == 2)
      {
        rest(r);
        MC_CHECK(sev[STREAM_WRITE] == 0, "round %d: reported without space", r);
        sim_peer_take(sc, -1);
      }
    }
    stream_notify(st);
    for (n = 0; n < 5 && sim_ready(); n++)
    {
      reactor_loop_once();
      if (sev[STREAM_WRITE])
        break;
    }
    MC_CHECK(sev[STREAM_WRITE] == 1, "round %d: %d write events", r, sev[STREAM_WRITE]);
    sim_peer_take(sc, -1);
    sc->gotlen = 0;
    rest(r);
    MC_CHECK(sev[STREAM_WRITE] == 1, "round %d: %d write events for one notification", r, sev[STREAM_WRITE]);
    state(r, mode);
  }
  MC_CHECK(!sev[STREAM_CLOSE] && !sev[STREAM_READ], "%d close, %d read events", sev[0], sev[1]);
  st_free();
  end();
}
/* one stream object used for one connection after the other (C09: each ends with one close event, C11) */
static void stream_reopened(void)
{
  int mode = mc_choose(4, "peer finishes, resets, owner closes, owner closes with output and input pending"), r;
  uint8_t b[8];
  data d;

  begin();
  st_new();
  for (r = 0; r < rounds; r++)
  {
    memset(sev, 0, sizeof sev);
    st_open(mode == 3 ? 2 : 100, STREAM_READ);
    MC_CHECK(data_size(stream_read(st)) == 0, "round %d: input of an earlier connection", r);
    memcpy(b, &r, 4);
    stream_write(st, data_construct(b, 4));
    stream_flush(st);
    if (mode != 3)
    {
      sim_peer_take(sc, -1);
      MC_CHECK(sc->gotlen == 4 && !memcmp(sc->got, b, 4), "round %d: the output is wrong", r);
    }
    b[4] = 'x';
    sim_peer_send(sc, b, 5);
    if (mode == 0 || mode == 1)
    {
      turn(r);
      d = stream_read(st);
      MC_CHECK(sev[STREAM_READ] == 1 && data_size(d) == 5 && !memcmp(data_base(d), b, 5), "round %d: the input is wrong", r);
      if (mode)
        sim_peer_rst(sc);
      else
        sim_peer_fin(sc);
      turn(r);
      MC_CHECK(sev[STREAM_CLOSE] == 1, "round %d: %d close events", r, sev[STREAM_CLOSE]);
    }
    else if (r % 2)
      turn(r);
    stream_close(st);
    MC_CHECK(sc->closed && sim_open_fds() == 1, "round %d: descriptors after closing:%s", r, sim_open_list());
    memset(sev, 0, sizeof sev);
    rest(r);
    MC_CHECK(!sev[0] && !sev[1] && !sev[2], "round %d: events after closing", r);
    state(r, mode);
  }
  st_free();
  end();
}

/* ---- C12-C16: the server ---- */
static server *sv;
static int sr, smode, shandled, snew;
static server_request *sreq, *sheld[1];
static char stext[64];
static void sv_text(int r) { sprintf(stext, "%d", r); }
static void sv_cb(reactor_event *e)
{
  server_request *q = (server_request *) e->data;
  char t[64];

  MC_CHECK(e->type == SERVER_REQUEST, "event %d", e->type);
  sprintf(t, "/r%d", shandled + snew);
  MC_CHECK(data_equal(q->method, data_string("GET")) && data_equal(q->target, data_string(t)), "request %d: the handler is given '%.*s'", shandled, (int) data_size(q->target), (char *) data_base(q->target));
  MC_CHECK(q->fields_count == 1 && data_equal(q->fields[0].name, data_string("Host")), "request %d: %zu fields", shandled, q->fields_count);
  shandled++;
  mc_step();
  sv_text(shandled + snew);
  if (smode == 0)
    server_ok(q, data_string("text/plain"), data_string(stext));
  else
    sreq = q;
}
static const char *svdate = "Sun, 09 Sep 2001 01:46:40 GMT";
static size_t answer_text(char *p, int k)
{
  char t[16];
  int n = sprintf(t, "%d", k);
  return sprintf(p, "HTTP/1.1 200 OK\r\nServer: reactor\r\nDate: %s\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n%s", svdate, n, t);
}
static uint64_t sgot;
/* how many answers the peer has received in order, from answer k on */
static int answers(int k, int r)
{
  char t[256];
  size_t n, at = 0;
  while (at < sc->gotlen)
  {
    n = answer_text(t, k);
    if (sc->gotlen - at < n)
      break;
    if (memcmp(sc->got + at, t, n))
    {
      /* not necessarily wrong in this form: the fields may come in any order */
      char *e = memmem(sc->got + at, sc->gotlen - at, "\r\n\r\n", 4);
      char len[40];
      sprintf(len, "Content-Length: %zu\r\n", strlen(strstr(t, "\r\n\r\n") + 4));
      MC_CHECK(e, "round %d: answer %d has no end", r, k);
      n = e + 4 - (char *) (sc->got + at) + strlen(strstr(t, "\r\n\r\n") + 4);
      MC_CHECK(!memcmp(sc->got + at, "HTTP/1.1 200 OK\r\n", 17) && memmem(sc->got + at, n, len, strlen(len)), "round %d: answer %d is wrong: '%.*s'", r, k, (int) n, (char *) sc->got + at);
      if (sc->gotlen - at < n)
        break;
      MC_CHECK(!memcmp(e + 4, strstr(t, "\r\n\r\n") + 4, strlen(strstr(t, "\r\n\r\n") + 4)), "round %d: answer %d has a wrong body", r, k);
    }
    at += n;
    k++;
  }
  memmove(sc->got, sc->got + at, sc->gotlen - at);
  sc->gotlen -= at;
  sgot += at;
  return k;
}
static void ask(sim_conn *c, int i)
{
  char t[64];
  sim_peer_send(c, t, sprintf(t, "GET /r%d HTTP/1.1\r\nHost: a\r\n\r\n", i));
}
static int slfd;
static void sv_begin(void)
{
  begin();
  sv = malloc(sizeof *sv);
  server_construct(sv, sv_cb, NULL);
  slfd = sim_listen_new();
  server_open(sv, slfd, NULL);
  sim_advance(1);
  rest(0); /* the date */
  shandled = snew = 0;
  sreq = NULL;
  sgot = 0;
}
static void sv_end(void)
{
  server_destruct(sv);
  free(sv);
  end();
}
/* many requests on one connection (C12), held and answered later (C14: none is lost) */
static void server_requests(void)
{
  static const int batches[] = {1, 7, 1000};
  int b = batches[mc_choose(N(batches), "requests at a time")], r, i, k = 1, held = 0;
  int cut = mc_choose(2, "whole, in two pieces");

  smode = mc_choose(2, "answered at once, later");
  sv_begin();
  sc = sim_listen_connect(slfd, 1 << 22);
  turn(0);
  for (r = 0; r < rounds; r += b)
  {
    for (i = 0; i < b; i++)
      ask(sc, r + i);
    if (cut)
    {
      sim_peer_send(sc, "GE", 2);
    }
    turn(r);
    if (smode)
      for (i = 0; i < b; i++)
      {
        MC_CHECK(shandled == r + i + 1 && sreq, "round %d: %d requests handled instead of %d", r, shandled, r + i + 1);
        server_request *q = sreq;
        sreq = NULL;
        if (r % 3 == 1)
        {
          server_hold(q);
          held = 1;
        }
        sv_text(shandled);
        server_ok(q, data_string("text/plain"), data_string(stext));
        if (held)
          server_release(q);
        held = 0;
      }
    MC_CHECK(shandled == r + b, "round %d: %d requests handled instead of %d", r, shandled, r + b);
    MC_CHECK(!sc->closed, "round %d: the connection is closed", r);
    sim_peer_take(sc, -1);
    k = answers(k, r);
    MC_CHECK(k == r + b + 1 && !sc->gotlen, "round %d: %d answers arrived instead of %d", r, k - 1, r + b);
    if (cut)
    {
      /* the rest of a request that the handler then sees as the next one */
      char t[64];
      sim_peer_send(sc, t, sprintf(t, "T /r%d HTTP/1.1\r\nHost: a\r\n\r\n", r + b));
      turn(r);
      if (smode)
      {
        MC_CHECK(sreq, "round %d: no request", r);
        sv_text(shandled);
        server_ok(sreq, data_string("text/plain"), data_string(stext));
        sreq = NULL;
      }
      r++;
      sim_peer_take(sc, -1);
      k = answers(k, r);
      MC_CHECK(shandled == r + b && k == r + b + 1 && !sc->gotlen, "round %d: %d handled, %d answers arrived instead of %d", r, shandled, k - 1, r + b);
    }
    rest(r);
    state(r, k);
  }
  sim_peer_fin(sc);
  turn(r);
  MC_CHECK(sc->closed, "not closed when the client finished");
  sv_end();
}
/* one connection after the other (C13, C15), ended in every way */
static void server_connections(void)
{
  int mode = mc_choose(7, "client finishes, resets, the server closes, bad request, held past the end, bad request and leaves without the answer, leaves without the answer"), r, k;
  long live;

  smode = mode == 2 || mode == 4;
  sv_begin();
  live = mc_mem_live();
  for (r = 0; r < rounds; r++)
  {
    sc = sim_listen_connect(slfd, mode > 4 ? 20 : 1000);
    turn(r);
    MC_CHECK(sc->fd >= 0, "round %d: the connection is not accepted", r);
    if (r % 2 == 0)
      rest(r);
    snew = r - shandled;
    shandled += 0;
    if (mode != 3 && (mode != 5 || r % 2))
      ask(sc, r);
    if (mode == 3 || mode == 5)
      sim_peer_send(sc, "\x01\r\n\r\n", 5);
    turn(r);
    if (mode != 3 && (mode != 5 || r % 2))
      MC_CHECK(shandled + snew == r + 1, "round %d: the request is not handled", r);
    if (mode > 4)
    {
      MC_CHECK(!sc->closed, "round %d: closed before the answer is through", r);
      if (r % 3)
        sim_peer_rst(sc);
      else
        sim_peer_fin(sc);
      rest(r);
    }
    else if (mode == 0 || mode == 1)
    {
      sim_peer_take(sc, -1);
      k = answers(r + 1, r);
      MC_CHECK(k == r + 2, "round %d: no answer", r);
      if (mode)
        sim_peer_rst(sc);
      else
        sim_peer_fin(sc);
      turn(r);
    }
    else if (mode == 2)
    {
      MC_CHECK(!sc->closed, "round %d: closed early", r);
      server_close(sreq);
      server_release(sreq);
    }
    else if (mode == 3)
    {
      rest(r);
      sim_peer_take(sc, -1);
      MC_CHECK(sc->gotlen > 12 && !memcmp(sc->got, "HTTP/1.1 400 ", 13), "round %d: no 400", r);
      rest(r);
    }
    else
    {
      sim_peer_fin(sc);
      turn(r);
      MC_CHECK(mc_mem_live() > live, "round %d: the request is gone while the handler has it", r);
      sv_text(r + 1);
      server_ok(sreq, data_string("text/plain"), data_string(stext));
    }
    sreq = NULL;
    MC_CHECK(sc->closed, "round %d: the connection is still open", r);
    MC_CHECK(mc_mem_live() == live, "round %d: %ld heap blocks left of a connection", r, mc_mem_live() - live);
    MC_CHECK(sim_open_fds() == 3, "round %d: descriptors left:%s", r, sim_open_list());
    rest(r);
    state(r, mode);
  }
  sv_end();
}
/* the date of every answer over a long time, in steps of a second, an hour, or several days (C16) */
static void date_text(char *p, int64_t t)
{
  static const char days[] = "ThuFriSatSunMonTueWed", months[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
  int64_t d = t / 86400, y = 1970, m = 0, l;
  int s = t % 86400, wd = d % 7;
  for (;; y++)
  {
    l = 365 + (y % 4 == 0 && (y % 100 || y % 400 == 0));
    if (d < l)
      break;
    d -= l;
  }
  for (;; m++)
  {
    l = m == 1 ? 28 + (y % 4 == 0 && (y % 100 || y % 400 == 0)) : 30 + ((m + 1 + (m >= 7)) % 2);
    if (d < l)
      break;
    d -= l;
  }
  sprintf(p, "%.3s, %02d %.3s %04d %02d:%02d:%02d GMT", days + 3 * wd, (int) d + 1, months + 3 * m, (int) y, s / 3600, s / 60 % 60, s % 60);
}
static void server_dates(void)
{
  static const uint64_t steps[] = {SEC, 9001 * SEC, 3 * SEC + 7, 86400 * SEC + 61 * SEC};
  uint64_t step = steps[mc_choose(N(steps), "time between answers")];
  char want[2][40], head[80];
  int r, i, n = step > 86400 * SEC ? mc_param() / 2 : mc_param(), mode = mc_choose(2, "one connection, one each");

  smode = 0;
  sv_begin();
  for (r = 0; r < n; r++)
  {
    sim_advance(step);
    rest(r);
    if (!r || mode)
      sc = sim_listen_connect(slfd, 1000);
    rest(r);
    snew = r - shandled;
    ask(sc, r);
    turn(r);
    MC_CHECK(shandled + snew == r + 1, "round %d: the request is not handled", r);
    sim_peer_take(sc, -1);
    for (i = 0; i < 2; i++)
    {
      date_text(head, sim_now() / SEC - i);
      snprintf(want[i], sizeof want[i], "Date: %.29s\r\n", head);
    }
    MC_CHECK(memmem(sc->got, sc->gotlen, want[0], strlen(want[0])) || memmem(sc->got, sc->gotlen, want[1], strlen(want[1])), "round %d: the answer '%.*s' has not the %s", r, (int) sc->gotlen, (char *) sc->got, want[0]);
    sc->gotlen = 0;
    if (mode)
    {
      sim_peer_fin(sc);
      turn(r);
      MC_CHECK(sc->closed, "round %d: not closed when the client finished", r);
    }
    state(r, step);
  }
  sv_end();
}
/* a server opened and shut down again and again */
static void server_reopened(void)
{
  int mode = mc_choose(3, "idle connection, answered one, handler has a request"), r, k;
  long live;

  smode = mode == 2;
  begin();
  sv = malloc(sizeof *sv);
  server_construct(sv, sv_cb, NULL);
  shandled = snew = 0;
  sreq = NULL;
  live = mc_mem_live();
  for (r = 0; r < rounds; r++)
  {
    slfd = sim_listen_new();
    server_open(sv, slfd, NULL);
    sim_advance(1);
    rest(r);
    sc = sim_listen_connect(slfd, 1000);
    turn(r);
    MC_CHECK(sc->fd >= 0, "round %d: the connection is not accepted", r);
    if (mode)
    {
      snew = r - shandled;
      ask(sc, r);
      rest(r);
      MC_CHECK(shandled + snew == r + 1, "round %d: the request is not handled", r);
      if (mode == 1)
      {
        sim_peer_take(sc, -1);
        k = answers(r + 1, r);
        MC_CHECK(k == r + 2, "round %d: no answer", r);
      }
    }
    server_shutdown(sv);
    MC_CHECK(sc->closed && sim_open_fds() == 1, "round %d: descriptors left after shutting down:%s", r, sim_open_list());
    if (mode == 2)
    {
      sv_text(r);
      server_ok(sreq, data_string("text/plain"), data_string(stext));
    }
    sreq = NULL;
    MC_CHECK(mc_mem_live() == live, "round %d: %ld heap blocks left after shutting down", r, mc_mem_live() - live);
    rest(r);
    state(r, mode);
  }
  server_destruct(sv);
  free(sv);
  end();
}

/* bad requests, each after a good one and on a connection of its own (C14) */
static void server_bad(void)
{
  static const char *bad[] = {"GET\r\n\r\n", "GET /x HTTP/2.0\r\n\r\n", "GET /x HTTP/1.1\r\n:a\r\n\r\n", "\x01", "GET /x HTTP/1.1\nA\n\n", "\r\r"};
  int mode = mc_choose(3, "first, after a request, with more behind"), r, n;
  uint8_t *p;

  smode = 0;
  sv_begin();
  for (r = 0; r < rounds; r++)
  {
    sc = sim_listen_connect(slfd, 2000);
    turn(r);
    snew = r - shandled;
    if (mode == 1)
      ask(sc, r);
    sim_peer_send(sc, bad[r % N(bad)], strlen(bad[r % N(bad)]));
    if (mode == 2)
      ask(sc, r);
    n = shandled;
    rest(r);
    MC_CHECK(shandled == n + (mode == 1), "round %d: %d requests handled", r, shandled - n);
    sim_peer_take(sc, -1);
    p = memmem(sc->got, sc->gotlen, "HTTP/1.1 400 ", 13);
    MC_CHECK(p && (mode == 1) == (p > sc->got), "round %d: no 400", r);
    MC_CHECK(!memmem(p + 1, sc->got + sc->gotlen - p - 1, "HTTP/1.1 ", 9), "round %d: something after the 400", r);
    rest(r);
    MC_CHECK(sc->closed, "round %d: not closed", r);
    state(r, mode);
  }
  sv_end();
}

/* ---- C30: events ---- */
static event ee;
static uint64_t esum;
static int ecalls, eagain;
static void ee_cb(reactor_event *e)
{
  MC_CHECK(e->type == EVENT_SIGNAL && e->data > 0, "event %d, %llu", e->type, (unsigned long long) e->data);
  esum += e->data;
  ecalls++;
  if (eagain > 0)
  {
    eagain--;
    event_signal(&ee);
  }
}
static void event_endurance(void)
{
  int mode = mc_choose(4, "one signal a turn, all signals first, opened and closed, signalled in the callback"), r;
  uint64_t given = 0;

  begin();
  event_construct(&ee, ee_cb, NULL);
  event_open(&ee);
  esum = ecalls = eagain = 0;
  if (mode == 3)
    eagain = rounds - 1, event_signal(&ee);
  for (r = 0; r < rounds; r++)
  {
    if (mode != 3)
    {
      event_signal(&ee);
      given++;
    }
    if (mode == 0 || mode == 2)
    {
      ecalls = 0;
      turn(r);
      MC_CHECK(ecalls == 1 && esum == given, "round %d: %llu signals reported, %llu given", r, (unsigned long long) esum, (unsigned long long) given);
      rest(r);
      MC_CHECK(ecalls == 1, "round %d: reported again", r);
    }
    if (mode == 2)
    {
      if (r % 2)
      {
        event_signal(&ee);
        event_signal(&ee);
      }
      event_close(&ee);
      MC_CHECK(!event_is_open(&ee) && sim_open_fds() == 1, "round %d: closed:%s", r, sim_open_list());
      event_open(&ee);
      rest(r);
      MC_CHECK(esum == given, "round %d: signals survive closing", r);
    }
    if (mode == 3)
    {
      turn(r);
      MC_CHECK(esum <= (uint64_t) rounds, "more signals reported than given");
    }
    state(r, esum);
  }
  if (mode == 1)
    for (r = 0; r < rounds && esum < given; r++)
      turn(r);
  if (mode == 3)
    given = rounds;
  while (esum < given && sim_ready())
    reactor_loop_once();
  MC_CHECK(esum == given, "%llu signals reported, %llu given", (unsigned long long) esum, (unsigned long long) given);
  rest(r);
  MC_CHECK(esum == given, "more is reported than was given");
  event_destruct(&ee);
  end();
}

/* ---- C31: timers ---- */
static timer tt;
static uint64_t tsum, tcalls;
static int tset;
static void tt_cb(reactor_event *e)
{
  MC_CHECK(e->type == TIMER_EXPIRATION && e->data > 0, "event %d, %llu", e->type, (unsigned long long) e->data);
  tsum += e->data;
  tcalls++;
  if (tset)
    timer_set(&tt, 1000, 0);
}
static void timer_endurance(void)
{
  int mode = mc_choose(5, "interval, set every time, set in the callback, cleared, several expirations at once"), r, i;
  uint64_t want = 0, ti = 12345;

  begin();
  timer_construct(&tt, tt_cb, NULL);
  tsum = tcalls = 0;
  tset = mode == 2;
  if (mode != 1 && mode != 3)
    timer_set(&tt, mode == 2 ? 1000 : ti, mode == 2 ? 0 : ti);
  for (r = 0; r < rounds; r++)
  {
    tcalls = 0;
    switch (mode)
    {
    case 0:
      sim_advance(ti - 1);
      rest(r);
      MC_CHECK(tcalls == 0, "round %d: early", r);
      sim_advance(1);
      want++;
      break;
    case 1:
      timer_set(&tt, 100 + r, 0);
      sim_advance(99 + r);
      rest(r);
      MC_CHECK(tcalls == 0, "round %d: early", r);
      sim_advance(1);
      want++;
      break;
    case 2:
      sim_advance(999);
      rest(r);
      MC_CHECK(tcalls == 0, "round %d: early", r);
      sim_advance(1);
      want++;
      break;
    case 3:
      timer_set(&tt, 100, r % 2 ? 50 : 0);
      sim_advance(r % 3 ? 99 : 100);
      if (r % 3 == 0 && r % 2)
      {
        turn(r);
        want++;
        MC_CHECK(tsum == want, "round %d: %llu expirations, %llu reported", r, (unsigned long long) want, (unsigned long long) tsum);
      }
      timer_clear(&tt);
      sim_advance(1000);
      rest(r);
      MC_CHECK(tsum == want, "round %d: reported after clearing", r);
      state(r, mode);
      continue;
    case 4:
      i = r % 500 ? 1 + r % 20 : 70000;
      sim_advance(ti * i);
      want += i;
      break;
    }
    turn(r);
    MC_CHECK(tcalls == 1 && tsum == want, "round %d: %llu expirations, %llu reported", r, (unsigned long long) want, (unsigned long long) tsum);
    rest(r);
    MC_CHECK(tcalls == 1, "round %d: reported again", r);
    state(r, mode);
  }
  timer_destruct(&tt);
  end();
}

/* ---- C32: notifications ---- */
static notify nn;
static int ncalls, nwant_id;
static uint32_t nwant_mask;
static char nwant_name[32], nwant_path[32];
static void nn_cb(reactor_event *e)
{
  notify_event *n = (notify_event *) e->data;
  MC_CHECK(e->type == NOTIFY_EVENT, "event %d", e->type);
  ncalls++;
  MC_CHECK(n->id == nwant_id && n->mask == nwant_mask && !strcmp(n->name, nwant_name) && !strcmp(n->path, nwant_path), "reported %d %x '%.20s' '%.20s' instead of %d %x '%s' '%s'", n->id, n->mask, n->path, n->name,
           nwant_id, nwant_mask, nwant_path, nwant_name);
}
static void notify_endurance(void)
{
  static const int firsts[] = {1, 200, 32700, 65500, 70000, 0x7ffffff0 - 100};
  int mode = mc_choose(3, "one watch, several watches, cleared every time"), first = firsts[mc_choose(N(firsts), "numbers of watches from")], r, w[5], i, nw = mode == 1 ? 5 : 1, n = first == 1 ? mc_param() : mc_param() / 10;
  long live;

  begin();
  notify_construct(&nn, nn_cb, NULL);
  live = mc_mem_live();
  sim_inotify_first_wd(first);
  for (r = 0; r < n; r++)
  {
    if (mode == 2)
      sim_inotify_first_wd(first + r % 300 / 3);
    if (mode == 2 || r == 0)
      for (i = 0; i < nw; i++)
      {
        sprintf(nwant_path, "/dir%d", i);
        w[i] = notify_watch(&nn, nwant_path, IN_ALL_EVENTS);
        MC_CHECK(w[i] >= 0, "round %d: not watched", r);
      }
    i = r % nw;
    sprintf(nwant_path, "/dir%d", i);
    sprintf(nwant_name, r % 3 ? "f%d" : "", r);
    nwant_mask = 1u << r % 10;
    nwant_id = w[i];
    ncalls = 0;
    sim_inotify_emit(descriptor_fd(&nn.descriptor), w[i], nwant_mask, nwant_name);
    turn(r);
    MC_CHECK(ncalls == 1, "round %d: %d notifications reported", r, ncalls);
    rest(r);
    MC_CHECK(ncalls == 1, "round %d: reported again", r);
    if (mode == 2)
    {
      notify_clear(&nn);
      MC_CHECK(sim_open_fds() == 1 && mc_mem_live() == live, "round %d: left after clearing:%s, %ld heap blocks", r, sim_open_list(), mc_mem_live() - live);
    }
    state(r, mode);
  }
  notify_destruct(&nn);
  end();
}

#define LONG(p, f, q, t, sh) {p, "endurance", f, 0, 0, q, t, sh, 0}
const mc_scenario mc_scenarios[] = {
  LONG("C01", core_endurance, 70000, 300000, 1),
  LONG("C02", loop_endurance, 70000, 300000, 1),
  LONG("C03", descriptor_endurance, 70000, 300000, 1),
  LONG("C04", core_endurance, 70000, 300000, 1),
  LONG("C06", stream_writes, 70000, 300000, 1),
  LONG("C07", stream_reads, 70000, 300000, 1),
  LONG("C08", stream_notes, 70000, 300000, 1),
  LONG("C09", stream_reopened, 20000, 200000, 1),
  LONG("C11", stream_reopened, 70000, 200000, 1),
  LONG("C12", server_requests, 70000, 200000, 3),
  LONG("C13", server_connections, 70000, 200000, 1),
  {"C13", "reopened", server_reopened, 0, 0, 70000, 200000, 1, 0},
  {"C14", "endurance", server_bad, 0, 0, 70000, 200000, 1, 0},
  LONG("C15", server_connections, 70000, 200000, 1),
  LONG("C16", server_dates, 70000, 150000, 1),
  LONG("C30", event_endurance, 70000, 300000, 1),
  LONG("C31", timer_endurance, 70000, 300000, 1),
  LONG("C32", notify_endurance, 70000, 200000, 1),
  {NULL}
};
