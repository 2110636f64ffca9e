/* Endurance of encrypted connections: single histories of thousands of records, requests and sessions. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"
#include "tlspeer.h"

static uint8_t pat(uint64_t i) { return (uint8_t) (i * 131 + i / 251 * 7 + i / 65536 * 3 + 1); }
static long mem0;
static stream *st;
static sim_conn *sc;
static tlspeer *p;
static int sev[3];

static long mem_now(void)
{
  ERR_clear_error();
  OPENSSL_thread_stop();
  return mc_mem_live();
}
static void tbegin(void)
{
  static int warm;
  if (!warm)
  {
    time_t t = 0;
    struct tm tm;
    char b[64];
    tzset();
    gmtime_r(&t, &tm);
    strftime(b, sizeof b, "%a %d %b %Y %H:%M:%S", &tm);
    warm = 1;
  }
  tp_init();
  tp_seed(7);
  sim_reset();
  sim_call_limit(1u << 31);
  mem0 = mem_now();
  reactor_construct();
}
static void tend(void)
{
  reactor_destruct();
  MC_CHECK(sim_open_fds() == 0, "descriptors left open at the end:%s", sim_open_list());
  MC_CHECK(mem_now() == mem0, "heap blocks left at the end: %ld", mem_now() - mem0);
  mc_outcome(sim_calls());
}
static void state(int r, uint64_t more)
{
  mc_step();
  mc_state(mc_mix(mc_mix(sim_hash(), r), more));
}
static void exchange(int r)
{
  int i;
  for (i = 0; i < 200; i++)
  {
    if (!sc->closed && sim_peer_take(sc, -1))
      tp_feed(p, sc);
    if (p->fed == sc->gotlen)
      p->fed = sc->gotlen = 0;
    if (!sc->closed && tp_queued(p))
      tp_net(p, sc, -1);
    else if (!sim_ready())
      return;
    if (sim_ready())
      reactor_loop_once();
  }
  mc_fail("round %d: the two ends do not come to rest", r);
}
static void st_cb(reactor_event *e)
{
  MC_CHECK(e->type >= 0 && e->type <= 2, "event %d", e->type);
  sev[e->type]++;
}

static void tls_records(void)
{
  static const int sizes[] = {1, 2, 7, 64, 255, 3, 19};
  int ver = mc_choose(2, "TLS 1.3, 1.2"), server = mc_choose(2, "library is: client, server"), mode = mc_choose(3, "output, input, both"), r, i, n;
  uint64_t w = 0, v = 0, in = 0, con = 0;
  uint8_t b[256];
  data d;

  tbegin();
  st = malloc(sizeof *st);
  stream_construct(st, st_cb, NULL);
  memset(sev, 0, sizeof sev);
  sc = sim_conn_new(SIM_SOCK, 4000);
  p = tp_new(!server, ver);
  stream_open(st, sc->fd, STREAM_READ, server ? tp_server_ctx : tp_client_ctx);
  if (server)
  {
    (void) SSL_do_handshake(p->ssl);
    tp_pull(p);
  }
  exchange(-1);
  MC_CHECK(SSL_is_init_finished(p->ssl), "the handshake does not end");
  for (r = 0; r < mc_param(); r++)
  {
    n = sizes[r % 7];
    if (mode != 1)
    {
      for (i = 0; i < n; i++)
        b[i] = pat(w + i);
      stream_write(st, data_construct(b, n));
      w += n;
      stream_flush(st);
    }
    if (mode != 0)
    {
      for (i = 0; i < n; i++)
        b[i] = pat(in + i);
      tp_write(p, b, n);
      in += n;
      sev[STREAM_READ] = 0;
    }
    exchange(r);
    if (mode != 1)
    {
      MC_CHECK(p->plen == w - v, "round %d: %zu bytes of %llu arrive", r, p->plen, (unsigned long long) (w - v));
      for (i = 0; i < (int) p->plen; i++)
        MC_CHECK(p->plain[i] == pat(v + i), "round %d: byte %llu of the output is wrong", r, (unsigned long long) (v + i));
      v += p->plen;
      p->plen = 0;
    }
    if (mode != 0)
    {
      MC_CHECK(sev[STREAM_READ] >= 1, "round %d: no read event", r);
      d = stream_read(st);
      MC_CHECK(data_size(d) == in - con, "round %d: %zu bytes readable instead of %llu", r, data_size(d), (unsigned long long) (in - con));
      for (i = 0; i < (int) data_size(d); i++)
        MC_CHECK(((uint8_t *) data_base(d))[i] == pat(con + i), "round %d: byte %llu of the input is wrong", r, (unsigned long long) (con + i));
      n = data_size(d) - (data_size(d) > 4 ? r % 4 : 0);
      stream_consume(st, n);
      con += n;
    }
    state(r, mode);
  }
  MC_CHECK(!sev[STREAM_CLOSE], "%d close events", sev[0]);
  stream_destruct(st);
  free(st);
  tp_free(p);
  tend();
}

/* sessions one after the other on one stream object (C11), each used and ended in another way */
static void tls_reopened(void)
{
  int ver = mc_choose(2, "TLS 1.3, 1.2"), server = mc_choose(2, "library is: client, server"), r;
  long live;

  tbegin();
  st = malloc(sizeof *st);
  stream_construct(st, st_cb, NULL);
  live = 0;
  for (r = 0; r < mc_param(); r++)
  {
    memset(sev, 0, sizeof sev);
    sc = sim_conn_new(SIM_SOCK, 8000);
    p = tp_new(!server, ver);
    stream_open(st, sc->fd, STREAM_READ, server ? tp_server_ctx : tp_client_ctx);
    if (server)
    {
      (void) SSL_do_handshake(p->ssl);
      tp_pull(p);
    }
    if (r % 5)
    {
      exchange(r);
      MC_CHECK(SSL_is_init_finished(p->ssl), "session %d: the handshake does not end", r);
      stream_write(st, data_string("hello"));
      stream_flush(st);
      tp_write(p, "abc", 3);
      exchange(r);
      MC_CHECK(p->plen == 5 && !memcmp(p->plain, "hello", 5), "session %d: the output is wrong", r);
      MC_CHECK(data_equal(stream_read(st), data_string("abc")) && sev[STREAM_READ], "session %d: the input is wrong", r);
      if (r % 5 == 1)
      {
        sim_peer_fin(sc);
        exchange(r);
        MC_CHECK(sev[STREAM_CLOSE] == 1, "session %d: %d close events", r, sev[0]);
      }
      if (r % 5 == 2)
      {
        stream_write(st, data_string("lost"));
        tp_write(p, "def", 3);
        tp_net(p, sc, -1);
      }
    }
    else if (r % 10)
      tp_net(p, sc, 20);
    stream_close(st);
    MC_CHECK(sc->closed && sim_open_fds() == 1, "session %d: descriptors after closing:%s", r, sim_open_list());
    MC_CHECK(data_size(stream_read(st)) == 0 && !sim_ready(), "session %d: something left after closing", r);
    tp_free(p);
    if (r == 20)
      live = mem_now();
    if (r > 20 && r % 20 == 0)
      MC_CHECK(mem_now() == live, "session %d: heap blocks of earlier sessions: %ld", r, mem_now() - live);
    state(r, server);
  }
  stream_destruct(st);
  free(st);
  tend();
}

/* ---- the server ---- */
static server *sv;
static int handled, mode;
static server_request *req;
static char text[64];
static void sv_cb(reactor_event *e)
{
  server_request *q = (server_request *) e->data;
  char t[64];

  sprintf(t, "/r%d", handled);
  MC_CHECK(data_equal(q->method, data_string("GET")) && data_equal(q->target, data_string(t)), "request %d: the handler is given '%.*s'", handled, (int) data_size(q->target), (char *) data_base(q->target));
  handled++;
  mc_step();
  req = q;
  if (mode)
    return;
  sprintf(text, "body%d", handled);
  server_ok(q, data_string("text/plain"), data_string(text));
}
static void answered(int k, int r)
{
  char t[32], l[40];
  uint8_t *e;
  sprintf(t, "body%d", k);
  sprintf(l, "Content-Length: %zu\r\n", strlen(t));
  MC_CHECK(p->plen > 17 && !memcmp(p->plain, "HTTP/1.1 200 OK\r\n", 17), "round %d: answer %d does not begin well", r, k);
  e = memmem(p->plain, p->plen, "\r\n\r\n", 4);
  MC_CHECK(e && memmem(p->plain, e - p->plain + 2, l, strlen(l)) && e + 4 + strlen(t) <= p->plain + p->plen && !memcmp(e + 4, t, strlen(t)), "round %d: answer %d is wrong", r, k);
  e += 4 + strlen(t);
  p->plen -= e - p->plain;
  memmove(p->plain, e, p->plen);
}
static void sv_tls(int sessions)
{
  int ver = mc_choose(2, "TLS 1.3, 1.2"), r, i, k = 0, lfd;
  long live = 0;
  char t[64];

  mode = mc_choose(2, "answered at once, later");
  tbegin();
  sv = malloc(sizeof *sv);
  server_construct(sv, sv_cb, NULL);
  lfd = sim_listen_new();
  server_open(sv, lfd, tp_server_ctx);
  sim_advance(1);
  reactor_loop_once();
  handled = 0;
  for (r = 0; r < mc_param(); r++)
  {
    if (!r || sessions)
    {
      sc = sim_listen_connect(lfd, 20000);
      reactor_loop_once();
      MC_CHECK(sc->fd >= 0, "round %d: the connection is not accepted", r);
      p = tp_new(0, ver);
      (void) SSL_do_handshake(p->ssl);
      tp_pull(p);
      exchange(r);
      MC_CHECK(SSL_is_init_finished(p->ssl), "round %d: the handshake does not end", r);
    }
    for (i = 0; i <= r % 3; i++)
      tp_write(p, t, sprintf(t, "GET /r%d HTTP/1.1\r\n\r\n", handled + i));
    req = NULL;
    exchange(r);
    if (mode)
      for (i = 0; i <= r % 3; i++)
      {
        server_request *q = req;
        MC_CHECK(q && handled == k + i + 1, "round %d: %d requests handled instead of %d", r, handled, k + i + 1);
        req = NULL;
        sprintf(text, "body%d", handled);
        server_ok(q, data_string("text/plain"), data_string(text));
      }
    exchange(r);
    for (i = 0; i <= r % 3; i++)
      answered(++k, r);
    MC_CHECK(!p->plen && handled == k, "round %d: more is sent than was asked", r);
    if (sessions)
    {
      if (r % 2)
        sim_peer_rst(sc);
      else
        sim_peer_fin(sc);
      exchange(r);
      MC_CHECK(sc->closed, "round %d: the connection is still open", r);
      tp_free(p);
      if (r == 10)
        live = mem_now();
      if (r > 10 && r % 10 == 0)
        MC_CHECK(mem_now() == live, "round %d: heap blocks of earlier connections: %ld", r, mem_now() - live);
      MC_CHECK(sim_open_fds() == 3, "round %d: descriptors left:%s", r, sim_open_list());
    }
    state(r, mode);
  }
  if (!sessions)
    tp_free(p);
  server_destruct(sv);
  free(sv);
  tend();
}
static void tls_requests(void) { sv_tls(0); }
static void tls_connections(void) { sv_tls(1); }

const mc_scenario mc_scenarios[] = {
  {"C10", "endurance", tls_records, 0, 0, 20000, 100000, 3, 0},
  {"C11", "tls-endurance", tls_reopened, 0, 0, 700, 5000, 2, 0},
  {"C12", "tls-endurance", tls_requests, 0, 0, 20000, 70000, 2, 0},
  {"C13", "tls-endurance", tls_connections, 0, 0, 700, 5000, 2, 0},
  {NULL}
};
