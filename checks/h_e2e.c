/* C37: clients made of streams and the HTTP functions, and the server, in one loop.  The harness is only the wire:
 * it carries bytes between the two descriptors of a connection, in pieces and at times of its choosing. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"
#include "tlspeer.h"

#define N(a) ((int) (sizeof a / sizeof a[0]))
#define MAXCL 12
#define MAXRQ 600
#define BIG   70000
#define HUGE_ (3 << 20)

/* kinds of requests: what the handler does; Q_ALL: it answers everybody who
 * waits, then this; Q_ON_...: it asks the server behind it for such a request, over a client
 * of its own, and answers when that is answered */
enum { Q_SMALL, Q_EMPTY, Q_BIG, Q_404, Q_LATER, Q_CLOSE, Q_BAD, Q_ALL, Q_SIZED, Q_ON_SMALL, Q_ON_BIG, Q_ON_LATER, Q_ON_CLOSE, Q_KINDS };

typedef struct client client_t;
/* a stream that serves one client after the other */
typedef struct
{
  stream    s;
  client_t *client;
} slot_t;
struct client
{
  slot_t   *slot;
  sim_conn *c, *d;            /* the client's and the server's end */
  int       open, conn;       /* conn: which connection this client is on, counted over all */
  int       sent, handled, answered; /* requests written, seen by the handler, answered to the client */
  int       kind[MAXRQ], asked[MAXRQ];
  int       via[MAXRQ];       /* the number of the request behind */
  client_t *via_on[MAXRQ], *origin[MAXRQ]; /* the client behind; on the client behind: whose request it is */
  size_t    size[MAXRQ], tlen[MAXRQ];
  int       server_closes;    /* number of answers after which the server closes, -1: it does not */
  int       closed_event, fin_cd, fin_dc;
  server_request *later;
  int       cut;              /* the handler closed the connection */
};

static client_t *K[MAXCL], *all[64], *behind;
static slot_t *slots[MAXCL];
static int nslots;
static int nk, nall, tls, slfd, sizes_target, auto_answer;
static server *S;
static long mem0;
static uint8_t *blob;
static char *long_target;

static long mem_now(void)
{
  if (tls)
  {
    ERR_clear_error();
    OPENSSL_thread_stop();
  }
  return mc_mem_live();
}

static size_t body_size(client_t *k, int i)
{
  if (k->kind[i] >= Q_ON_SMALL)
    return body_size(k->via_on[i], k->via[i]);
  switch (k->kind[i])
  {
  case Q_SMALL: case Q_LATER: case Q_ALL: return 5 + i % 7;
  case Q_BIG: return BIG;
  case Q_SIZED: return k->size[i];
  default: return 0;
  }
}
static const uint8_t *body_of(client_t *k, int i)
{
  if (k->kind[i] >= Q_ON_SMALL)
    return body_of(k->via_on[i], k->via[i]);
  return blob + (k->conn * 31 + i * 7) % 97;
}
static const char *methods[] = {"GET", "POST", "DELETE", "X"};
static size_t target_of(client_t *k, int i, char *p)
{
  size_t n = sprintf(p, "/%d/%d?k=%d", k->conn, i, k->asked[i]);
  while (n < k->tlen[i])
    p[n] = 'a' + n % 26, n++;
  p[n] = 0;
  return n;
}

static void ask(client_t *k, int kind, size_t size, size_t tlen);
static void answer(client_t *k);
/* ---- the server's handler ---- */
static void handler(reactor_event *e)
{
  server_request *q = (server_request *) e->data;
  client_t *k = NULL;
  static char t[70000];
  size_t n;
  int i, c = -1;

  MC_CHECK(e->type == SERVER_REQUEST, "event %d", e->type);
  MC_CHECK(data_size(q->target) > 1 && data_size(q->target) < sizeof t, "the target has %zu bytes", data_size(q->target));
  memcpy(t, data_base(q->target), data_size(q->target));
  t[data_size(q->target)] = 0;
  c = atoi(t + 1);
  MC_CHECK(t[0] == '/' && c >= 0 && c < nall, "the handler is given '%.30s'", t);
  k = all[c];
  i = k->handled++;
  MC_CHECK(i < k->sent, "connection %d: the handler is given request %d of %d", c, i, k->sent);
  n = target_of(k, i, t);
  MC_CHECK(n == data_size(q->target) && !memcmp(t, data_base(q->target), n), "connection %d, request %d: the target is '%.40s'", c, i, (char *) data_base(q->target));
  MC_CHECK(data_equal(q->method, data_string(methods[i % 4])), "connection %d, request %d: the method is '%.*s'", c, i, (int) data_size(q->method), (char *) data_base(q->method));
  MC_CHECK(q->fields_count == 1 && data_equal(http_field_lookup(q->fields, q->fields_count, data_string("hOST")), data_string("some.host:80")), "connection %d, request %d: the host is lost", c, i);
  MC_CHECK(!k->later, "connection %d: request %d is handled although one before is not answered", c, i);
  MC_CHECK(k->server_closes < 0, "connection %d: request %d is handled although the connection was closed", c, i);
  mc_note("      request %d of connection %d", i, c);
  mc_step();
  switch (k->kind[i])
  {
  case Q_SMALL: case Q_BIG: case Q_SIZED:
    server_ok(q, data_string("text/x"), data_construct(body_of(k, i), body_size(k, i)));
    break;
  case Q_ALL:
    for (c = 0; c < nall; c++)
      if (all[c] != k && all[c]->later && all[c]->kind[all[c]->handled - 1] < Q_ON_SMALL)
        answer(all[c]);
    server_ok(q, data_string("text/x"), data_construct(body_of(k, i), body_size(k, i)));
    break;
  case Q_EMPTY:
    server_respond(q, data_string("204 No Content"), data_null(), data_null());
    break;
  case Q_404:
    server_not_found(q);
    break;
  case Q_LATER:
    k->later = q;
    break;
  case Q_CLOSE:
    k->server_closes = i;
    k->cut = 1;
    server_close(q);
    server_release(q);
    break;
  case Q_BAD:
    k->server_closes = i + 1;
    server_bad_request(q);
    break;
  case Q_ON_SMALL: case Q_ON_BIG: case Q_ON_LATER: case Q_ON_CLOSE:
    if (!behind->open)
    {
      k->kind[i] = Q_404;
      server_not_found(q);
      break;
    }
    k->later = q;
    k->via[i] = behind->sent;
    k->via_on[i] = behind;
    behind->origin[behind->sent] = k;
    ask(behind, k->kind[i] == Q_ON_SMALL ? Q_SMALL : k->kind[i] == Q_ON_BIG ? Q_BIG : k->kind[i] == Q_ON_LATER ? Q_LATER : Q_CLOSE, 0, 0);
    break;
  }
}
static void answer(client_t *k)
{
  server_request *q = k->later;
  int i = k->handled - 1;
  k->later = NULL;
  server_ok(q, data_string("text/x"), data_construct(body_of(k, i), body_size(k, i)));
}

/* ---- a client ---- */
static void got_answers(client_t *k)
{
  static const int codes[] = {200, 204, 200, 404, 200, 0, 400, 200, 200, 200, 200, 200, 0};
  static const char *texts[] = {"OK", "No Content", "OK", "Not Found", "OK", "", "Bad Request", "OK", "OK", "OK", "OK", "OK", ""};
  http_field f[16];
  size_t nf, len;
  data status, v, d;
  ssize_t n;
  int code, i;
  char text[24];

  for (;;)
  {
    d = stream_read(&k->slot->s);
    if (data_empty(d))
      return;
    nf = 16;
    n = http_read_response(&k->slot->s, &code, &status, f, &nf);
    if (n == -2)
      return;
    i = k->answered;
    MC_CHECK(n > 0, "connection %d: answer %d is malformed", k->conn, i);
    MC_CHECK(i < k->handled, "connection %d: an answer to request %d, which was not handled", k->conn, i);
    MC_CHECK(code == codes[k->kind[i]] && data_equal(status, data_string(texts[k->kind[i]])), "connection %d: answer %d is '%d %.*s'", k->conn, i, code, (int) data_size(status), (char *) data_base(status));
    v = http_field_lookup(f, nf, data_string("content-length"));
    MC_CHECK(data_size(v) && data_size(v) < sizeof text, "connection %d: answer %d has no length", k->conn, i);
    memcpy(text, data_base(v), data_size(v));
    text[data_size(v)] = 0;
    len = strtoul(text, NULL, 10);
    MC_CHECK(len == body_size(k, i), "connection %d: answer %d announces %zu bytes instead of %zu", k->conn, i, len, body_size(k, i));
    v = http_field_lookup(f, nf, data_string("Content-type"));
    MC_CHECK(k->kind[i] == Q_EMPTY || k->kind[i] == Q_404 || k->kind[i] == Q_BAD ? data_empty(v) : data_equal(v, data_string("text/x")), "connection %d: the type of answer %d is '%.*s'", k->conn, i, (int) data_size(v), (char *) data_base(v));
    MC_CHECK(data_equal(http_field_lookup(f, nf, data_string("SERVER")), data_string("reactor")) && data_size(http_field_lookup(f, nf, data_string("date"))) == 29, "connection %d: answer %d lacks fields", k->conn, i);
    if (data_size(d) < n + len)
      return;
    MC_CHECK(!memcmp((char *) data_base(d) + n, body_of(k, i), len), "connection %d: the body of answer %d is wrong", k->conn, i);
    if (i % 2)
    {
      stream_consume(&k->slot->s, n);
      stream_consume(&k->slot->s, len);
    }
    else
      stream_consume(&k->slot->s, n + len);
    k->answered++;
    mc_note("      answer %d of connection %d", i, k->conn);
    mc_step();
    if (k->origin[i])
    {
      MC_CHECK(k->origin[i]->later, "connection %d: request for %d is answered twice", k->conn, k->origin[i]->conn);
      answer(k->origin[i]);
    }
  }
}
/* the client behind is closed: the requests that wait for it are not found */
static void give_up(client_t *k)
{
  server_request *q;
  client_t *f;
  int i;

  for (i = k->answered; i < k->sent; i++)
    if ((f = k->origin[i]) && f->later)
    {
      k->origin[i] = NULL;
      q = f->later;
      f->later = NULL;
      f->kind[f->handled - 1] = Q_404;
      server_not_found(q);
    }
}
static void client_cb(reactor_event *e)
{
  client_t *k = ((slot_t *) e->state)->client;

  MC_CHECK(k->open, "an event of a closed client");
  switch (e->type)
  {
  case STREAM_READ:
    got_answers(k);
    break;
  case STREAM_CLOSE:
    k->closed_event = 1;
    stream_close(&k->slot->s);
    k->open = 0;
    mc_note("      connection %d is told to be closed", k->conn);
    give_up(k);
    break;
  }
}
static client_t *client_new(slot_t *slot, size_t cap)
{
  client_t *k = calloc(1, sizeof *k);

  if (nall == N(all))
    mc_error("connections");
  k->conn = nall;
  all[nall++] = k;
  k->server_closes = -1;
  if (!slot)
  {
    slot = calloc(1, sizeof *slot);
    stream_construct(&slot->s, client_cb, slot);
    slots[nslots++] = slot;
  }
  slot->client = k;
  k->slot = slot;
  k->c = sim_conn_new(SIM_SOCK, cap);
  k->d = sim_listen_connect(slfd, cap);
  k->open = 1;
  stream_open(&k->slot->s, k->c->fd, STREAM_READ, tls ? tp_client_ctx : NULL);
  return k;
}
static void ask(client_t *k, int kind, size_t size, size_t tlen)
{
  static char t[70000];
  int i = k->sent++;
  size_t n;

  if (k->sent > MAXRQ)
    mc_error("requests");
  k->kind[i] = k->asked[i] = kind;
  k->size[i] = size;
  k->tlen[i] = tlen;
  n = target_of(k, i, t);
  http_write_request(&k->slot->s, data_string(methods[i % 4]), data_construct(t, n), data_string("some.host:80"), data_null(), data_null());
  stream_flush(&k->slot->s);
}

/* ---- the wire ---- */
#define WINDOW 200000
/* up to n bytes towards the server (dir 0) or the client (dir 1); what moved, 1 for the end of the connection */
static size_t wire(client_t *k, int dir, size_t n)
{
  sim_conn *a = dir ? k->d : k->c, *b = dir ? k->c : k->d;
  int *fin = dir ? &k->fin_dc : &k->fin_cd;
  size_t at, m;

  if (n > WINDOW)
    n = WINDOW;
  if (!b->closed && b->rxlen + n > WINDOW)
    n = b->rxlen > WINDOW ? 0 : WINDOW - b->rxlen;
  at = a->gotlen;
  m = n ? sim_peer_take(a, n) : 0;
  if (m)
  {
    if (!b->closed && !*fin)
      sim_peer_send(b, a->got + at, m);
    a->gotlen = 0;
    return m;
  }
  if (a->closed && !a->txlen && !*fin)
  {
    *fin = 1;
    if (!b->closed)
      sim_peer_fin(b);
    return 1;
  }
  return 0;
}
static int turn(void)
{
  if (!sim_ready())
    return 0;
  reactor_loop_once();
  return 1;
}
/* everything moves until it comes to rest */
static void settle(size_t chunk)
{
  long i;
  int j, moved;

  for (i = 0; i < 4000000; i++)
  {
    moved = 0;
    for (j = 0; j < nall; j++)
    {
      moved |= wire(all[j], 0, chunk) > 0;
      moved |= wire(all[j], 1, chunk) > 0;
    }
    moved |= turn();
    if (!moved)
      return;
  }
  mc_fail("the exchange does not come to rest");
}
static void verdict(void)
{
  int j, n;
  client_t *k;

  for (j = 0; j < nall; j++)
  {
    k = all[j];
    if (!k->open && !k->closed_event)
      continue; /* the client left */
    n = k->server_closes >= 0 ? k->server_closes : k->later ? k->handled - 1 : k->sent;
    /* closing a connection gives up what was not written to it yet */
    MC_CHECK(k->answered == n || (k->answered < n && k->cut), "connection %d: %d answers of %d arrived", k->conn, k->answered, n);
    MC_CHECK(k->closed_event == (k->server_closes >= 0), "connection %d: the client is %stold that the connection is closed", k->conn, k->closed_event ? "" : "not ");
  }
}

static void begin(int encrypted)
{
  static int warm;
  size_t i;

  if (!warm)
  {
    time_t t = 0;
    struct tm tm;
    char b[64];
    tzset();
    gmtime_r(&t, &tm);
    strftime(b, sizeof b, "%a %d %b %Y %H:%M:%S", &tm);
    blob = malloc(HUGE_ + 200);
    for (i = 0; i < HUGE_ + 200; i++)
      blob[i] = i * 131 + i / 251 * 7 + i / 65521 * 3;
    warm = 1;
  }
  tls = encrypted;
  if (tls)
  {
    tp_init();
    tp_seed(3);
  }
  sim_reset();
  sim_call_limit(1u << 30);
  mem0 = mem_now();
  nk = nall = nslots = 0;
  behind = NULL;
  memset(K, 0, sizeof K);
  memset(all, 0, sizeof all);
  reactor_construct();
  S = malloc(sizeof *S);
  server_construct(S, handler, NULL);
  slfd = sim_listen_new();
  server_open(S, slfd, tls ? tp_server_ctx : NULL);
}
/* somebody else connects to the server, talks nonsense and stays: no business of the others */
static void stranger(void)
{
  sim_conn *c = sim_listen_connect(slfd, 1000);

  sim_peer_send(c, "\x16\x03\x01\x00\x05nonsense, nonsense\r\n\r\n", 28);
  while (turn())
    ;
}
static void finish(int how)
{
  int j;

  for (j = 0; j < nall; j++)
  {
    while (how == 1 && all[j]->later)
      answer(all[j]);
    if (all[j]->open)
    {
      all[j]->open = 0;
      stream_destruct(&all[j]->slot->s);
      stream_construct(&all[j]->slot->s, client_cb, all[j]->slot);
    }
  }
  for (j = 0; j < nslots; j++)
  {
    stream_destruct(&slots[j]->s);
    free(slots[j]);
  }
  if (how == 2)
    server_shutdown(S);
  for (j = 0; j < nall; j++)
    while (all[j]->later)
      answer(all[j]);
  server_destruct(S);
  free(S);
  for (j = 0; j < nall; j++)
    free(all[j]);
  reactor_destruct();
  MC_CHECK(sim_open_fds() == 0, "descriptors left open at the end:%s", sim_open_list());
  MC_CHECK(mem_now() == mem0, "heap blocks left at the end: %ld", mem_now() - mem0);
  mc_outcome(sim_calls());
}
static void hash(int step)
{
  uint64_t h = sim_hash();
  int j;
  for (j = 0; j < nall; j++)
    h = mc_mix(h, all[j]->sent | all[j]->handled << 8 | all[j]->answered << 16 | all[j]->open << 24 | (all[j]->later != 0) << 25);
  mc_state(mc_mix(h, step));
}

/* one thing that may happen; 0: nothing more does */
static int kinds[Q_KINDS], nkinds;
static int act(int n, int a)
{
  client_t *k = K[n];
  static const size_t amounts[] = {1, 40, (size_t) -1};
  size_t had;

  switch (a)
  {
  case 0:
    return 0;
  default: /* kinds of requests */
    if (a <= nkinds)
    {
      if (!k->open)
        mc_prune();
      if (k == behind && kinds[a - 1] >= Q_ON_SMALL)
        mc_prune();
      mc_note("  client %d asks (kind %d)", n, kinds[a - 1]);
      ask(k, kinds[a - 1], 0, 0);
      break;
    }
    a -= nkinds + 1;
    switch (a)
    {
    case 0: case 1: case 2: case 3: case 4: case 5:
      mc_note("  %zu bytes at most from the %s %d", amounts[a % 3], a < 3 ? "client" : "server", n);
      had = (a < 3 ? k->c : k->d)->txlen;
      if (!wire(k, a / 3, amounts[a % 3]))
        mc_prune();
      if (had && had <= 40 && a % 3 == 1)
        mc_prune(); /* as good as all */
      break;
    case 6:
      mc_note("  turn");
      if (!turn())
        mc_prune();
      break;
    case 7:
      if (!k->open)
        mc_prune();
      mc_note("  client %d leaves", n);
      stream_close(&k->slot->s);
      k->open = 0;
      give_up(k);
      break;
    case 8:
      if (!k->later || k->kind[k->handled - 1] >= Q_ON_SMALL)
        mc_prune();
      mc_note("  the handler answers client %d", n);
      answer(k);
      break;
    case 9:
      if (k->open)
        mc_prune();
      mc_note("  client %d comes back", n);
      K[n] = client_new(k->slot, k->c->cap);
      if (k == behind)
        behind = K[n];
      break;
    }
    break;
  }
  mc_step();
  return 1;
}
static void history(int encrypted, int clients, int proxy, int depth, size_t cap)
{
  int i, n, a;

  for (i = nkinds = 0; i < Q_KINDS; i++)
    if (proxy ? i == Q_SMALL || i >= Q_ON_SMALL : i < Q_SIZED && (i != Q_ALL || clients > 1))
      kinds[nkinds++] = i;
  begin(encrypted);
  for (i = 0; i < clients; i++)
    K[nk++] = client_new(NULL, cap);
  if (encrypted && mc_choose(2, "a stranger: no, yes"))
    stranger();
  if (proxy)
    behind = K[0];
  if (encrypted && mc_choose(2, "from: the beginning, established"))
    settle(-1);
  else if (!encrypted)
    settle(-1);
  for (i = 0; i < depth; i++)
  {
    n = clients == 1 ? 0 : i ? mc_choose(clients, "client") : proxy;
    a = mc_choose(nkinds + 11, "action (0: end)");
    if (!act(n, a))
      break;
    hash(i);
  }
  settle(-1);
  for (i = 0; i < clients; i++)
    if (K[i]->later && K[i]->conn % 2 == 0 && K[i]->kind[K[i]->handled - 1] < Q_ON_SMALL)
    {
      answer(K[i]);
      settle(-1);
      i--;
    }
  verdict();
  /* whoever is still there is served as before */
  for (i = 0; i < clients; i++)
    if (K[i]->open && K[i]->server_closes < 0 && !K[i]->later)
      ask(K[i], Q_SMALL, 0, 0);
  settle(-1);
  verdict();
  finish(depth % 3);
}
static void e_plain(void) { history(0, 1, 0, mc_param(), mc_choose(2, "send space: plenty, little") ? 200 : 100000); }
static void e_two(void) { history(0, 2, 0, mc_param(), 5000); }
static void e_proxy(void) { history(0, 2, 1, mc_param(), mc_choose(2, "send space: plenty, little") ? 250 : 100000); }
static void e_proxy_tls(void) { history(1, 2, 1, mc_param(), mc_choose(2, "send space: plenty, little") ? 5000 : 100000); }
static void e_tls(void) { history(1, 1, 0, mc_param(), mc_choose(2, "send space: plenty, little") ? 700 : 100000); }

/* the client leaves in the middle of a request or an answer, after any number of bytes, and comes back */
static void e_again(void)
{
  static const int kind[] = {Q_SMALL, Q_EMPTY, Q_404, Q_BAD, Q_CLOSE, Q_BIG};
  int enc = mc_choose(2, "plain, encrypted"), dir = mc_choose(2, "in the request, in the answer"), a = kind[mc_choose(6, "first kind")], b = kind[mc_choose(5, "second kind")];
  int after = mc_choose(enc ? 12 : 260, "after bytes"), piece = mc_choose(2, "pieces of 1 afterwards, all at once"), i;
  client_t *k;

  if (dir == 0 && a != Q_SMALL)
    mc_prune();
  begin(enc);
  k = K[0] = client_new(NULL, 4000);
  if (enc)
    settle(-1);
  ask(k, a, 0, 0);
  if (dir)
    do
      while (turn())
        ;
    while (wire(k, 0, -1));
  for (i = 0; i < (enc ? after * 37 : after); i++)
  {
    if (!wire(k, dir, 1))
    {
      if (i > 700 || (a != Q_BIG && i > 3))
        mc_prune();
      break;
    }
    if (i % 3 == 0 || i + 2 > after)
      while (turn())
        ;
  }
  if (k->open)
    stream_close(&k->slot->s);
  k->open = 0;
  if (piece)
    settle(-1);
  k = client_new(k->slot, 4000);
  ask(k, b, 0, 0);
  settle(piece ? -1 : 1);
  verdict();
  hash(after);
  if (k->open)
    ask(k, Q_SMALL, 0, 0);
  settle(-1);
  verdict();
  finish(after % 3);
}

/* sizes of everything, carried in pieces of one size */
static void sizes(int encrypted)
{
  static const size_t bodies[] = {0, 1, 9, 10, 99, 100, 999, 1000, 4095, 4096, 9999, 10000, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 99999, 100000, 131072, 1 << 20, HUGE_};
  static const size_t targets[] = {0, 100, 255, 256, 1000, 4096, 16384, 65000};
  static const size_t pieces[] = {1, 7, 100, 1000, 1448, 16384, 65536, (size_t) -1}, caps[] = {100, 2000, 65536, 4 << 20};
  size_t b = bodies[mc_choose(N(bodies), "body")], t = targets[mc_choose(N(targets), "target")], p = pieces[mc_choose(N(pieces), "piece")], cap = caps[mc_choose(N(caps), "send space")];
  int n = mc_choose(2, "one request, three"), i;
  client_t *k;

  if ((b + t) / (p < cap ? p : cap) > (size_t) mc_param() || (t && t != 1000 && b > 20000 && b != 65536) || (b + t) * (n ? 3 : 1) / cap > 20000)
    mc_prune();
  begin(encrypted);
  if (encrypted && b % 2)
    stranger();
  k = client_new(NULL, cap);
  for (i = 0; i < (n ? 3 : 1); i++)
    ask(k, Q_SIZED, b, t);
  settle(p);
  verdict();
  hash(b + t);
  ask(k, Q_SMALL, 0, 0);
  settle(-1);
  verdict();
  finish(n);
}
static void e_sizes(void) { sizes(0); }
static void e_tls_sizes(void) { sizes(1); }

/* many requests of every kind in every order of three kinds, pipelined or not, several clients at once */
static void e_many(void)
{
  int a = mc_choose(5, "first kind"), b = mc_choose(5, "second kind"), c = mc_choose(5, "third kind"), n = (int[]) {1, 3, 10}[mc_choose(3, "clients")], m = (int[]) {6, 60, 400}[mc_choose(3, "requests each")];
  size_t p = (size_t[]) {13, 1000, (size_t) -1}[mc_choose(3, "piece")];
  int pipelined = mc_choose(2, "each after the answer to the one before, pipelined"), enc = mc_choose(2, "plain, encrypted"), i, j, open;
  int kinds[] = {a, b, c};

  if (((a == Q_BIG || b == Q_BIG || c == Q_BIG) && (n * m > 60 || p == 13)) || n * m > 1000 || (p == 13 && n * m > 200) || (enc && (n > 3 || n * m > 200)))
    mc_prune();
  begin(enc);
  for (i = 0; i < n; i++)
    K[nk++] = client_new(NULL, 3000);
  for (j = 0; j < m; j++)
  {
    for (i = 0; i < n; i++)
      ask(K[i], kinds[(i + j) % 3], 0, 0);
    if (!pipelined || j % 100 == 99)
      do
      {
        settle(p);
        for (i = open = 0; i < n; i++)
          if (K[i]->later)
          {
            answer(K[i]);
            open = 1;
          }
      } while (open);
  }
  do
  {
    settle(p);
    for (i = open = 0; i < n; i++)
      if (K[i]->later)
      {
        answer(K[i]);
        open = 1;
      }
  } while (open);
  verdict();
  hash(m);
  finish(m % 3);
}

const mc_scenario mc_scenarios[] = {
  {"C37", "plain", e_plain, 0, 0, 4, 5, 4, 0},
  {"C37", "two-clients", e_two, 0, 0, 4, 5, 4, 0},
  {"C37", "tls", e_tls, 0, 0, 3, 5, 4, 0},
  {"C37", "proxy", e_proxy, 0, 0, 4, 5, 4, 0},
  {"C37", "tls-proxy", e_proxy_tls, 0, 0, 3, 4, 4, 0},
  {"C37", "again", e_again, 0, 0, 0, 0, 4, 0},
  {"C37", "sizes", e_sizes, 0, 0, 300, 4000, 3, 0},
  {"C37", "tls-sizes", e_tls_sizes, 0, 0, 300, 4000, 3, 0},
  {"C37", "many", e_many, 0, 0, 0, 0, 3, 0},
  {NULL}
};
