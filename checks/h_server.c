/* C12-C16: the HTTP server over plain and encrypted connections, explored against the simulated kernel. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <stddef.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"
#include "refhttp.h"
#include "tlspeer.h"

#define MAXCONN 210
#define MAXRESP 1100
#define MAXMAP 64
#define SEC 1000000000ull

typedef struct { const char *status, *type; const uint8_t *body; size_t blen; uint64_t at; int echo; char echoed[8]; } resp_t;

typedef struct
{
  sim_conn *c;
  int       id;
  uint8_t  *in;                  /* what the client sends in this execution, sent so far */
  size_t    inlen, incap;
  size_t    off;                 /* bytes of complete requests handed to the handler */
  int       handled;
  resp_t    resp[MAXRESP];
  int       nresp;               /* answers that have to arrive */
  int       nver, bad_seen;      /* answers seen, the server's own 400 among them */
  size_t    voff;                /* output up to here judged */
  server_request *req;           /* the handler's object while it is usable */
  int       out;                 /* request not answered yet */
  int       holds;
  int       owner_closed, gave_bad, fin, rst, gone; /* gone: the owner shut the server down */
  tlspeer  *p;                   /* encrypted connection */
  struct { size_t cipher, plain; } map[MAXMAP]; /* ends of records */
  int       nmap;
  int       garbage;             /* sends nothing sensible any more */
  int       raw, done;           /* a client that does not speak the protocol; output no longer judged */
} conn_t;

static server *S;
static conn_t K[MAXCONN];
static int nk, up, lfd, in_handler, strict_date, uniform;
static int tls, tlsver, hold_net, warming, crypto; /* what connecting clients speak */
static long mem0, mem1;
/* live heap blocks, without what the crypto library keeps per thread for error reports */
static long mem_now(void)
{
  if (crypto)
  {
    ERR_clear_error();
    OPENSSL_thread_stop();
  }
  return mc_mem_live();
}
static int handler_sync;         /* simple handler policy, -1: use reactions */
static int *reactions, nreactions, react, pipe_how;
static int *inject, ninject, injecting;

enum { P_OK, P_404, P_CUSTOM, P_BIG, P_ECHO, P_EMPTY, P_KINDS };
enum { H_OK, H_404, H_CUSTOM, H_BIG, H_ECHO, H_EMPTY, H_CLOSE, H_BAD, H_HOLD, H_RELEASE, H_SHUTDOWN, H_DESTROY, H_OTHER, H_FIN, H_SEND,
  E_SEND_HALF, E_SEND, E_SEND2, E_TAKE_1, E_TAKE, E_FIN, E_RST, E_CONNECT, E_CONNECT_BAD, E_HANDIN, E_REOPEN, E_GARBAGE };
static const char *aname[] = {"answer 200", "answer 404", "answer custom", "answer big", "answer with the target", "answer empty", "close", "bad request", "hold", "release", "shut down", "destroy server",
  "answer another", "client finishes", "client sends", "client sends half a request", "client sends a request", "client sends two requests", "client reads a little", "client reads all", "client finishes", "client resets",
  "client connects", "connection fails", "connection handed in", "server opened again", "client sends garbage"};

static char long_text[5000];
static uint8_t bigbody[20000000];
static size_t biglen = 300;

/* ---- the client's side ---- */
static char tmpl_buf[4096];
static size_t request_text(int t, int id, int seq)
{
  char tag[16];
  size_t n;

  if (id < 60)
    snprintf(tag, sizeof tag, "/%c%c", 'A' + id, 'a' + seq % 26);
  else
    snprintf(tag, sizeof tag, "/~%03d", id);
  switch (t)
  {
  default:
  case 0: n = sprintf(tmpl_buf, "GET %s HTTP/1.1\r\n\r\n", tag); break;
  case 1: n = sprintf(tmpl_buf, "POST %s HTTP/1.0\r\nHost: a\r\nX:\t b \r\n\r\n", tag); break;
  case 2: n = sprintf(tmpl_buf, "G %s HTTP/1.1\nA: b\n  c\n\n", tag); break;
  case 3: n = sprintf(tmpl_buf, "\r\nGET  %s?q=1  HTTP/1.1\r\nE:\r\n\r\n", tag); break;
  case 4:
    n = sprintf(tmpl_buf, "GET %s HTTP/1.1\r\n", tag);
    for (int i = 0; i < 16; i++)
      n += sprintf(tmpl_buf + n, "%c: %d\r\n", 'A' + i, i);
    n += sprintf(tmpl_buf + n, "\r\n");
    break;
  case 5: n = sprintf(tmpl_buf, "GET %s HTTP/1.1\r\nHost: www.example.com\r\nUser-Agent: Mozilla/5.0 (X11)\r\nAccept: */*\r\nCookie: a=b; c=\"d e\"\r\n\r\n", tag); break;
  }
  return n;
}

/* encrypted: as much as the peer has to send goes onto the network */
static void net(conn_t *k, size_t n)
{
  if (k->p && !k->c->closed && !k->fin && !k->rst)
    tp_net(k->p, k->c, n);
}
static void feed(conn_t *k)
{
  if (!k->p)
    return;
  tp_feed(k->p, k->c);
  if (!hold_net)
    net(k, -1);
}
static void take(conn_t *k, size_t n)
{
  sim_peer_take(k->c, n);
  feed(k);
}
static int established(conn_t *k) { return k->raw || !k->p || SSL_is_init_finished(k->p->ssl); }
/* bytes of the request stream that have reached the library */
static size_t arrived(conn_t *k)
{
  size_t n = 0;
  int i;
  if (!k->p)
    return k->c->delivered;
  for (i = 0; i < k->nmap && k->map[i].cipher <= k->c->delivered; i++)
    n = k->map[i].plain;
  return n;
}

static void put(conn_t *k, const void *p, size_t n)
{
  size_t at, m;
  if (!established(k))
    mc_prune();
  if (k->inlen + n > k->incap)
  {
    uint8_t *q;
    k->incap = (k->inlen + n) * 2 + 256;
    q = realloc(k->in, k->incap);
    k->in = q;
  }
  memcpy(k->in + k->inlen, p, n);
  k->inlen += n;
  if (!k->p)
  {
    sim_peer_send(k->c, p, n);
    return;
  }
  for (at = 0; at < n; at += m)
  {
    m = n - at < 16384 ? n - at : 16384;
    tp_write(k->p, (const uint8_t *) p + at, m);
    if (k->nmap == MAXMAP)
      mc_error("records");
    k->map[k->nmap].cipher = k->p->net + tp_queued(k->p);
    k->map[k->nmap++].plain = k->inlen - n + at + m;
  }
  if (!hold_net)
    net(k, -1);
}

/* ---- judging ---- */
static int fixdate(const char *s, int n, int64_t *t)
{
  static const char *days = "SunMonTueWedThuFriSat", *months = "JanFebMarAprMayJunJulAugSepOctNovDec";
  int d, mo, y, H, M, Sx, i, wd;
  int64_t a, dd;

  if (n != 29 || s[3] != ',' || s[4] != ' ' || s[7] != ' ' || s[11] != ' ' || s[16] != ' ' || s[19] != ':' || s[22] != ':' || memcmp(s + 25, " GMT", 4))
    return 0;
  static const int digits[] = {5, 6, 12, 13, 14, 15, 17, 18, 20, 21, 23, 24};
  for (i = 0; i < 12; i++)
    if (!ref_digit(s[digits[i]]))
      return 0;
  d = (s[5] - '0') * 10 + s[6] - '0';
  y = (s[12] - '0') * 1000 + (s[13] - '0') * 100 + (s[14] - '0') * 10 + s[15] - '0';
  H = (s[17] - '0') * 10 + s[18] - '0';
  M = (s[20] - '0') * 10 + s[21] - '0';
  Sx = (s[23] - '0') * 10 + s[24] - '0';
  for (mo = 0; mo < 12 && memcmp(months + 3 * mo, s + 8, 3); mo++);
  for (wd = 0; wd < 7 && memcmp(days + 3 * wd, s, 3); wd++);
  if (mo == 12 || wd == 7 || d < 1 || H > 23 || M > 59 || Sx > 60)
    return 0;
  static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (d > ml[mo] + (mo == 1 && y % 4 == 0 && (y % 100 || y % 400 == 0)))
    return 0;
  /* days since 1970-01-01 */
  dd = 0;
  if (y < 1970)
    return 0;
  a = y - 1;
  dd = (a - 1969) * 365 + (a / 4 - a / 100 + a / 400) - (1969 / 4 - 1969 / 100 + 1969 / 400);
  for (i = 0; i < mo; i++)
    dd += ml[i] + (i == 1 && y % 4 == 0 && (y % 100 || y % 400 == 0));
  dd += d - 1;
  if ((dd + 4) % 7 != wd)
    return 0;
  *t = ((dd * 24 + H) * 60 + M) * 60 + Sx;
  return 1;
}

static int is(const uint8_t *s, ref_slice x, const char *t)
{
  return x.off >= 0 && x.len == (int) strlen(t) && memcmp(s + x.off, t, x.len) == 0;
}
static int isname(const uint8_t *s, ref_slice x, const char *t)
{
  return x.off >= 0 && x.len == (int) strlen(t) && strncasecmp((const char *) s + x.off, t, x.len) == 0;
}

static int verdict(conn_t *k, ref_msg *m)
{
  size_t have = arrived(k);
  if (k->off >= have)
    return -2;
  return ref_request(k->in + k->off, have - k->off, 16, m);
}

/* one complete message at s, judged against what was answered */
static void judge(conn_t *k, const uint8_t *s, size_t head, ref_msg *m, size_t clen, const uint8_t *body)
{
  resp_t *r, bad = {.status = "400 Bad Request", .type = NULL, .body = NULL, .blen = 0};
  char line[6000];
  int i, seen[5] = {0};
  int64_t t = 0;
  ref_msg q;

  if (k->nver < k->nresp)
    r = &k->resp[k->nver];
  else
  {
    MC_CHECK(!k->bad_seen, "client %d receives a response after the 400 that ends the connection", k->id);
    MC_CHECK(!k->out && !k->gave_bad && verdict(k, &q) == -1, "client %d receives response %d, only %d were given (%.*s)", k->id, k->nver + 1, k->nresp, 24, s);
    r = &bad;
    r->at = sim_now();
    k->bad_seen = 1;
  }
  k->nver++;
  snprintf(line, sizeof line, "HTTP/1.1 %s\r\n", r->status);
  MC_CHECK(head > strlen(line) && memcmp(s, line, strlen(line)) == 0, "response %d to client %d starts with '%.*s', expected '%s'", k->nver, k->id, (int) strlen(line), s, line);
  for (i = 0; i < m->n; i++)
  {
    if (isname(s, m->name[i], "Server"))
      seen[0]++;
    else if (isname(s, m->name[i], "Date"))
    {
      seen[1]++;
      MC_CHECK(fixdate((char *) s + m->value[i].off, m->value[i].len, &t), "the date '%.*s' is not a valid date", m->value[i].len, s + m->value[i].off);
      MC_CHECK(t <= (int64_t) (sim_now() / SEC), "the date lies in the future");
      if (strict_date)
        MC_CHECK(t >= (int64_t) (r->at / SEC) - 1 && t <= (int64_t) (r->at / SEC), "the date '%.*s' is %lld s off when the response is given", m->value[i].len, s + m->value[i].off, (long long) (r->at / SEC) - t);
    }
    else if (isname(s, m->name[i], "Content-Type"))
    {
      seen[2]++;
      MC_CHECK(r->type && *r->type && is(s, m->value[i], r->type), "content type '%.*s', expected '%s'", m->value[i].len, s + m->value[i].off, r->type ? r->type : "(none)");
    }
    else if (isname(s, m->name[i], "Content-Length"))
      seen[3]++;
    else
      mc_fail("unexpected field '%.*s'", m->name[i].len, s + m->name[i].off);
  }
  MC_CHECK(seen[0] == 1 && seen[1] == 1 && seen[3] == 1 && seen[2] == (r->type && *r->type), "fields: %d server, %d date, %d content type, %d content length", seen[0], seen[1], seen[2], seen[3]);
  MC_CHECK(clen == r->blen, "response %d to client %d announces %zu bytes, the body has %zu", k->nver, k->id, clen, r->blen);
  if (clen)
    MC_CHECK(memcmp(body, r->body ? (void *) r->body : r->echoed, clen) == 0, "the body of response %d to client %d differs", k->nver, k->id);
  mc_evals(1);
}

static uint8_t o[64 << 20];
/* everything sent to this client so far */
static void verify_conn(conn_t *k, int complete)
{
  sim_conn *c = k->c;
  size_t total = c->gotlen + c->txlen, clen;
  ref_msg m;
  int n, i;

  if (k->done || k->raw)
    return;
  if (k->p)
  {
    if (c->closed)
      take(k, -1);
    MC_CHECK(!k->p->failed, "client %d receives something that does not decrypt", k->id);
    total = k->p->plen;
  }
  else
  {
    if (k->rst && c->sent != total)
      return;
    MC_CHECK(total == c->sent, "harness: output accounting");
  }
  while (k->voff < total)
  {
    size_t left = total - k->voff;
    if (left > sizeof o)
      mc_error("output");
    for (i = 0; i < (int) left; i++)
    {
      size_t p = k->voff + i;
      o[i] = k->p ? k->p->plain[p] : p < c->gotlen ? c->got[p] : c->tx[p - c->gotlen];
    }
    n = ref_response(o, left, 32, &m);
    MC_CHECK(n != -1, "client %d receives something that is not a response: '%.*s'", k->id, left > 60 ? 60 : (int) left, o);
    if (n == -2)
      break;
    clen = 0;
    for (i = 0; i < m.n; i++)
      if (isname(o, m.name[i], "Content-Length"))
      {
        int j;
        MC_CHECK(m.value[i].len > 0 && m.value[i].len < 10, "content length '%.*s'", m.value[i].len, o + m.value[i].off);
        for (j = 0; j < m.value[i].len; j++)
        {
          MC_CHECK(ref_digit(o[m.value[i].off + j]), "content length '%.*s'", m.value[i].len, o + m.value[i].off);
          clen = clen * 10 + o[m.value[i].off + j] - '0';
        }
      }
    if (left < n + clen)
    {
      /* the announced length must be right before the body is there */
      if (k->nver < k->nresp)
        MC_CHECK(clen == k->resp[k->nver].blen, "response %d to client %d announces %zu bytes, the body has %zu", k->nver + 1, k->id, clen, k->resp[k->nver].blen);
      break;
    }
    judge(k, o, n, &m, clen, o + n);
    k->voff += n + clen;
  }
  if (k->voff < total)
    MC_CHECK(k->nver < k->nresp || (!k->bad_seen && !k->out && verdict(k, &m) == -1), "client %d receives more than the %d answers given: '%.*s'", k->id, k->nresp, 40, o);
  if (complete)
    MC_CHECK(k->voff == total && k->nver == k->nresp + k->bad_seen, "client %d has received %d of %d responses and %zu further bytes", k->id, k->nver, k->nresp, total - k->voff);
}

static void verify(void)
{
  int i;
  ref_msg m;

  for (i = 0; i < nk; i++)
  {
    conn_t *k = &K[i];
    if (!k->c)
      continue;
    verify_conn(k, 0);
    if (k->c->closed && !k->fin && !k->rst && !k->owner_closed && !k->gone && !k->raw && !k->done)
    {
      MC_CHECK(k->gave_bad || k->bad_seen || (!k->out && verdict(k, &m) == -1), "the connection of client %d is closed for no reason", k->id);
      /* everything answered before, and the 400, has been sent */
      verify_conn(k, 1);
      MC_CHECK(k->gave_bad || k->bad_seen, "the connection of client %d is closed without the 400", k->id);
    }
  }
}

/* ---- the handler's side ---- */
static void act(int a, conn_t *k);

static void answer(conn_t *k, int p)
{
  server_request *r = k->req;
  resp_t *x = NULL, dummy;
  data body = data_null(), type = data_null(), status = data_string("200 OK");

  k->out = 0;
  if (!k->holds)
    k->req = NULL;
  if (!k->c->closed)
  {
    if (k->nresp == MAXRESP)
      mc_error("too many responses");
    x = &k->resp[k->nresp++];
  }
  else
    x = &dummy;
  *x = (resp_t) {.status = "200 OK", .at = sim_now()};
  switch (p)
  {
  case P_OK: x->type = "text/plain"; x->body = (uint8_t *) "hello"; x->blen = 5; break;
  case P_404: x->status = "404 Not Found"; break;
  case P_CUSTOM: x->status = "201 Created"; x->type = ""; x->body = (uint8_t *) "ab\0c\r\n\r\nHTTP/1.1 200 OK\r\n\r\n"; x->blen = 27; break;
  case P_BIG: x->type = "a/b"; x->body = bigbody; x->blen = biglen; break;
  case P_EMPTY: x->type = "x/y"; break;
  case P_ECHO:
    body = r->target;
    x->type = "t/t";
    if (!k->c->closed)
    {
      x->blen = body.size < sizeof x->echoed ? body.size : sizeof x->echoed;
      body.size = x->blen;
      memcpy(x->echoed, body.base, x->blen);
    }
    else
      body = data_null();
    break;
  }
  if (p != P_ECHO)
    body = data_construct(x->body, x->blen);
  if (x->type)
    type = data_construct(x->type, strlen(x->type));
  status = data_construct(x->status, strlen(x->status));
  switch (p)
  {
  case P_OK: case P_BIG: case P_ECHO: server_ok(r, type, body); break;
  case P_404: server_not_found(r); break;
  default: server_respond(r, status, type, body); break;
  }
}

/* an encrypted client begins the handshake */
static void speak(conn_t *k)
{
  if (!tls)
    return;
  k->p = tp_new(0, tlsver);
  feed(k);
}

static conn_t *conn_new(size_t cap)
{
  conn_t *k;
  if (nk == MAXCONN)
    mc_error("connections");
  k = &K[nk];
  {
    uint8_t *in = k->in;
    size_t incap = k->incap;
    memset(k, 0, offsetof(conn_t, resp));
    memset((char *) k + offsetof(conn_t, nresp), 0, sizeof *k - offsetof(conn_t, nresp));
    k->id = nk;
    k->in = in;
    k->incap = incap;
  }
  nk++;
  k->c = sim_listen_connect(lfd, cap);
  speak(k);
  return k;
}

static conn_t *conn_handin(size_t cap)
{
  conn_t *k;
  if (nk == MAXCONN)
    mc_error("connections");
  k = &K[nk];
  {
    uint8_t *in = k->in;
    size_t incap = k->incap;
    memset(k, 0, offsetof(conn_t, resp));
    memset((char *) k + offsetof(conn_t, nresp), 0, sizeof *k - offsetof(conn_t, nresp));
    k->id = nk;
    k->in = in;
    k->incap = incap;
  }
  nk++;
  k->c = sim_conn_new(SIM_SOCK, cap);
  server_accept(S, k->c->fd);
  speak(k);
  return k;
}

static void mark_gone(void)
{
  int i;
  for (i = 0; i < nk; i++)
    if (K[i].c)
      K[i].gone = 1;
}

static void check_gone(void)
{
  int i;
  for (i = 0; i < nk; i++)
    if (K[i].c && K[i].gone)
      MC_CHECK(K[i].c->closed, "the connection of client %d is still open after the shutdown", i);
  if (lfd >= 0)
    MC_CHECK(!sim_is_open(lfd), "the listening socket is still open after the shutdown");
}

static void handler(reactor_event *e)
{
  server_request *r = (server_request *) e->data;
  conn_t *k;
  ref_msg m;
  int n, i;

  MC_CHECK(e->type == SERVER_REQUEST, "event %d", e->type);
  MC_CHECK(e->state == (void *) &S, "the handler is given the wrong state");
  {
    const char *t = data_base(r->target);
    int id = -1;
    if (data_size(r->target) >= 3)
      id = t[1] == '~' && data_size(r->target) == 5 ? (t[2] - '0') * 100 + (t[3] - '0') * 10 + t[4] - '0' : t[1] - 'A';
    MC_CHECK(id >= 0 && id < nk, "target '%.*s'", (int) data_size(r->target), t);
    k = &K[id];
  }
  mc_note("    request %d of client %d", k->handled, k->id);
  MC_CHECK(!k->c->closed && !k->gone && !k->owner_closed && !k->gave_bad, "the handler is called for the closed connection of client %d", k->id);
  MC_CHECK(!k->out, "client %d: the handler is called before the previous request was answered", k->id);
  n = verdict(k, &m);
  MC_CHECK(n > 0, "client %d: the handler is called although the received bytes %s", k->id, n == -1 ? "are malformed" : "are no complete request");
  {
    const uint8_t *s = k->in + k->off;
    MC_CHECK(data_size(r->method) == (size_t) m.method.len && memcmp(data_base(r->method), s + m.method.off, m.method.len) == 0, "method '%.*s'", (int) data_size(r->method), (char *) data_base(r->method));
    MC_CHECK(data_size(r->target) == (size_t) m.target.len && memcmp(data_base(r->target), s + m.target.off, m.target.len) == 0, "target '%.*s'", (int) data_size(r->target), (char *) data_base(r->target));
    MC_CHECK(r->fields_count == (size_t) m.n, "%zu fields instead of %d", r->fields_count, m.n);
    for (i = 0; i < m.n; i++)
    {
      MC_CHECK(data_size(r->fields[i].name) == (size_t) (m.name[i].off < 0 ? 0 : m.name[i].len) && (m.name[i].off < 0 || memcmp(data_base(r->fields[i].name), s + m.name[i].off, m.name[i].len) == 0), "name of field %d", i);
      MC_CHECK(data_size(r->fields[i].value) == (size_t) m.value[i].len && memcmp(data_base(r->fields[i].value), s + m.value[i].off, m.value[i].len) == 0, "value of field %d", i);
    }
  }
  k->off += n;
  k->handled++;
  k->out = 1;
  k->req = r;
  mc_step();
  verify();
  if (pipe_how)
  {
    if (pipe_how == 1 || (pipe_how == 3 && k->handled % 3) || (pipe_how == 4 && k->handled > 1))
      answer(k, k->handled % 2 ? P_OK : P_404);
    return;
  }
  if (handler_sync >= 0)
  {
    if (handler_sync == 2)
    {
      /* per request: now or later */
      if (mc_choose(2, "answer now, later"))
        return;
    }
    else if (handler_sync == 1)
      return;
    answer(k, k->handled % P_KINDS);
    return;
  }
  in_handler++;
  for (i = 0; i < 3 && react > 0; i++)
  {
    n = mc_choose(nreactions + 1, "handler");
    if (!n)
      break;
    react--;
    act(reactions[n - 1], k);
  }
  in_handler--;
}

static void up_server(void)
{
  lfd = sim_listen_new();
  server_open(S, lfd, tls ? tp_server_ctx : NULL);
  up = 1;
}

static void do_shutdown(void)
{
  mark_gone();
  up = 0;
  server_shutdown(S);
  check_gone();
  lfd = -1;
}

static void do_destroy(void)
{
  mark_gone();
  up = 0;
  server_destruct(S);
  free(S);
  S = NULL;
  check_gone();
  lfd = -1;
}

static void release(conn_t *k)
{
  server_request *r = k->req;
  k->holds--;
  if (!k->holds && !k->out)
    k->req = NULL;
  server_release(r);
}

static size_t capn = 64;
static int tsel;

static void act(int a, conn_t *k)
{
  size_t n;
  int i;

  mc_note("%s%s (client %d)", in_handler ? "      handler: " : "  ", aname[a], k ? k->id : -1);
  switch (a)
  {
  case H_OK: case H_404: case H_CUSTOM: case H_BIG: case H_ECHO: case H_EMPTY:
    if (!k->out)
      mc_prune();
    if (a == H_ECHO && !in_handler)
      mc_prune();
    answer(k, a - H_OK);
    break;
  case H_CLOSE:
    if (!k->req)
      mc_prune();
    k->owner_closed = 1;
    server_close(k->req);
    MC_CHECK(k->c->closed, "the descriptor stays open after server_close");
    break;
  case H_BAD:
    if (!k->out)
      mc_prune();
    {
      server_request *r = k->req;
      k->out = 0;
      if (!k->holds)
        k->req = NULL;
      if (!k->c->closed)
      {
        k->resp[k->nresp++] = (resp_t) {.status = "400 Bad Request", .at = sim_now()};
        k->gave_bad = 1;
      }
      server_bad_request(r);
    }
    break;
  case H_HOLD:
    if (!k->req || k->holds > 1)
      mc_prune();
    k->holds++;
    server_hold(k->req);
    break;
  case H_RELEASE:
    if (!k->req || !k->holds)
      mc_prune();
    release(k);
    break;
  case H_SHUTDOWN:
    if (!S)
      mc_prune();
    do_shutdown();
    break;
  case H_DESTROY:
    if (!S)
      mc_prune();
    do_destroy();
    break;
  case H_OTHER:
    for (i = 0; i < nk; i++)
      if (&K[i] != k && K[i].out)
        break;
    if (i == nk)
      mc_prune();
    answer(&K[i], P_OK);
    break;
  case E_SEND: case E_SEND2: case E_SEND_HALF: case H_SEND:
    if (k->c->closed || k->fin || k->rst || k->garbage)
      mc_prune();
    /* the text goes on where it stopped: a half request is completed first */
    {
      static uint8_t t[8192];
      size_t whole = 0, at = 0, have = k->inlen;
      int seq;
      for (seq = 0; ; seq++)
      {
        n = request_text(uniform ? tsel : (seq + tsel) % 4, k->id, seq);
        memcpy(t + whole, tmpl_buf, n);
        if (whole <= have && have < whole + n)
        {
          at = whole + n;
          break;
        }
        whole += n;
      }
      if (a == E_SEND_HALF)
      {
        if (have > whole)
          mc_prune();
        at = whole + n / 2;
      }
      else if (a == E_SEND2)
      {
        seq++;
        n = request_text(uniform ? tsel : (seq + tsel) % 4, k->id, seq);
        memcpy(t + at, tmpl_buf, n);
        at += n;
      }
      put(k, t + have, at - have);
    }
    break;
  case E_TAKE_1:
    if (!sim_in_flight(k->c))
      mc_prune();
    take(k, k->c->cap / 2 ? k->c->cap / 2 : 1);
    break;
  case E_TAKE:
    if (!sim_in_flight(k->c))
      mc_prune();
    take(k, -1);
    break;
  case E_FIN: case H_FIN:
    if (k->fin || k->rst || k->c->closed)
      mc_prune();
    k->fin = 1;
    sim_peer_fin(k->c);
    break;
  case E_RST:
    if (k->rst || k->c->closed)
      mc_prune();
    k->rst = 1;
    sim_peer_rst(k->c);
    break;
  case E_CONNECT:
    if (!S || !up)
      mc_prune();
    conn_new(capn);
    break;
  case E_CONNECT_BAD:
    if (!S || !up)
      mc_prune();
    sim_listen_error(lfd, mc_choose(2, "aborted, no descriptors") ? EMFILE : ECONNABORTED);
    break;
  case E_HANDIN:
    if (!S)
      mc_prune();
    conn_handin(capn);
    break;
  case E_REOPEN:
    if (!S || up)
      mc_prune();
    up_server();
    break;
  case E_GARBAGE:
    if (k->c->closed || k->fin || k->rst || k->garbage)
      mc_prune();
    k->garbage = 1;
    put(k, "\0\r\n\r\n", 5);
    break;
  }
  mc_step();
  verify();
}

/* the environment acts right before a system call of the library */
static void on_call(const char *name, int fd)
{
  int k;
  conn_t *c;

  (void) fd;
  if (injecting || !ninject || !nk)
    return;
  if (strcmp(name, "read") && strcmp(name, "write") && strcmp(name, "epoll_wait") && strcmp(name, "accept4") && strcmp(name, "accept"))
    return;
  k = mc_dev(ninject + 1, "environment acts before a system call");
  if (!k)
    return;
  injecting = 1;
  c = &K[nk - 1];
  {
    int a = inject[k - 1];
    mc_note("      before %s: %s", name, aname[a]);
    switch (a)
    {
    case E_TAKE: if (!sim_in_flight(c->c)) mc_prune(); take(c, -1); break;
    case E_FIN: if (c->fin || c->rst || c->c->closed) mc_prune(); c->fin = 1; sim_peer_fin(c->c); break;
    case E_RST: if (c->rst || c->c->closed) mc_prune(); c->rst = 1; sim_peer_rst(c->c); break;
    case E_SEND:
      if (c->fin || c->rst || c->c->closed) mc_prune();
      {
        int seq;
        size_t whole = 0, n;
        for (seq = 0; ; seq++)
        {
          n = request_text(uniform ? tsel : (seq + tsel) % 4, c->id, seq);
          if (whole <= c->inlen && c->inlen < whole + n)
            break;
          whole += n;
        }
        put(c, tmpl_buf + (c->inlen - whole), whole + n - c->inlen);
      }
      break;
    }
  }
  injecting = 0;
}

static void turn(void)
{
  mc_note("  turn");
  reactor_loop_once();
  mc_step();
  verify();
}

static void idle(void)
{
  int i, j, more;
  for (i = 0; ; i++)
  {
    MC_CHECK(i < 2000, "the server does not come to rest");
    if (sim_ready())
    {
      turn();
      continue;
    }
    /* clients in their handshake go on with it */
    for (more = j = 0; j < nk; j++)
      if (K[j].p && !K[j].done && !established(&K[j]) && !K[j].rst && sim_in_flight(K[j].c))
      {
        take(&K[j], -1);
        more = 1;
      }
    if (!more)
      break;
  }
}

static int inputs_done(conn_t *k)
{
  return k->c->closed || k->c->fd == -2 || arrived(k) == k->inlen;
}

/* the clients read everything, and everything due happens; then every client must have what it is owed */
static void settle(void)
{
  int i, j, more;

  for (j = 0; j < 2000; j++)
  {
    if (sim_ready())
    {
      turn();
      continue;
    }
    for (more = i = 0; i < nk; i++)
      if (K[i].c && sim_in_flight(K[i].c) && !K[i].rst)
      {
        take(&K[i], -1);
        more = 1;
      }
    if (!more)
      break;
  }
  MC_CHECK(j < 2000, "the server does not come to rest");
  verify();
  for (i = 0; i < nk; i++)
  {
    conn_t *k = &K[i];
    ref_msg m;
    int n;
    if (!k->c)
      continue;
    if (k->c->fd == -2)
    {
      MC_CHECK(!up || k->gone || !sim_is_open(lfd), "client %d is never accepted", i);
      continue;
    }
    if (k->fin || k->rst)
    {
      MC_CHECK(k->c->closed, "client %d has left but its connection is never closed", i);
      continue;
    }
    if (k->owner_closed || k->gone)
    {
      MC_CHECK(k->c->closed, "the connection of client %d is never closed", i);
      continue;
    }
    if (k->raw)
      continue;
    MC_CHECK(established(k), "the handshake of client %d is not completed", i);
    n = verdict(k, &m);
    if (k->gave_bad)
    {
      MC_CHECK(k->c->closed, "the connection of client %d stays open after a bad request", i);
      verify_conn(k, 1);
      continue;
    }
    if (k->out)
    {
      MC_CHECK(!k->c->closed, "the connection of client %d is closed while its request is handled", i);
      verify_conn(k, 1);
      continue;
    }
    if (n == -1)
    {
      MC_CHECK(k->bad_seen, "client %d never receives a 400 for its malformed request", i);
      MC_CHECK(k->c->closed, "the connection of client %d stays open after a malformed request", i);
      verify_conn(k, 1);
      continue;
    }
    MC_CHECK(inputs_done(k), "%zu bytes of client %d are never read", k->inlen - arrived(k), i);
    MC_CHECK(n == -2, "a complete request of client %d is never handled", i);
    MC_CHECK(!k->c->closed, "the connection of client %d is closed for no reason", i);
    verify_conn(k, 1);
  }
}

static int quiet_conns(void)
{
  int i;
  for (i = 0; i < nk; i++)
    if (K[i].c && ((!K[i].c->closed) || K[i].out || K[i].holds))
      return 0;
  return 1;
}

static void base_tls(int);
static void started(void);
static void settle(void);
static void finish(void);
static void tp_start(int version)
{
  static int warmed;
  int v;

  tp_init();
  if (!warmed)
  {
    warmed = warming = 1;
    for (v = 0; v < 4; v++)
    {
      base_tls(v & 1);
      handler_sync = 0;
      started();
      conn_new(capn);
      if (v & 2)
      {
        K[0].p->q[K[0].p->qoff] ^= 0;
        sim_peer_send(K[0].c, "GET / HTTP/1.1\r\n\r\n", 18);
        K[0].raw = K[0].fin = 1;
        sim_peer_fin(K[0].c);
      }
      else
      {
        idle();
        put(&K[0], "GET /Aa HTTP/1.1\r\n\r\n", 20);
      }
      settle();
      do_shutdown();
      finish();
    }
    warming = 0;
    tls = 1;
  }
  tlsver = version;
  tp_seed(7);
  ERR_clear_error();
}

static void base_(int version)
{
  static int once;
  size_t i;

  if (!once)
  {
    for (i = 0; i < sizeof bigbody; i++)
      bigbody[i] = 'a' + i % 23;
    for (i = 0; i < MAXCONN; i++)
    {
      K[i].incap = i < 4 ? 400000 : 2000;
      K[i].in = malloc(K[i].incap);
    }
    /* the C library's own time zone data; dates must not depend on the zone */
    setenv("TZ", "ABC3:27DEF", 1);
    tzset();
    {
      time_t t = 0;
      struct tm tm;
      char b[64];
      gmtime_r(&t, &tm);
      strftime(b, sizeof b, "%c", &tm);
    }
    memcpy(long_text, "200 ", 4);
    memset(long_text + 4, 'x', sizeof long_text - 5);
    once = 1;
  }
  for (i = 0; i < MAXCONN; i++)
    if (K[i].p)
    {
      tp_free(K[i].p);
      K[i].p = NULL;
    }
  if (tls)
    tp_start(version);
  hold_net = 0;
  sim_reset();
  sim_on_call = NULL;
  sim_split = NULL;
  sim_set_now((uint64_t) 1700000000 * SEC + 123456789);
  nk = in_handler = injecting = ninject = nreactions = react = 0;
  handler_sync = -1;
  pipe_how = 0;
  strict_date = 0;
  uniform = 0;
  capn = 1 << 20;
  biglen = 300;
  tsel = 0;
  up = 0;
  lfd = -1;
  mem0 = mem_now();
  reactor_construct();
  S = malloc(sizeof *S);
  server_construct(S, handler, &S);
}

static void base(void) { crypto = tls = 0; base_(0); }
static void base_tls(int version) { crypto = tls = 1; base_(version); }

static void started(void)
{
  up_server();
  mem1 = mem_now();
}

/* the clients of closed connections are done with */
static void forget(void)
{
  int i;
  for (i = 0; i < nk; i++)
    if (K[i].c && K[i].p && K[i].c->closed)
    {
      verify_conn(&K[i], 0);
      tp_free(K[i].p);
      K[i].p = NULL;
      K[i].done = 1;
    }
}

static void finish(void)
{
  int i, j;

  ninject = 0;
  react = 0;
  settle();
  /* answer and release what is left in the order chosen by the schedule: first or last come first */
  if (S && !warming && mc_choose(2, "at the end: answer first, destroy first"))
    do_destroy();
  for (i = 0; i < nk; i++)
    for (j = 0; j < 100 && (K[i].out || K[i].holds); j++)
    {
      if (K[i].out)
        answer(&K[i], P_OK);
      else
        release(&K[i]);
    }
  settle();
  for (i = 0; i < nk; i++)
    while (K[i].out)
    {
      answer(&K[i], P_OK);
      settle();
    }
  if (S)
    do_destroy();
  verify();
  reactor_destruct();
  for (i = 0; i < nk; i++)
    if (K[i].c && K[i].c->fd != -2)
      MC_CHECK(K[i].c->closed, "the connection of client %d is left open", i);
  MC_CHECK(sim_open_fds() == 0, "descriptors left open at the end:%s", sim_open_list());
  forget();
}

static long extra_mem(void)
{
  return mem_now() - mem0;
}

static uint64_t hash(int b)
{
  uint64_t h = sim_hash();
  int i;
  for (i = 0; i < nk; i++)
    h = mc_mix(h, K[i].handled | K[i].nresp << 8 | K[i].out << 16 | K[i].holds << 17 | K[i].owner_closed << 20 | K[i].gave_bad << 21 | K[i].gone << 22 | (uint64_t) K[i].inlen << 24);
  return mc_mix(h, b | up << 8 | (S != NULL) << 9 | react << 10);
}

/* actions out of acts on any connection */
static void run(const int *acts, int nacts, int *re, int nre, int reacts, int *inj, int ninj)
{
  int i, k, c, n = mc_param();

  reactions = re;
  nreactions = nre;
  react = reacts;
  inject = inj;
  ninject = ninj;
  sim_on_call = on_call;
  for (i = 0; i < n; i++)
  {
    mc_state(hash(n - i));
    k = mc_choose(nacts + 2, "action (0: stop, 1: turn)");
    if (k == 0)
      break;
    if (k == 1)
    {
      if (!sim_ready())
        mc_prune();
      turn();
      continue;
    }
    k = acts[k - 2];
    if (k == H_SHUTDOWN || k == H_DESTROY || k == E_CONNECT || k == E_REOPEN || k == E_HANDIN || k == E_CONNECT_BAD)
      c = nk ? nk - 1 : 0;
    else
    {
      if (!nk)
        mc_prune();
      c = nk > 1 ? mc_choose(nk, "which client") : 0;
    }
    act(k, nk ? &K[c] : NULL);
  }
}
#define N(a) ((int) (sizeof a / sizeof a[0]))
#define LEAK() MC_CHECK(extra_mem() == 0, "%ld heap blocks left at the end", extra_mem())

/* ---- C12 ---- */
/* a pipeline of requests, cut into up to three segments at any two places; each request answered at once or later */
static void c12_cuts(void)
{
  static uint8_t t[4096];
  size_t n = 0, cut1, cut2, last;
  int i, p = mc_param(), late;
  conn_t *k;

  base();
  started();
  k = conn_new(1 << 20);
  idle();
  uniform = 1;
  for (i = 0; i < p; i++)
  {
    size_t l = request_text(mc_choose(4, "request"), 0, i);
    memcpy(t + n, tmpl_buf, l);
    n += l;
  }
  late = mc_choose(2, "deferred answers: between segments, at the end");
  handler_sync = 2;
  cut1 = 1 + mc_choose(n, "first cut");
  cut2 = cut1 + mc_choose(n + 1 - cut1, "second cut");
  if (cut2 == cut1 && cut1 < n)
    cut2 = n; /* one cut: represented once */
  last = 0;
  for (i = 0; i < 3; i++)
  {
    size_t e = i == 0 ? cut1 : i == 1 ? cut2 : n;
    if (e == last)
      continue;
    put(k, t + last, e - last);
    mc_step();
    last = e;
    idle();
    if (!late)
      while (k->out)
      {
        answer(k, P_OK);
        idle();
      }
  }
  mc_state(hash(0));
  while (k->out)
  {
    answer(k, P_BIG);
    idle();
  }
  settle();
  MC_CHECK(k->handled == p, "%d of %d requests were handled", k->handled, p);
  finish();
  LEAK();
}
/* every byte a segment of its own, arriving before or after turns */
static void c12_bytes(void)
{
  static uint8_t t[4096];
  size_t n = 0, j;
  int i, p = mc_param(), step, late, which;
  conn_t *k;

  base();
  started();
  which = mc_choose(6, "request");
  step = 1 + mc_choose(7, "bytes per segment");
  late = mc_choose(3, "answers: at once, before the next segment, at the end");
  handler_sync = late ? 1 : 0;
  k = conn_new(1 << 20);
  for (i = 0; i < p; i++)
  {
    size_t l = request_text((which + i) % 6, 0, i);
    memcpy(t + n, tmpl_buf, l);
    n += l;
  }
  for (j = 0; j < n; j += step)
  {
    put(k, t + j, n - j < (size_t) step ? n - j : (size_t) step);
    mc_step();
    idle();
    mc_state(hash(0));
    while (late == 1 && k->out)
    {
      answer(k, P_BIG);
      idle();
    }
  }
  while (k->out)
  {
    answer(k, P_404);
    idle();
  }
  settle();
  MC_CHECK(k->handled == p, "%d of %d requests were handled", k->handled, p);
  finish();
  LEAK();
}
static int c12_re[] = {H_OK, H_BIG, H_ECHO, H_404, H_CUSTOM};
static void c12_interleave(void)
{
  static const int acts[] = {E_SEND_HALF, E_SEND, E_SEND2, H_OK, E_TAKE_1, E_TAKE};
  base();
  started();
  capn = 200;
  conn_new(capn);
  idle();
  run(acts, N(acts), c12_re, 3, 4, NULL, 0);
  finish();
  LEAK();
}
static void c12_slow(void)
{
  static const int acts[] = {E_SEND, E_SEND2, H_BIG, E_TAKE_1, E_TAKE, H_OK};
  base();
  started();
  capn = 1 << (3 + mc_choose(3, "send space"));
  conn_new(capn);
  idle();
  run(acts, N(acts), c12_re, 2, 3, NULL, 0);
  finish();
  LEAK();
}
/* handlers that answer other clients' requests, whose next ones are handled within, before or after their own */
static int c12_others_re[] = {H_OTHER, H_OK};
static void c12_others(void)
{
  static const int acts[] = {E_SEND, E_SEND2, H_OK};
  base();
  started();
  capn = 1 << 16;
  conn_new(capn);
  conn_new(capn);
  if (mc_choose(2, "clients: two, three"))
    conn_new(capn);
  idle();
  run(acts, N(acts), c12_others_re, 2, 5, NULL, 0);
  finish();
  LEAK();
}
static int c12_inj[] = {E_SEND, E_TAKE};
static void c12_racing(void)
{
  static const int acts[] = {E_SEND_HALF, E_SEND, H_OK, E_TAKE, E_SEND2};
  base();
  started();
  capn = 150;
  conn_new(capn);
  run(acts, N(acts), c12_re, 2, 3, c12_inj, N(c12_inj));
  finish();
  LEAK();
}
/* the kernel hands out and takes any part of what is asked for */
static size_t part(int fd, int wr, size_t n)
{
  if (fd < SIM_FD_BASE || sim_kind(fd) != SIM_SOCK)
    return n;
  if (!wr)
    return n;
  switch (mc_dev(4, "bytes accepted: all, one, half, all but one"))
  {
  case 1: return 1;
  case 2: return n / 2 ? n / 2 : 1;
  case 3: return n - 1 ? n - 1 : 1;
  default: return n;
  }
}
static void c12_partial(void)
{
  static const int acts[] = {E_SEND, E_SEND2, H_BIG, E_TAKE};
  base();
  started();
  capn = 300;
  conn_new(capn);
  idle();
  sim_split = part;
  run(acts, N(acts), c12_re, 2, 3, NULL, 0);
  sim_split = NULL;
  finish();
  LEAK();
}
/* pipelines and requests around and above the size of the receive block */
static void c12_large(void)
{
  static uint8_t t[400000];
  size_t n = 0, seg, j, l;
  int kind, late, count = 0, i;
  static const int sizes[] = {STREAM_RECEIVE_SIZE - 1, STREAM_RECEIVE_SIZE, STREAM_RECEIVE_SIZE + 1, 2 * STREAM_RECEIVE_SIZE, 2 * STREAM_RECEIVE_SIZE + 1, 70000};
  static const int segs[] = {400000, STREAM_RECEIVE_SIZE, STREAM_RECEIVE_SIZE - 1, STREAM_RECEIVE_SIZE + 1, 30000};
  conn_t *k;

  base();
  started();
  kind = mc_choose(2, "one long request, many");
  l = sizes[mc_choose(N(sizes), "size")];
  seg = segs[mc_choose(N(segs), "segment")];
  late = mc_choose(2, "answers now, later");
  capn = mc_choose(2, "send space") ? 5000 : 1 << 20;
  handler_sync = late;
  k = conn_new(capn);
  if (kind == 0)
  {
    n = sprintf((char *) t, "GET /Aa HTTP/1.1\r\nX: ");
    while (n < l - 4)
      t[n++] = 'v';
    memcpy(t + n, "\r\n\r\n", 4);
    n += 4;
    count = 1;
    n += sprintf((char *) t + n, "GET /Ab HTTP/1.1\r\n\r\n");
    count = 2;
  }
  else
    while (n + 1200 < l || n < l - 600)
    {
      size_t pad = (l - n) / 150 > 400 ? 400 : 400;
      n += sprintf((char *) t + n, "GET /A%c HTTP/1.1\r\nX: ", 'a' + count % 26);
      memset(t + n, 'w', pad + count % 7);
      n += pad + count % 7;
      n += sprintf((char *) t + n, "\r\n\r\n");
      if (++count == MAXRESP - 2)
        break;
    }
  for (j = 0; j < n; j += seg)
  {
    put(k, t + j, n - j < seg ? n - j : seg);
    mc_step();
    idle();
  }
  for (i = 0; i < 2000 && (k->out || sim_in_flight(k->c)); i++)
  {
    if (k->out)
      answer(k, i % P_KINDS == P_ECHO ? P_OK : i % P_KINDS);
    else
      sim_peer_take(k->c, -1);
    mc_step();
    idle();
  }
  mc_state(hash(0));
  settle();
  MC_CHECK(k->handled == count, "%d of %d requests were handled", k->handled, count);
  finish();
  LEAK();
}

/* any length of every part of a request head, one or two arrivals, followed by another request */
static void c12_lengths(void)
{
  static const char *parts[] = {"method", "target", "field name", "field value", "blank lines in continuation", "several long fields"};
  static uint8_t t[70000 * 2 + 1000];
  static const int large[] = {1000, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70000};
  size_t n = 0, l, cut, m;
  int part = mc_choose(N(parts), "long part"), i, when;
  conn_t *k;

  base();
  i = mc_choose(301 + N(large), "length");
  l = i <= 300 ? i : large[i - 301];
  when = mc_choose(4, "cut: none, inside the long part, before the last byte, after the first request");
  (void) parts;
  started();
  k = conn_new(1 << 20);
  handler_sync = mc_choose(2, "answers now, later");
  if (part == 0)
  {
    for (m = 0; m < l + 1; m++)
      t[n++] = 'A' + m % 26;
  }
  else
    n += sprintf((char *) t + n, "GET");
  n += sprintf((char *) t + n, " /Aa");
  if (part == 1)
    for (m = 0; m < l; m++)
      t[n++] = 'a' + m % 26;
  n += sprintf((char *) t + n, " HTTP/1.1\r\n");
  switch (part)
  {
  case 2:
    for (m = 0; m < l + 1; m++)
      t[n++] = "!#$%&'*+-.^_`|~0aZ"[m % 18];
    n += sprintf((char *) t + n, ": v\r\n");
    break;
  case 3:
    n += sprintf((char *) t + n, "X:");
    for (m = 0; m < l; m++)
      t[n++] = 32 + m % 95;
    n += sprintf((char *) t + n, "\r\n");
    break;
  case 4:
    n += sprintf((char *) t + n, "X: 1\r\n");
    for (m = 0; m < l + 1; m++)
      t[n++] = m & 1 ? '\t' : ' ';
    n += sprintf((char *) t + n, "2\r\n");
    break;
  case 5:
    for (i = 0; i < 16; i++)
    {
      n += sprintf((char *) t + n, "N%d: ", i);
      for (m = 0; m < l / 8; m++)
        t[n++] = 'a' + (m + i) % 26;
      n += sprintf((char *) t + n, "\r\n");
    }
    break;
  }
  n += sprintf((char *) t + n, "\r\n");
  cut = when == 0 ? n : when == 1 ? n - l / 2 - 5 : when == 2 ? n - 1 : n;
  m = n;
  n += sprintf((char *) t + n, "GET /Ab HTTP/1.0\r\nA: b\r\n\r\n");
  if (when == 0)
    cut = n;
  if (cut > n)
    mc_prune();
  put(k, t, cut);
  mc_step();
  idle();
  if (cut < n)
  {
    put(k, t + cut, n - cut);
    mc_step();
    idle();
  }
  while (k->out)
  {
    answer(k, P_OK);
    idle();
  }
  mc_state(mc_mix(part, l * 8 + when));
  settle();
  MC_CHECK(k->handled == 2, "%d of 2 requests were handled", k->handled);
  finish();
  LEAK();
}
/* up to a thousand requests waiting at once */
static void c12_pipeline(void)
{
  static uint8_t t[60000];
  static const int counts[] = {1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 20, 31, 32, 33, 50, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025};
  int i, count = counts[mc_choose(N(counts), "requests")], how = mc_choose(4, "answered: at once, later, every third later, only the first later"), slow = mc_choose(2, "client reads at once, slowly"), arrivals = mc_choose(3, "arrive: together, in two parts, each on its own");
  size_t n = 0, ends[1100], sent = 0;
  conn_t *k;

  base();
  started();
  k = conn_new(slow ? 3000 : 1 << 20);
  for (i = 0; i < count; i++)
  {
    n += sprintf((char *) t + n, "GET /A%c%d HTTP/1.1\r\n\r\n", 'a' + i % 26, i);
    ends[i] = n;
  }
  pipe_how = how + 1;
  if (arrivals == 2 && count > 300)
    mc_prune();
  for (i = 0; i < count; i++)
    if (arrivals == 2 || (arrivals == 1 && i == count / 2) || i == count - 1)
    {
      size_t e = arrivals == 1 && i != count - 1 ? ends[i] - 3 : ends[i];
      put(k, t + sent, e - sent);
      sent = e;
      mc_step();
      idle();
    }
  for (i = 0; i < 100000 && (k->out || sim_in_flight(k->c)); i++)
  {
    if (k->out)
      answer(k, i % 2 ? P_EMPTY : P_OK);
    else
      take(k, -1);
    mc_step();
    idle();
  }
  pipe_how = 0;
  mc_state(mc_mix(count, how * 8 + slow * 4 + arrivals));
  settle();
  MC_CHECK(k->handled == count && k->nver == count, "%d of %d requests were handled, %d answered", k->handled, count, k->nver);
  finish();
  LEAK();
}

/* ---- C13 ---- */
static int c13_re[] = {H_OK, H_CLOSE, H_HOLD, H_BAD, H_SHUTDOWN, H_DESTROY, H_RELEASE, H_OTHER};
static int c13_inj[] = {E_FIN, E_RST, E_SEND};
static void released(void)
{
  int i;
  /* with every connection gone and every request released, nothing of them remains allocated */
  ninject = 0;
  react = 0;
  idle();
  settle();
  if (S && up && quiet_conns())
  {
    for (i = 0; i < nk; i++)
      if (K[i].c->fd == -2)
        return;
    forget();
    MC_CHECK(mem_now() <= mem1, "%ld heap blocks of closed and released connections remain", mem_now() - mem1);
  }
}
static void c13_one(void)
{
  static const int acts[] = {E_SEND, E_SEND2, H_OK, H_CLOSE, E_FIN, E_RST, H_HOLD, H_RELEASE, H_SHUTDOWN, H_DESTROY, H_BAD, E_GARBAGE, E_SEND_HALF};
  base();
  started();
  uniform = 1;
  conn_new(capn);
  idle();
  run(acts, N(acts), c13_re, N(c13_re) - 1, 3, NULL, 0);
  released();
  finish();
  LEAK();
}
/* one request held any number of times, released in groups around the answer and the end of the connection */
static void hold_many(conn_t *k, int n)
{
  for (; n > 0; n--)
  {
    server_hold(k->req);
    k->holds++;
  }
}
static void release_many(conn_t *k, int n)
{
  for (; n > 0 && k->holds; n--)
    release(k);
}
static void c13_holds(void)
{
  static const int counts[] = {1, 2, 3, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 511, 1000, 32767, 32768, 65535, 65536, 65537};
  int n = counts[mc_choose(N(counts), "holds")], first = (int[]) {0, 1, n / 2, n - 1, n}[mc_choose(5, "released before the answer")], ends = mc_choose(4, "connection: stays, ends before, between, after"), how = mc_choose(3, "ends by: closing, client, shutdown"), i;
  conn_t *k;

  base();
  started();
  uniform = 1;
  k = conn_new(1 << 16);
  idle();
  handler_sync = 1;
  act(E_SEND, k);
  idle();
  MC_CHECK(k->out && k->req, "the request is not handled");
  hold_many(k, n);
  for (i = 0; i < 4; i++)
  {
    if (ends == i + 1)
      switch (how)
      {
      case 0: if (k->req) act(H_CLOSE, k); break;
      case 1: act(E_FIN, k); idle(); break;
      case 2: act(H_SHUTDOWN, k); break;
      }
    if (i == 0)
      release_many(k, first);
    if (i == 1)
      act(H_OK, k);
    if (i == 2)
      release_many(k, n);
    mc_step();
  }
  idle();
  mc_state(mc_mix(mc_mix(n, first), ends * 4 + how));
  released();
  finish();
  LEAK();
}
static void c13_two(void)
{
  static const int acts[] = {E_SEND, H_OK, H_CLOSE, E_FIN, H_SHUTDOWN, H_DESTROY, H_RELEASE, H_BIG, E_SEND_HALF};
  base();
  started();
  uniform = 1;
  conn_new(capn);
  conn_new(capn);
  idle();
  run(acts, N(acts), c13_re, N(c13_re), 3, NULL, 0);
  released();
  finish();
  LEAK();
}
static void c13_racing(void)
{
  static const int acts[] = {E_SEND, E_SEND2, H_OK, H_HOLD, H_SHUTDOWN, H_BIG};
  base();
  started();
  uniform = 1;
  capn = 200;
  conn_new(capn);
  idle();
  run(acts, N(acts), c13_re, N(c13_re) - 1, 3, c13_inj, N(c13_inj));
  released();
  finish();
  LEAK();
}
static void c13_reopen(void)
{
  static const int acts[] = {E_SEND, H_OK, E_FIN, H_SHUTDOWN, E_REOPEN, E_CONNECT, E_HANDIN, H_DESTROY, H_CLOSE};
  base();
  started();
  uniform = 1;
  conn_new(capn);
  idle();
  run(acts, N(acts), c13_re, 6, 2, NULL, 0);
  released();
  finish();
  LEAK();
}

/* ---- C14 ---- */
static const struct { const char *s; int n; } bad_text[] = {
#define B(x) {x, sizeof x - 1}
  B("GET\x01 / HTTP/1.1\r\n\r\n"), B("GET /\x7f HTTP/1.1\r\n\r\n"), B("GET / HTTP/2.0\r\n\r\n"), B("GET / HTTP/1.a\r\n\r\n"), B("GET / HTTP/1.1 \r\n\r\n"),
  B("GET / HTTP/1.1\r\r\n\r\n"), B("GET / HTTP/1.1\r\nA\r\n\r\n"), B("GET / HTTP/1.1\r\nA b: c\r\n\r\n"), B("GET / HTTP/1.1\r\n: c\r\n\r\n"), B("GET / HTTP/1.1\r\n a: c\r\n\r\n"),
  B("GET / HTTP/1.1\r\nA: c\x01\r\n\r\n"), B("GET / HTTP/1.1\r\nA: c\rd\r\n\r\n"), B("GET /\r\n\r\n"), B(" / HTTP/1.1\r\n\r\n"), B("GET  HTTP/1.1\r\n\r\n"),
  B("\r\r\nGET / HTTP/1.1\r\n\r\n"), B("\r\n\r\nGET / HTTP/1.1\r\n\r\n"), B("GET / HTTP/1.1\r\nA:\0\r\n\r\n"), B("GET / HTTP/1.1\r\n\rX"), B("GET / http/1.1\r\n\r\n"),
  B("GET / HTTP/1.1\r\nA: 1\r\nB: 1\r\nC: 1\r\nD: 1\r\nE: 1\r\nF: 1\r\nG: 1\r\nH: 1\r\nI: 1\r\nJ: 1\r\nK: 1\r\nL: 1\r\nM: 1\r\nN: 1\r\nO: 1\r\nP: 1\r\nQ: 1\r\n\r\n"),
  B("GET / HTTP/1.1\r\nA: 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n 1\r\n\r\n"),
  B("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03"), B("GET / HTTP/1.1\nA: b\n(: c\n\n"),
};
static const char bad_tail[] = "GET /Az HTTP/1.1\r\n\r\n";

/* earlier requests, then the malformed one, then a good one; cut anywhere; another client meanwhile */
static void c14_cuts(void)
{
  static uint8_t t[8192];
  size_t n = 0, cut, last = 0, l;
  int b, pre, i, late, tail, slow, w;
  conn_t *k, *o;

  base();
  started();
  b = mc_choose(N(bad_text), "malformed request");
  pre = mc_choose(3, "requests before");
  tail = mc_choose(2, "a good request after it");
  late = mc_choose(3, "earlier requests answered: at once, each before the next segment, at the end");
  slow = mc_choose(3, "the client reads: everything, slowly, very slowly");
  w = mc_choose(2, "another client");
  capn = slow == 0 ? 1 << 20 : slow == 1 ? 100 : 7;
  k = conn_new(capn);
  capn = 1 << 20;
  o = w ? conn_new(capn) : NULL;
  idle();
  handler_sync = late ? 1 : 0;
  for (i = 0; i < pre; i++)
  {
    l = request_text(i, 0, i);
    memcpy(t + n, tmpl_buf, l);
    n += l;
  }
  memcpy(t + n, bad_text[b].s, bad_text[b].n);
  n += bad_text[b].n;
  if (tail)
  {
    memcpy(t + n, bad_tail, sizeof bad_tail - 1);
    n += sizeof bad_tail - 1;
  }
  cut = 1 + mc_choose(n, "cut");
  for (i = 0; i < 2; i++)
  {
    size_t e = i ? n : cut;
    if (e == last || k->c->closed)
      continue;
    put(k, t + last, e - last);
    last = e;
    if (o)
    {
      l = request_text(0, 1, i);
      put(o, tmpl_buf, l);
    }
    mc_step();
    idle();
    while (late == 1 && k->out)
    {
      answer(k, P_OK);
      idle();
    }
  }
  mc_state(hash(0));
  while (k->out)
  {
    answer(k, P_BIG);
    idle();
  }
  if (o)
    while (o->out)
    {
      answer(o, P_BIG);
      idle();
    }
  settle();
  if (pre == 0)
    MC_CHECK(k->handled == 0, "a malformed request reached the handler");
  if (o)
    MC_CHECK(o->handled >= 1 && !o->c->closed, "the other client is not served");
  finish();
  LEAK();
}
/* a client that goes on sending, leaves or is answered by the owner's own 400 */
static void c14_owner(void)
{
  static int re[] = {H_BAD, H_OK, H_BIG, H_HOLD};
  static const int acts[] = {E_SEND, E_SEND2, E_TAKE, E_TAKE_1, E_FIN, E_RST, H_BAD, H_OK, H_RELEASE};
  base();
  started();
  capn = 60;
  uniform = 1;
  conn_new(capn);
  idle();
  run(acts, N(acts), re, N(re), 3, NULL, 0);
  released();
  finish();
  LEAK();
}
/* after the malformed request the client goes on: more bytes, end of stream, reset, at every point */
static void c14_after(void)
{
  int b, i, a, n = mc_param();
  conn_t *k;

  base();
  started();
  b = mc_choose(N(bad_text), "malformed request");
  handler_sync = mc_choose(2, "answers now, later");
  capn = mc_choose(2, "client reads slowly") ? 50 : 1 << 20;
  k = conn_new(capn);
  idle();
  put(k, "GET /Aa HTTP/1.1\r\n\r\n", 20);
  put(k, bad_text[b].s, bad_text[b].n);
  for (i = 0; i < n; i++)
  {
    mc_state(hash(i));
    a = mc_choose(7, "turn, more bytes, finish, reset, read a little, read all, answer");
    switch (a)
    {
    case 0: if (!sim_ready()) mc_prune(); turn(); break;
    case 1: if (k->c->closed || k->fin || k->rst) mc_prune(); put(k, "GET /Ab HTTP/1.1\r\n\r\n", 20); break;
    case 2: act(E_FIN, k); break;
    case 3: act(E_RST, k); break;
    case 4: act(E_TAKE_1, k); break;
    case 5: act(E_TAKE, k); break;
    case 6: act(H_OK, k); break;
    }
  }
  settle();
  if (k->out)
    answer(k, P_OK);
  settle();
  finish();
  LEAK();
}

/* ---- C15 ---- */
/* many connections and failing ones at once */
static void c15_many(void)
{
  static const int counts[] = {1, 2, 3, 5, 17, 33, 40, 64, 65, 128, 129, 200};
  int n = counts[mc_choose(N(counts), "connections")], bad = mc_choose(3, "no failure, one aborted, no descriptors for a moment"), at = 0, i, j, first;
  base();
  started();
  handler_sync = 0;
  if (bad)
    at = n > 40 ? n / 3 * mc_choose(4, "failure at") : mc_choose(n + 1, "failure at");
  first = mc_choose(2, "requests sent before, after the accepts");
  for (i = 0; i < n; i++)
  {
    if (bad && at == i)
      sim_listen_error(lfd, bad == 1 ? ECONNABORTED : EMFILE);
    conn_new(1 << 20);
    if (first)
    {
      j = request_text(0, i, 0);
      put(&K[i], tmpl_buf, j);
    }
    mc_step();
  }
  if (bad && at == n)
    sim_listen_error(lfd, bad == 1 ? ECONNABORTED : EMFILE);
  idle();
  MC_CHECK(sim_listen_pending(lfd) == 0, "%zu connections are never accepted", sim_listen_pending(lfd));
  for (i = 0; i < n; i++)
  {
    MC_CHECK(K[i].c->fd != -2, "connection %d is never accepted", i);
    if (!first)
    {
      j = request_text(0, i, 0);
      put(&K[i], tmpl_buf, j);
    }
  }
  idle();
  mc_state(hash(0));
  settle();
  for (i = 0; i < n; i++)
    MC_CHECK(K[i].handled == 1, "client %d is not served", i);
  /* one more */
  conn_new(1 << 20);
  j = request_text(0, n, 0);
  put(&K[n], tmpl_buf, j);
  settle();
  MC_CHECK(K[n].handled == 1, "the last client is not served");
  finish();
  LEAK();
}
/* the process runs out of descriptors, and some connections end later */
static void c15_limit(void)
{
  int n, room, turns, i, ends;
  size_t l;

  base();
  started();
  handler_sync = 0;
  uniform = 1;
  n = 1 + mc_choose(4, "connections");
  room = mc_choose(3, "free descriptors");
  sim_set_fd_limit(sim_open_fds() + room);
  for (i = 0; i < n; i++)
  {
    conn_new(1 << 20);
    l = request_text(0, i, 0);
    put(&K[i], tmpl_buf, l);
  }
  /* one connection may be accepted in each turn, or all */
  for (turns = n + mc_choose(3, "turns"), i = 0; i < turns && sim_ready(); i++)
    turn();
  for (i = 0; i < n; i++)
    MC_CHECK((K[i].c->fd == -2) == (i >= room), "client %d of %d with %d free descriptors is%s accepted", i, n, room, K[i].c->fd == -2 ? " not" : "");
  switch (ends = mc_choose(4, "then: clients leave one by one, descriptors are available again, another connection and then descriptors, the server shuts down"))
  {
  case 0:
    for (i = 0; i < n && room; i++)
    {
      MC_CHECK(K[i].c->fd != -2, "client %d is not accepted although another has left", i);
      take(&K[i], -1);
      act(E_FIN, &K[i]);
      for (l = 0; l < 6 && sim_ready(); l++)
        turn();
      MC_CHECK(K[i].handled == 1 && K[i].c->closed, "client %d: %d requests handled", i, K[i].handled);
    }
    break;
  case 2:
    conn_new(1 << 20);
    l = request_text(0, n, 0);
    put(&K[n], tmpl_buf, l);
    if (sim_ready())
      turn();
    n++;
    break;
  case 3:
    do_shutdown();
    break;
  }
  sim_set_fd_limit(0);
  mc_state(hash(0));
  settle();
  if (ends != 3)
    for (i = 0; i < n; i++)
      MC_CHECK(K[i].handled == 1, "client %d is not served", i);
  finish();
  LEAK();
}
static int c15_re[] = {H_OK, H_BIG, H_CLOSE, H_SHUTDOWN};
static void c15_isolated(void)
{
  static const int acts[] = {E_SEND, E_SEND_HALF, H_OK, E_TAKE, E_FIN, E_RST, E_CONNECT, E_GARBAGE, H_CLOSE};
  base();
  started();
  uniform = 1;
  capn = 100;
  conn_new(capn);
  conn_new(capn);
  idle();
  run(acts, N(acts), c15_re, 3, 2, NULL, 0);
  finish();
  LEAK();
}
static void c15_arrivals(void)
{
  static const int acts[] = {E_CONNECT, E_CONNECT_BAD, E_SEND, E_HANDIN, H_SHUTDOWN, E_REOPEN, E_FIN};
  base();
  if (mc_choose(2, "server open"))
    started();
  uniform = 1;
  run(acts, N(acts), c15_re, N(c15_re), 2, NULL, 0);
  finish();
  LEAK();
}
static int c15_inj[] = {E_FIN, E_RST, E_SEND};
static void c15_racing(void)
{
  static const int acts[] = {E_CONNECT, E_SEND, H_SHUTDOWN, E_REOPEN, H_OK};
  base();
  started();
  uniform = 1;
  conn_new(capn);
  run(acts, N(acts), c15_re, 2, 2, c15_inj, N(c15_inj));
  finish();
  LEAK();
}

/* ---- C16 ---- */
static const char *statuses[] = {"200 OK", "404 Not Found", "500 Internal Server Error", "204 No Content", "200 ", "999 x", "301 Moved Permanently with a rather long reason phrase that goes on and on", long_text};
static const char *types[] = {NULL, "", "a", "text/plain", "text/html; charset=utf-8", "application/vnd.a-rather-long-type+json; charset=\"utf-8\"; version=1; profile=none", long_text + 100};
static void c16_contents(void)
{
  static const int sizes[] = {0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 65535, 65536, 99999, 100000, 199999, 999999, 1000000, 1048576, 9999999, 10000000, 16777217};
  int s = mc_choose(N(statuses), "status"), t = mc_choose(N(types), "type"), b = mc_choose(N(sizes), "body"), c = mc_choose(3, "send space"), i;
  conn_t *k;

  if (sizes[b] > 200000 && (c == 2 || s > 1 || t > 2))
    mc_prune();
  base();
  started();
  strict_date = 1;
  handler_sync = 1;
  k = conn_new(sizes[b] > 200000 ? (c ? 300000 : 40 << 20) : c == 0 ? 1 << 20 : c == 1 ? 3000 : 40);
  put(k, "GET /Aa HTTP/1.1\r\n\r\nGET /Ab HTTP/1.1\r\n\r\n", 40);
  idle();
  for (i = 0; i < 2; i++)
  {
    server_request *r = k->req;
    MC_CHECK(k->out, "request %d is not handled", i);
    k->resp[k->nresp++] = (resp_t) {.status = statuses[s], .type = types[t], .body = bigbody, .blen = sizes[b], .at = sim_now()};
    k->out = 0;
    k->req = NULL;
    server_respond(r, data_construct(statuses[s], strlen(statuses[s])), types[t] ? data_construct(types[t], strlen(types[t])) : data_null(), data_construct(bigbody, sizes[b]));
    mc_step();
    idle();
  }
  if (c == 2)
  {
    /* a very slow reader takes its time for the first kilobytes only */
    for (i = 0; i < 50; i++)
    {
      sim_peer_take(k->c, -1);
      idle();
    }
    sim_set_cap(k->c, 1 << 20);
  }
  settle();
  MC_CHECK(k->nver == 2, "%d of 2 responses", k->nver);
  mc_state(hash(s * 100 + t));
  finish();
  LEAK();
}
/* time passes, the loop keeps running: it wakes for every expiry */
static void pass(uint64_t d)
{
  uint64_t end = sim_now() + d, e;

  while ((e = sim_next_expiry()) && e <= end)
  {
    if (e > sim_now())
      sim_advance(e - sim_now());
    idle();
  }
  if (end > sim_now())
    sim_advance(end - sim_now());
  idle();
}
static const int64_t moments[] = {1, 86399, 951782399, 951868799, 1078012799, 1709164799, 1709251199, 1703980799, 2147483646, 4102444799, 4107542399, 946684799, 1700000000, 1230767999, 68169599};
static void c16_dates(void)
{
  static const uint64_t steps[] = {0, 1, 999999999, 1000000000, 1000000001, 500000000, 2500000000ull};
  int how, i, n = mc_param(), first;
  conn_t *k;

  base();
  sim_set_now(moments[mc_choose(N(moments), "clock")] * SEC + (mc_choose(3, "fraction") * 499999999ull + 1));
  strict_date = 1;
  handler_sync = 0;
  how = mc_choose(3, "accepted, handed in, handed in although not open");
  if (how != 2)
    started();
  first = mc_choose(2, "first request: at once, after a turn");
  if (first)
    idle();
  if (how == 0)
    k = conn_new(1 << 20);
  else
    k = conn_handin(1 << 20);
  for (i = 0; i < n; i++)
  {
    size_t l = request_text(0, 0, i);
    put(k, tmpl_buf, l);
    mc_step();
    idle();
    MC_CHECK(k->handled == i + 1 && k->nver == i + 1, "%d requests, %d handled, %d answered", i + 1, k->handled, k->nver);
    mc_state(hash(i));
    if (i + 1 < n)
    {
      l = steps[mc_choose(N(steps), "time passes")];
      if (how != 2 && mc_choose(2, "the request arrives together with the last expiry") && l >= SEC)
      {
        /* run up to just before the next expiry, then let both happen at once */
        uint64_t e;
        pass(l - SEC);
        e = sim_next_expiry();
        MC_CHECK(e, "no timer is running");
        if (e > sim_now())
        {
          int z = request_text(0, 0, i + 1);
          sim_advance(e - sim_now());
          (void) z;
        }
      }
      else
        pass(l);
    }
  }
  settle();
  finish();
  LEAK();
}
/* every day of two centuries, every second of a day */
static void c16_calendar(void)
{
  int kind;
  int64_t t, end, step;
  conn_t *k;
  int i = 0;

  base();
  strict_date = 1;
  handler_sync = 0;
  uniform = 1;
  kind = mc_choose(2, "days, seconds");
  if (kind == 0)
  {
    int part = mc_choose(64, "part");
    int64_t all = 47847; /* days up to 2100-12-31 */
    t = all * part / 64 * 86400 + 86398;
    end = all * (part + 1) / 64 * 86400;
    step = mc_thorough() ? 86400 : 86400;
  }
  else
  {
    int part = mc_choose(64, "part");
    t = 1709164800 + 86400 * part / 64;
    end = t + 86400 / 64;
    step = 1;
  }
  sim_set_now((t - 3) * SEC);
  started();
  k = conn_new(1 << 20);
  idle();
  pass(2 * SEC + 5);
  for (; t < end; t += step)
  {
    if ((int64_t) (sim_now() / SEC) < t)
      sim_advance(t * SEC - sim_now());
    idle();
    pass(SEC + SEC);
    k->nresp = k->nver = 0;
    {
      size_t l = request_text(0, 0, 0);
      k->inlen = 0;
      k->off = 0;
      k->c->delivered = 0;
      k->handled = 0;
      put(k, tmpl_buf, l);
    }
    idle();
    MC_CHECK(k->nver == 1, "no answer");
    sim_peer_take(k->c, -1);
    k->c->gotlen = 0;
    k->c->sent = 0;
    k->voff = 0;
    mc_step();
    mc_state(t);
    i++;
  }
  finish();
  LEAK();
}

/* ---- over encrypted connections ---- */
/* requests cut into records, and the records into segments */
static void c12_tls_cuts(void)
{
  static uint8_t t[4096];
  size_t n = 0, cut, q, a;
  int i, p = mc_param(), late, pairs;
  conn_t *k;

  base_tls(mc_choose(2, "TLS 1.3, 1.2"));
  started();
  k = conn_new(1 << 20);
  idle();
  uniform = 1;
  for (i = 0; i < p; i++)
  {
    size_t l = request_text(mc_choose(3, "request"), 0, i);
    memcpy(t + n, tmpl_buf, l);
    n += l;
  }
  late = mc_choose(2, "deferred answers: between segments, at the end");
  handler_sync = 2;
  /* any two places in the thorough tier, otherwise one of them */
  pairs = mc_thorough() ? 2 : mc_choose(2, "cut: records, segments");
  cut = pairs == 1 ? n : 1 + mc_choose(n, "records end at");
  hold_net = 1;
  put(k, t, cut);
  if (cut < n)
    put(k, t + cut, n - cut);
  q = tp_queued(k->p);
  a = pairs == 0 ? q : 1 + mc_choose(q, "segments end at");
  for (i = 0; i < 2; i++)
  {
    net(k, i ? (size_t) -1 : a);
    mc_step();
    idle();
    if (!late)
      while (k->out)
      {
        answer(k, P_OK);
        idle();
      }
  }
  hold_net = 0;
  mc_state(hash(0));
  while (k->out)
  {
    answer(k, P_BIG);
    idle();
  }
  settle();
  MC_CHECK(k->handled == p, "%d of %d requests were handled", k->handled, p);
  finish();
  LEAK();
}
static void c12_tls_interleave(void)
{
  static const int acts[] = {E_SEND_HALF, E_SEND, E_SEND2, H_OK, E_TAKE_1, E_TAKE};
  base_tls(mc_choose(2, "TLS 1.3, 1.2"));
  started();
  capn = 200;
  conn_new(capn);
  idle();
  run(acts, N(acts), c12_re, 3, 4, NULL, 0);
  finish();
  LEAK();
}
static void c12_tls_slow(void)
{
  static const int acts[] = {E_SEND, E_SEND2, H_BIG, E_TAKE_1, E_TAKE, H_OK};
  base_tls(0);
  biglen = 40000;
  started();
  capn = mc_choose(2, "send space") ? 9000 : 900;
  conn_new(capn);
  idle();
  run(acts, N(acts), c12_re, 2, 3, NULL, 0);
  finish();
  LEAK();
}
/* long pipelines in long records */
static void c12_tls_large(void)
{
  static uint8_t t[400000];
  static const int sizes[] = {16383, 16384, 16385, 32768, 40000, 70000};
  size_t n = 0, l;
  int count = 0, late, i;
  conn_t *k;

  base_tls(mc_choose(2, "TLS 1.3, 1.2"));
  started();
  l = sizes[mc_choose(N(sizes), "size")];
  late = mc_choose(2, "answers now, later");
  k = conn_new(mc_choose(2, "send space") ? 5000 : 1 << 20);
  idle();
  handler_sync = late;
  while (n + 1200 < l || n < l - 600)
  {
    size_t pad = 400 + count % 7;
    n += sprintf((char *) t + n, "GET /A%c HTTP/1.1\r\nX: ", 'a' + count % 26);
    memset(t + n, 'w', pad);
    n += pad;
    n += sprintf((char *) t + n, "\r\n\r\n");
    if (++count == MAXRESP - 2)
      break;
  }
  put(k, t, n);
  idle();
  for (i = 0; i < 4000 && (k->out || sim_in_flight(k->c)); i++)
  {
    if (k->out)
      answer(k, i % P_KINDS == P_ECHO ? P_OK : i % P_KINDS);
    else
      take(k, -1);
    mc_step();
    idle();
  }
  mc_state(hash(0));
  settle();
  MC_CHECK(k->handled == count, "%d of %d requests were handled", k->handled, count);
  finish();
  LEAK();
}
static void c13_tls(void)
{
  static const int acts[] = {E_SEND, H_OK, H_CLOSE, E_FIN, E_RST, H_HOLD, H_RELEASE, H_SHUTDOWN, H_DESTROY, H_BAD, E_SEND_HALF};
  base_tls(0);
  started();
  uniform = 1;
  conn_new(capn);
  idle();
  run(acts, N(acts), c13_re, N(c13_re) - 1, 2, NULL, 0);
  released();
  finish();
  LEAK();
}
/* clients that leave or are shut out in the middle of their handshake */
static void c13_tls_handshake(void)
{
  static const int acts[] = {E_TAKE_1, E_TAKE, E_FIN, E_RST, H_SHUTDOWN, H_DESTROY, E_SEND, H_OK};
  base_tls(mc_choose(2, "TLS 1.3, 1.2"));
  started();
  uniform = 1;
  capn = mc_choose(2, "send space") ? 300 : 1 << 20;
  conn_new(capn);
  run(acts, N(acts), c13_re, 3, 2, c13_inj, 2);
  released();
  finish();
  LEAK();
}
static void c14_tls(void)
{
  int b, i, a, n = mc_param(), pre;
  conn_t *k;

  base_tls(mc_choose(2, "TLS 1.3, 1.2"));
  started();
  b = mc_choose(N(bad_text), "malformed request");
  pre = mc_choose(2, "a good request before it");
  handler_sync = mc_choose(2, "answers now, later");
  capn = mc_choose(2, "client reads slowly") ? 70 : 1 << 20;
  k = conn_new(capn);
  idle();
  if (pre)
    put(k, "GET /Aa HTTP/1.1\r\n\r\n", 20);
  put(k, bad_text[b].s, bad_text[b].n);
  for (i = 0; i < n; i++)
  {
    mc_state(hash(i));
    a = mc_choose(7, "turn, more bytes, finish, reset, read a little, read all, answer");
    switch (a)
    {
    case 0: if (!sim_ready()) mc_prune(); turn(); break;
    case 1: if (k->c->closed || k->fin || k->rst) mc_prune(); put(k, "GET /Ab HTTP/1.1\r\n\r\n", 20); break;
    case 2: act(E_FIN, k); break;
    case 3: act(E_RST, k); break;
    case 4: act(E_TAKE_1, k); break;
    case 5: act(E_TAKE, k); break;
    case 6: act(H_OK, k); break;
    }
  }
  settle();
  if (k->out)
    answer(k, P_OK);
  settle();
  finish();
  LEAK();
}
/* a server opened again in another mode serves in that mode */
static void c15_modes(void)
{
  static const int acts[] = {E_CONNECT, E_SEND, E_HANDIN, H_OK, E_TAKE};
  int i, m, n = mc_thorough() ? 2 + mc_choose(2, "times opened again") : 2;

  base_tls(0);
  handler_sync = 0;
  uniform = 1;
  for (i = 0; i < n; i++)
  {
    tls = mc_choose(2, "opened plain, encrypted");
    up_server();
    for (m = 0; m < mc_param(); m++)
    {
      int a = mc_choose(N(acts) + 1, "action");
      if (a == N(acts))
        break;
      if (a && a != 2 && !nk)
        mc_prune();
      act(acts[a], nk ? &K[nk - 1] : NULL);
      idle();
    }
    mc_state(hash(i));
    settle();
    conn_new(capn);
    idle();
    act(E_SEND, &K[nk - 1]);
    settle();
    MC_CHECK(K[nk - 1].nver == 1, "the client is not served");
    if (mc_choose(2, "a connection handed in"))
    {
      conn_handin(capn);
      idle();
      act(E_SEND, &K[nk - 1]);
      settle();
      MC_CHECK(K[nk - 1].nver == 1, "the client handed in is not served");
    }
    do_shutdown();
  }
  finish();
  LEAK();
}
/* clients that do not speak the protocol at all, next to one that does */
static void c15_hostile(void)
{
  static const uint8_t hello[] = {0x16, 3, 1, 0, 5, 1, 0, 0, 1, 3};
  int kind, n, at, leaves, i, when, cut;
  conn_t *k, *h;

  base_tls(mc_choose(2, "TLS 1.3, 1.2"));
  handler_sync = 0;
  uniform = 1;
  started();
  kind = mc_choose(5, "speaks plain HTTP, sends zeros, breaks off in its first message, corrupts its first message, corrupts a later message");
  when = mc_choose(3, "hostile first, in between, last");
  leaves = mc_choose(3, "stays, finishes, resets");
  k = NULL;
  if (when)
    k = conn_new(mc_choose(2, "send space") ? 400 : 1 << 20);
  if (when == 2)
  {
    idle();
    act(E_SEND, k);
    idle();
  }
  hold_net = 1;
  h = conn_new(1 << 20);
  at = 0;
  switch (kind)
  {
  case 0: sim_peer_send(h->c, "GET /Bb HTTP/1.1\r\n\r\n", 20); break;
  case 1: for (i = 0; i < 50; i++) sim_peer_send(h->c, "\0\0\0\0\0\0\0", 7); break;
  case 2: cut = 1 + mc_choose(tp_queued(h->p) - 1, "breaks off after"); tp_net(h->p, h->c, cut); break;
  case 3: n = tp_queued(h->p); at = mc_choose(n, "corrupted byte"); h->p->q[h->p->qoff + at] ^= 0x41; tp_net(h->p, h->c, n); break;
  case 4:
    tp_net(h->p, h->c, -1);
    for (i = 0; i < 6 && sim_ready(); i++)
      turn();
    take(h, -1);
    n = tp_queued(h->p);
    at = mc_choose(n, "corrupted byte");
    h->p->q[h->p->qoff + at] ^= 0x41;
    tp_net(h->p, h->c, n);
    break;
  }
  (void) hello;
  h->raw = 1;
  hold_net = 0;
  mc_step();
  if (k)
    net(k, -1);
  if (!when)
    k = conn_new(mc_choose(2, "send space") ? 400 : 1 << 20);
  idle();
  if (leaves == 1)
    act(E_FIN, h);
  else if (leaves == 2)
    act(E_RST, h);
  idle();
  mc_state(hash(0));
  act(E_SEND, k);
  settle();
  MC_CHECK(k->nver == 1 + (when == 2), "the client is not served");
  MC_CHECK(h->handled == 0, "the hostile client reaches the handler");
  finish();
  LEAK();
}
static void c15_tls_isolated(void)
{
  static const int acts[] = {E_SEND, H_OK, E_TAKE, E_FIN, E_RST, E_CONNECT};
  base_tls(0);
  started();
  uniform = 1;
  capn = 150;
  conn_new(capn);
  conn_new(capn);
  idle();
  run(acts, N(acts), c15_re, 3, 2, NULL, 0);
  finish();
  LEAK();
}

const mc_scenario mc_scenarios[] = {
  {"C12", "cuts", c12_cuts, 0, 0, 2, 3, 4, 0},
  {"C12", "bytes", c12_bytes, 0, 0, 4, 8, 3, 0},
  {"C12", "interleave", c12_interleave, 0, 0, 5, 7, 4, 0},
  {"C12", "others", c12_others, 0, 0, 4, 6, 5, 0},
  {"C12", "slow-reader", c12_slow, 0, 0, 5, 7, 4, 0},
  {"C12", "racing", c12_racing, 1, 2, 4, 6, 4, 0},
  {"C12", "partial-writes", c12_partial, 1, 2, 4, 6, 4, 0},
  {"C12", "lengths", c12_lengths, 0, 0, 1, 1, 3, 0},
  {"C12", "pipeline", c12_pipeline, 0, 0, 1, 1, 3, 0},
  {"C12", "large", c12_large, 0, 0, 1, 1, 4, 0},
  {"C12", "tls-cuts", c12_tls_cuts, 0, 0, 1, 2, 5, 0},
  {"C12", "tls-interleave", c12_tls_interleave, 0, 0, 4, 5, 4, 0},
  {"C12", "tls-slow-reader", c12_tls_slow, 0, 0, 4, 6, 4, 0},
  {"C12", "tls-large", c12_tls_large, 0, 0, 1, 1, 4, 0},
  {"C13", "one", c13_one, 0, 0, 5, 6, 4, 0},
  {"C13", "two", c13_two, 0, 0, 5, 6, 4, 0},
  {"C13", "holds", c13_holds, 0, 0, 0, 0, 3, 0},
  {"C13", "racing", c13_racing, 1, 2, 4, 5, 4, 0},
  {"C13", "reopen", c13_reopen, 0, 0, 5, 6, 4, 0},
  {"C13", "tls", c13_tls, 0, 0, 4, 5, 4, 0},
  {"C13", "tls-handshake", c13_tls_handshake, 1, 1, 4, 5, 4, 0},
  {"C14", "cuts", c14_cuts, 0, 0, 1, 1, 6, 0},
  {"C14", "owner", c14_owner, 0, 0, 5, 6, 4, 0},
  {"C14", "after", c14_after, 0, 0, 5, 6, 4, 0},
  {"C14", "tls", c14_tls, 0, 0, 3, 4, 4, 0},
  {"C15", "many", c15_many, 0, 0, 1, 1, 3, 0},
  {"C15", "limit", c15_limit, 0, 0, 1, 1, 3, 0},
  {"C15", "isolated", c15_isolated, 0, 0, 4, 6, 4, 0},
  {"C15", "arrivals", c15_arrivals, 0, 0, 5, 7, 4, 0},
  {"C15", "racing", c15_racing, 1, 2, 5, 6, 4, 0},
  {"C15", "modes", c15_modes, 0, 0, 2, 3, 4, 0},
  {"C15", "hostile", c15_hostile, 0, 0, 1, 1, 4, 0},
  {"C15", "tls-isolated", c15_tls_isolated, 0, 0, 3, 5, 4, 0},
  {"C16", "contents", c16_contents, 0, 0, 1, 1, 3, 0},
  {"C16", "dates", c16_dates, 0, 0, 3, 4, 3, 0},
  {"C16", "calendar", c16_calendar, 0, 0, 1, 1, 2, 0},
  {NULL}
};
