/* The other end of an encrypted connection: OpenSSL over memory buffers, connected to a simulated socket.
 * Randomness is replaced by a deterministic generator so that executions can be repeated. */
#ifndef TLSPEER_H
#define TLSPEER_H
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/evp.h>
#include <openssl/x509.h>

typedef struct
{
  SSL     *ssl;
  BIO     *in, *out;
  size_t   fed;            /* of what the peer has taken from the network, given to the cipher */
  uint8_t *plain;          /* decrypted */
  size_t   plen, pcap;
  uint8_t *q;              /* encrypted, not yet given to the network */
  size_t   qlen, qcap, qoff;
  size_t   net;            /* given to the network in total */
  int      failed, eof;
} tlspeer;

static uint64_t tp_rng_state;
static int tp_rand_bytes(unsigned char *b, int n)
{
  int i;
  for (i = 0; i < n; i++)
  {
    uint64_t z = tp_rng_state += 0x9e3779b97f4a7c15ull;
    z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ z >> 27) * 0x94d049bb133111ebull;
    b[i] = z >> 56 ^ z;
  }
  return 1;
}
static int tp_rand_status(void) { return 1; }
static void tp_seed(uint64_t s) { tp_rng_state = s; }

static SSL_CTX *tp_server_ctx, *tp_client_ctx;         /* for the library */
static SSL_CTX *tp_peer_server_ctx, *tp_peer_client_ctx;

static void tp_pull(tlspeer *p);
static tlspeer *tp_new(int server, int version);
static void tp_free(tlspeer *p);

static SSL_CTX *tp_make(int server, X509 *x, EVP_PKEY *k)
{
  SSL_CTX *c = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
  if (server)
  {
    SSL_CTX_use_certificate(c, x);
    SSL_CTX_use_PrivateKey(c, k);
    SSL_CTX_set_num_tickets(c, 1);
  }
  SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
  return c;
}

static void tp_init(void)
{
  static const RAND_METHOD rm = {NULL, tp_rand_bytes, NULL, NULL, tp_rand_bytes, tp_rand_status};
  EVP_PKEY *k;
  X509 *x;
  X509_NAME *n;
  int v, i;

  if (tp_server_ctx)
    return;
  tp_seed(1);
  RAND_set_rand_method(&rm);
  k = EVP_EC_gen("P-256");
  x = X509_new();
  X509_set_version(x, 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
  X509_gmtime_adj(X509_getm_notBefore(x), -86400);
  X509_gmtime_adj(X509_getm_notAfter(x), 86400 * 365);
  X509_set_pubkey(x, k);
  n = X509_get_subject_name(x);
  X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (unsigned char *) "test", -1, -1, 0);
  X509_set_issuer_name(x, n);
  X509_sign(x, k, EVP_sha256());
  tp_server_ctx = tp_make(1, x, k);
  tp_client_ctx = tp_make(0, x, k);
  tp_peer_server_ctx = tp_make(1, x, k);
  tp_peer_client_ctx = tp_make(0, x, k);
  X509_free(x);
  EVP_PKEY_free(k);
  /* let the crypto library build its tables: handshakes of both versions, one failing */
  for (v = 0; v < 3; v++)
  {
    tlspeer *a = tp_new(0, v % 2), *b = tp_new(1, v % 2);
    SSL *l;
    for (i = 0; i < 8; i++)
    {
      if (SSL_do_handshake(a->ssl) == 1 && i > 4)
        SSL_write(a->ssl, "x", 1);
      tp_pull(a);
      if (v == 2 && a->qlen > 30)
        a->q[20] ^= 0x55;
      BIO_write(b->in, a->q, a->qlen);
      a->qlen = 0;
      SSL_do_handshake(b->ssl);
      { char t[64]; SSL_read(b->ssl, t, sizeof t); }
      tp_pull(b);
      BIO_write(a->in, b->q, b->qlen);
      b->qlen = 0;
      { char t[64]; SSL_read(a->ssl, t, sizeof t); }
    }
    ERR_clear_error();
    tp_free(a);
    tp_free(b);
    l = SSL_new(tp_server_ctx);
    SSL_set_fd(l, 0);
    SSL_free(l);
    l = SSL_new(tp_client_ctx);
    SSL_free(l);
  }
  ERR_clear_error();
}

static tlspeer *tp_new(int server, int version)
{
  tlspeer *p = calloc(1, sizeof *p);
  p->ssl = SSL_new(server ? tp_peer_server_ctx : tp_peer_client_ctx);
  if (version)
    SSL_set_max_proto_version(p->ssl, TLS1_2_VERSION);
  p->in = BIO_new(BIO_s_mem());
  p->out = BIO_new(BIO_s_mem());
  BIO_set_mem_eof_return(p->in, -1);
  SSL_set_bio(p->ssl, p->in, p->out);
  if (server)
    SSL_set_accept_state(p->ssl);
  else
    SSL_set_connect_state(p->ssl);
  return p;
}

static void tp_free(tlspeer *p)
{
  SSL_free(p->ssl);
  free(p->plain);
  free(p->q);
  free(p);
}

/* what the cipher produced goes to the queue */
static void tp_pull(tlspeer *p)
{
  char *d;
  long n = BIO_get_mem_data(p->out, &d);
  if (n <= 0)
    return;
  if (p->qoff == p->qlen)
    p->qoff = p->qlen = 0;
  if (p->qlen + n > p->qcap)
  {
    p->qcap = (p->qlen + n) * 2;
    p->q = realloc(p->q, p->qcap);
  }
  memcpy(p->q + p->qlen, d, n);
  p->qlen += n;
  (void) BIO_reset(p->out);
}

/* the peer processes what it has taken from the network */
static void tp_feed(tlspeer *p, sim_conn *c)
{
  int n, e;
  char t[16384];

  if (c->gotlen > p->fed)
  {
    BIO_write(p->in, c->got + p->fed, c->gotlen - p->fed);
    p->fed = c->gotlen;
  }
  ERR_set_mark(); /* what the library has left in the error queue stays there */
  while (!p->failed && !p->eof)
  {
    if (!SSL_is_init_finished(p->ssl))
      n = SSL_do_handshake(p->ssl);
    else
    {
      n = SSL_read(p->ssl, t, sizeof t);
      if (n > 0)
      {
        if (p->plen + n > p->pcap)
        {
          p->pcap = (p->plen + n) * 2;
          p->plain = realloc(p->plain, p->pcap);
        }
        memcpy(p->plain + p->plen, t, n);
        p->plen += n;
      }
    }
    if (n > 0)
      continue;
    e = SSL_want(p->ssl);
    if (SSL_get_shutdown(p->ssl) & SSL_RECEIVED_SHUTDOWN)
      p->eof = 1;
    else if (e == SSL_NOTHING)
    {
      char b[256];
      ERR_error_string_n(ERR_peek_last_error(), b, sizeof b);
      mc_note("      peer: %s", b);
      p->failed = 1;
    }
    else
      break;
  }
  ERR_pop_to_mark();
  tp_pull(p);
}

/* plaintext goes into the cipher */
static void tp_write(tlspeer *p, const void *d, size_t n)
{
  size_t at = 0;
  int k;
  ERR_set_mark();
  while (at < n)
  {
    k = SSL_write(p->ssl, (const char *) d + at, n - at);
    if (k <= 0)
      mc_error("peer cannot write");
    at += k;
  }
  ERR_pop_to_mark();
  tp_pull(p);
}

/* up to n encrypted bytes go onto the network */
static size_t tp_net(tlspeer *p, sim_conn *c, size_t n)
{
  size_t left = p->qlen - p->qoff;
  if (n > left)
    n = left;
  if (n)
  {
    sim_peer_send(c, p->q + p->qoff, n);
    p->qoff += n;
    p->net += n;
  }
  return n;
}
static size_t tp_queued(tlspeer *p) { return p->qlen - p->qoff; }
#endif
