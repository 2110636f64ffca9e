/* C25, C26: strings. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>
#include "reactor.h"
#include "mc.h"
#include "sim.h"

static long mem0;
static void begin(void) { sim_reset(); mem0 = mc_mem_live(); }
static void end(void) { MC_CHECK(mc_mem_live() == mem0, "%ld heap blocks leaked", mc_mem_live() - mem0); }

typedef struct { unsigned char b[256]; int n; } S;

static const unsigned char alpha[] = {'a', 'b', 0};

static S nth(int len, int i, int base)
{
  S s = {.n = len};
  int k;
  for (k = 0; k < len; k++, i /= base)
    s.b[k] = alpha[i % base];
  return s;
}
static int ipow(int b, int e) { int r = 1; while (e--) r *= b; return r; }

/* an operand in its own exactly sized block */
static data opnd(S *s) { char *p = malloc(s->n); memcpy(p, s->b, s->n); return data_construct(p, s->n); }
static void odone(data d) { free((void *) data_base(d)); }

static string make(S *s, int how)
{
  data d = opnd(s);
  string r;

  switch (how)
  {
  default:
  case 0:
    r = string_append_data(string_null(), d);
    break;
  case 1: /* with spare capacity */
    r = string_append_data(string_allocate(string_null(), s->n + 3), d);
    break;
  }
  odone(d);
  return r;
}

static void check(string s, S *r, const char *op)
{
  data d = string_data(s);
  int i;

  MC_CHECK(string_size(s) == (size_t) r->n, "%s: size is %zu, should be %d", op, string_size(s), r->n);
  MC_CHECK(string_capacity(s) >= string_size(s), "%s: capacity %zu below size %zu", op, string_capacity(s), string_size(s));
  MC_CHECK(string_empty(s) == (r->n == 0), "%s: empty", op);
  MC_CHECK(data_size(d) == (size_t) r->n && data_base(d) == s, "%s: data view", op);
  for (i = 0; i < r->n; i++)
    MC_CHECK((unsigned char) s[i] == r->b[i], "%s: byte %d is %d, should be %d", op, i, (unsigned char) s[i], r->b[i]);
  MC_CHECK(s[r->n] == 0, "%s: not zero terminated", op);
}

static void r_insert(S *s, int pos, S *d) { memmove(s->b + pos + d->n, s->b + pos, s->n - pos); memcpy(s->b + pos, d->b, d->n); s->n += d->n; }
static void r_erase(S *s, int pos, int n) { memmove(s->b + pos, s->b + pos + n, s->n - pos - n); s->n -= n; }
static int r_find(S *s, int from, S *m)
{
  int i;
  if (!m->n)
    return -1;
  for (i = from; i + m->n <= s->n; i++)
    if (memcmp(s->b + i, m->b, m->n) == 0)
      return i;
  return -1;
}

static void c25_single(void)
{
  int max = mc_param(), la = mc_choose(max + 1, "length"), how = mc_choose(2, "exact or spare capacity"), ia = mc_choose(ipow(3, la), "content"), pos, n, lb, ib, f;
  S a = nth(la, ia, 3), r, b, c;
  string s, t;
  data d, e;

  begin();
  mc_step();
  mc_state(mc_mixs(how, &a.b, a.n));
  s = make(&a, how);
  check(s, &a, "append");
  t = string_copy(s);
  check(t, &a, "copy");
  MC_CHECK(string_equal(s, t) && string_equal(t, s), "a copy is not equal");
  string_free(t);
  string_free(s);
  for (pos = 0; pos <= la; pos++)
    for (n = 0; pos + n <= la; n++)
    {
      s = make(&a, how);
      s = string_erase_data(s, data_select(string_data(s), pos, n));
      r = a;
      r_erase(&r, pos, n);
      check(s, &r, "erase");
      string_free(s);
      mc_evals(1);
    }
  for (n = 0; n <= la + 4; n++)
  {
    s = make(&a, how);
    s = string_allocate(s, n);
    MC_CHECK(string_capacity(s) >= (size_t) n, "allocate %d gives capacity %zu", n, string_capacity(s));
    check(s, &a, "allocate");
    string_free(s);
    s = make(&a, how);
    s = string_resize(s, n);
    r = a;
    r.n = n;
    if (n > la)
      memcpy(s + la, "xyzw", n - la), memcpy(r.b + la, "xyzw", n - la);
    check(s, &r, "resize");
    string_free(s);
    mc_evals(2);
  }
  for (lb = 0; lb <= 3; lb++)
    for (ib = 0; ib < ipow(3, lb); ib++)
    {
      b = nth(lb, ib, 3);
      d = opnd(&b);
      for (pos = 0; pos <= la; pos++)
      {
        s = make(&a, how);
        s = string_insert_data(s, pos, d);
        r = a;
        r_insert(&r, pos, &b);
        check(s, &r, "insert");
        string_free(s);
        s = make(&a, how);
        e = string_find_at_data(s, pos, d);
        f = r_find(&a, pos, &b);
        MC_CHECK(f < 0 ? data_empty(e) : data_base(e) == s + f && data_size(e) == (size_t) lb, "find from %d", pos);
        if (!pos)
        {
          e = string_find_data(s, d);
          MC_CHECK(f < 0 ? data_empty(e) : data_base(e) == s + f && data_size(e) == (size_t) lb, "find");
        }
        string_free(s);
        mc_evals(2);
      }
      s = make(&a, how);
      s = string_prepend_data(s, d);
      r = a;
      r_insert(&r, 0, &b);
      check(s, &r, "prepend");
      string_free(s);
      s = make(&a, how);
      s = string_append_data(s, d);
      r = a;
      r_insert(&r, a.n, &b);
      check(s, &r, "append");
      t = make(&b, !how);
      f = la == lb && memcmp(a.b, b.b, la) == 0;
      c = a;
      string_free(s);
      s = make(&c, how);
      MC_CHECK(!!string_equal(s, t) == f, "equal gives %d", !f);
      string_free(t);
      string_free(s);
      odone(d);
      mc_evals(3);
    }
  end();
}

static void c25_replace(void)
{
  int max = mc_param(), la = mc_choose(max + 1, "length"), base = la > 4 ? 2 : 3, ia = mc_choose(ipow(base, la), "content"), lb, ib, lc, ic, f, pos;
  S a = nth(la, ia, base), r, b, c;
  string s;
  data m, d;

  begin();
  mc_step();
  mc_state(mc_mixs(1, &a.b, a.n));
  for (lb = 0; lb <= 3; lb++)
    for (ib = 0; ib < ipow(base, lb); ib++)
      for (lc = 0; lc <= 3; lc++)
        for (ic = 0; ic < ipow(2, lc); ic++)
        {
          b = nth(lb, ib, base);
          c = nth(lc, ic, 2);
          m = opnd(&b);
          d = opnd(&c);
          s = make(&a, 0);
          s = string_replace_data(s, m, d);
          r = a;
          f = r_find(&r, 0, &b);
          if (f >= 0)
          {
            r_erase(&r, f, lb);
            r_insert(&r, f, &c);
          }
          check(s, &r, "replace");
          string_free(s);
          s = make(&a, 1);
          s = string_replace_all_data(s, m, d);
          r = a;
          for (pos = 0; (f = r_find(&r, pos, &b)) >= 0; pos = f + lc)
          {
            r_erase(&r, f, lb);
            r_insert(&r, f, &c);
          }
          check(s, &r, "replace all");
          string_free(s);
          odone(m);
          odone(d);
          mc_evals(2);
        }
  end();
}

static void c25_sequence(void)
{
  static const char *ops[] = {"", "a", "ab", "aba", "xyzxyzxyzxyzxyzxyz"};
  S r = {.n = 0}, o, m;
  string s = string_null(), t;
  int d, k, pos, n, f;
  data x, y;

  begin();
  for (d = 0; d < mc_param(); d++)
  {
    mc_step();
    switch (mc_choose(7, "operation"))
    {
    case 0:
      k = mc_choose(5, "operand");
      o.n = strlen(ops[k]);
      memcpy(o.b, ops[k], o.n);
      pos = mc_choose(3, "position") * r.n / 2;
      x = opnd(&o);
      s = string_insert_data(s, pos, x);
      odone(x);
      r_insert(&r, pos, &o);
      check(s, &r, "insert");
      break;
    case 1:
      pos = mc_choose(3, "position") * r.n / 2;
      n = (r.n - pos) * mc_choose(3, "part") / 2;
      s = string_erase_data(s, data_select(string_data(s), pos, n));
      r_erase(&r, pos, n);
      check(s, &r, "erase");
      break;
    case 2:
      n = mc_choose(3, "grow");
      s = string_allocate(s, r.n + n * 8);
      check(s, &r, "allocate");
      break;
    case 3:
      n = mc_choose(4, "new size");
      n = n == 0 ? 0 : n == 1 ? r.n / 2 : n == 2 ? r.n + 1 : r.n + 20;
      s = string_resize(s, n);
      if (n > r.n)
        memset(s + r.n, 'r', n - r.n), memset(r.b + r.n, 'r', n - r.n);
      r.n = n;
      check(s, &r, "resize");
      break;
    case 4:
      k = mc_choose(3, "match");
      f = mc_choose(3, "replacement");
      m.n = strlen(ops[1 + k]);
      memcpy(m.b, ops[1 + k], m.n);
      o.n = strlen(ops[f]);
      memcpy(o.b, ops[f], o.n);
      x = opnd(&m);
      y = opnd(&o);
      s = string_replace_all_data(s, x, y);
      odone(x);
      odone(y);
      for (pos = 0; (n = r_find(&r, pos, &m)) >= 0; pos = n + o.n)
      {
        r_erase(&r, n, m.n);
        r_insert(&r, n, &o);
      }
      check(s, &r, "replace all");
      break;
    case 5:
      t = string_copy(s);
      string_free(s);
      s = t;
      check(s, &r, "copy");
      break;
    case 6:
      string_free(s);
      s = string_null();
      r.n = 0;
      check(s, &r, "null");
      break;
    }
    mc_state(mc_mixs(string_capacity(s), r.b, r.n));
    if (r.n > 180)
      mc_prune();
  }
  string_free(s);
  o.n = 0;
  check(string_null(), &o, "the null string");
  end();
}

/* long strings and operands, one operation each */
typedef struct { unsigned char *b; size_t n; } L;
static unsigned char *pool(int i, size_t n)
{
  static unsigned char *p[4];
  if (n > 8 << 20)
    mc_error("size");
  if (!p[i])
    p[i] = mmap(NULL, 8 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  return p[i];
}
static void lcheck(string s, L *r, const char *op)
{
  size_t i;
  MC_CHECK(string_size(s) == r->n, "%s: size is %zu, should be %zu", op, string_size(s), r->n);
  MC_CHECK(string_capacity(s) >= r->n && data_size(string_data(s)) == r->n && data_base(string_data(s)) == s, "%s: capacity or view", op);
  if (memcmp(s, r->b, r->n))
    for (i = 0; i < r->n; i++)
      MC_CHECK((unsigned char) s[i] == r->b[i], "%s: byte %zu of %zu is %d, should be %d", op, i, r->n, (unsigned char) s[i], r->b[i]);
  MC_CHECK(s[r->n] == 0, "%s: not zero terminated", op);
}
/* sizes around every power of two up to far beyond 4 GiB: the memory is reserved, only its ends are used */
static void c25_huge(void)
{
  size_t n = ((size_t) 1 << (20 + mc_choose(mc_param() - 20 + 1, "power of two"))) + (size_t[]) {-1, 0, 1}[mc_choose(3, "minus one, exactly, plus one")];
  int pre = mc_choose(2, "contents before");
  string s = string_null();
  data e;

  begin();
  if (pre)
    s = string_append_data(s, data_string("hello"));
  s = string_allocate(s, n + 20);
  MC_CHECK(string_capacity(s) >= n + 20 && string_size(s) == (pre ? 5 : 0) && memcmp(s, "hello", pre ? 6 : 0) == 0, "after allocating %zu bytes: capacity %zu, size %zu", n + 20, string_capacity(s), string_size(s));
  mc_step();
  s = string_resize(s, n);
  MC_CHECK(string_size(s) == n && !string_empty(s) && s[n] == 0 && data_size(string_data(s)) == n && data_base(string_data(s)) == s, "size after resizing to %zu", n);
  s[n - 2] = 'x';
  s[n - 1] = 'y';
  s = string_append_data(s, data_string("abc"));
  mc_step();
  s = string_insert_data(s, n + 1, data_string("__"));
  mc_step();
  MC_CHECK(string_size(s) == n + 5 && memcmp(s + n - 2, "xya__bc", 8) == 0, "contents at the end of %zu bytes", n);
  e = string_find_at_data(s, n - 3, data_string("__"));
  MC_CHECK(data_base(e) == s + n + 1 && data_size(e) == 2, "find behind %zu bytes", n);
  s = string_erase_data(s, e);
  mc_step();
  MC_CHECK(string_size(s) == n + 3 && memcmp(s + n - 2, "xyabc", 6) == 0, "contents at the end of %zu bytes after erasing", n);
  MC_CHECK(!pre || memcmp(s, "hello", 5) == 0, "contents at the start of %zu bytes", n);
  mc_state(mc_mix(n, pre));
  string_free(s);
  end();
}
static void c25_large(void)
{
  static const size_t lens[] = {9, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 300000}, needles[] = {1, 2, 3, 7, 8, 9, 16, 17, 31, 33, 100, 255, 256, 1000, 5000};
  size_t n, m, r, i, j, at = 0, pos, every = 0;
  int kind, where, op;
  L a, b, c, w;
  string s, t;
  data x, y, e;

  n = lens[mc_choose(sizeof lens / sizeof lens[0], "length")];
  m = needles[mc_choose(sizeof needles / sizeof needles[0], "length of operand")];
  kind = mc_choose(4, "contents: counting, one byte, zeros, all byte values");
  where = mc_choose(6, "operand occurs: nowhere, at the start, in the middle, at the end, often, often and adjacent");
  op = mc_choose(4, "operand replaced by: nothing, one byte, as many, three times as many bytes");
  r = op == 0 ? 0 : op == 1 ? 1 : op == 2 ? m : 3 * m;
  if (m > n)
    mc_prune();
  begin();
  a = (L) {pool(0, n), n};
  b = (L) {pool(1, m), m};
  c = (L) {pool(2, r), r};
  for (i = 0; i < n; i++)
    a.b[i] = kind == 0 ? 'a' + i % 17 : kind == 1 ? 'q' : kind == 2 ? 0 : i & 255;
  /* the operand: does not occur by itself */
  for (i = 0; i < m; i++)
    b.b[i] = kind == 0 ? 'a' + i % 17 : kind == 1 ? 'q' : kind == 2 ? 0 : 255 - (i & 255);
  b.b[m - 1] = 0xd7;
  if (kind == 3)
    for (i = 0; i < n; i++)
      if (a.b[i] == 0xd7)
        a.b[i] = 0xd6;
  for (i = 0; i < r; i++)
    c.b[i] = "NEW"[i % 3];
  switch (where)
  {
  case 1: memcpy(a.b, b.b, m); break;
  case 2: memcpy(a.b + (n - m) / 2, b.b, m); break;
  case 3: memcpy(a.b + n - m, b.b, m); break;
  case 4: every = m + 5; break;
  case 5: every = m; break;
  }
  if (every)
    for (i = 0; i + m <= n; i += every)
      memcpy(a.b + i, b.b, m);
  x = data_construct(malloc(m), m);
  memcpy((void *) data_base(x), b.b, m);
  y = data_construct(malloc(r + !r), r);
  memcpy((void *) data_base(y), c.b, r);
  s = string_append_data(string_null(), data_construct(a.b, n));
  lcheck(s, &a, "append");
  /* find, from the start and from every interesting place */
  for (i = 0; i < 7; i++)
  {
    pos = (size_t[]) {0, 1, m < n ? m : n, n / 2, n - m, n - 1, n}[i];
    for (at = pos; at + m <= n && (a.b[at + m - 1] != 0xd7 || memcmp(a.b + at, b.b, m)); at++);
    e = string_find_at_data(s, pos, x);
    MC_CHECK(at + m <= n ? data_base(e) == s + at && data_size(e) == m : data_empty(e), "find from %zu", pos);
    if (!pos)
    {
      e = string_find_data(s, x);
      MC_CHECK(at + m <= n ? data_base(e) == s + at && data_size(e) == m : data_empty(e), "find");
    }
  }
  /* equality: a copy, and with one byte different */
  t = string_copy(s);
  lcheck(t, &a, "copy");
  MC_CHECK(string_equal(s, t), "a copy is not equal");
  for (i = 0; i < 5; i++)
  {
    pos = (size_t[]) {0, 1, n / 2, n - 2, n - 1}[i];
    t[pos] ^= 0x80;
    MC_CHECK(!string_equal(s, t) && !string_equal(t, s), "strings differing at byte %zu of %zu are equal", pos, n);
    t[pos] ^= 0x80;
  }
  string_free(t);
  w = (L) {pool(3, n * 3 + 3 * r + m), n};
  /* replace first */
  t = string_replace_data(string_copy(s), x, y);
  for (at = 0; at + m <= n && (a.b[at + m - 1] != 0xd7 || memcmp(a.b + at, b.b, m)); at++);
  if (at + m <= n)
  {
    memcpy(w.b, a.b, at);
    memcpy(w.b + at, c.b, r);
    memcpy(w.b + at + r, a.b + at + m, n - at - m);
    w.n = n - m + r;
  }
  else
    memcpy(w.b, a.b, n);
  lcheck(t, &w, "replace");
  string_free(t);
  /* replace all */
  if (!every || n / every <= 3000)
  {
    t = string_replace_all_data(string_copy(s), x, y);
    for (i = j = 0; i < n; )
      if (i + m <= n && a.b[i + m - 1] == 0xd7 && !memcmp(a.b + i, b.b, m))
      {
        memcpy(w.b + j, c.b, r);
        j += r;
        i += m;
      }
      else
        w.b[j++] = a.b[i++];
    w.n = j;
    lcheck(t, &w, "replace all");
    string_free(t);
  }
  /* insertion, erasure, resizing */
  for (i = 0; i < 4; i++)
  {
    pos = (size_t[]) {0, 1, n / 2, n}[i];
    t = string_insert_data(string_copy(s), pos, x);
    memcpy(w.b, a.b, pos);
    memcpy(w.b + pos, b.b, m);
    memcpy(w.b + pos + m, a.b + pos, n - pos);
    w.n = n + m;
    lcheck(t, &w, "insert");
    t = string_erase_data(t, data_select(string_data(t), pos, m));
    lcheck(t, &a, "erase");
    t = i & 1 ? string_append_data(t, y) : string_prepend_data(t, y);
    memcpy(w.b + (i & 1 ? 0 : r), a.b, n);
    memcpy(w.b + (i & 1 ? n : 0), c.b, r);
    w.n = n + r;
    lcheck(t, &w, "append or prepend");
    j = (size_t[]) {0, n / 2, n - 1, n}[i];
    t = string_resize(t, j);
    w.n = j;
    lcheck(t, &w, "resize");
    t = string_allocate(t, n + 70000);
    MC_CHECK(string_capacity(t) >= n + 70000, "capacity");
    lcheck(t, &w, "allocate");
    t = string_resize(t, n + 70000);
    memset(t + j, 'z', n + 70000 - j);
    MC_CHECK(t[n + 70000] == 0 && memcmp(t, w.b, j) == 0, "resize");
    string_free(t);
  }
  string_free(s);
  odone(x);
  odone(y);
  mc_steps(20);
  mc_state(mc_mix(n, m * 1000 + kind * 100 + where * 10 + op));
  end();
}

/* ------------------------------------------------------------------ C26 */

static int pieces_left;
static size_t split_all(int fd, int wr, size_t n)
{
  (void) fd;
  (void) wr;
  mc_step();
  return n <= 6 ? (size_t) 1 + mc_choose(n, "bytes transferred") : (mc_dev(5, "short transfer") * (n - 1) / 4 + n - 1) % n + 1;
}

/* long transfers: every call cut in the same way */
static int same_how;
static size_t split_same(int fd, int wr, size_t n)
{
  (void) fd;
  (void) wr;
  mc_step();
  return same_how == 0 ? n : same_how == 1 ? n - n / 2 : same_how == 2 ? n - (n > 1) : n < 1000 ? n : 1000;
}
static void *splitter(int n)
{
  if (n <= 20000)
    return split_all;
  same_how = mc_choose(4, "calls transfer: everything, half, all but one byte, 1000 bytes");
  return split_same;
}

static const int sizes[] = {0, 1, 2, 3, 4, 5, 6, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 200000, 1048577};
static int fill(unsigned char *p, int n)
{
  int i;
  for (i = 0; i < n; i++)
    p[i] = i * 7 + i / 256 + 1;
  return n;
}

static void c26_write(void)
{
  static unsigned char buf[1048578];
  int n = fill(buf, sizes[mc_choose(20, "size")]);
  sim_conn *c;
  string s;

  begin();
  s = string_append_data(string_null(), data_construct((char *) buf, n));
  c = sim_conn_new(mc_choose(2, "socket or pipe") ? SIM_PIPE_W : SIM_SOCK, 2 << 20);
  sim_split = splitter(n);
  sim_call_limit(5000);
  string_write(s, c->fd);
  sim_split = NULL;
  sim_peer_take(c, 2 << 20);
  MC_CHECK(c->gotlen == (size_t) n && memcmp(c->got, buf, n) == 0, "%zu bytes written of %d, or wrong ones", c->gotlen, n);
  string_free(s);
  mc_state(mc_mix(n, c->writes));
  mc_outcome(c->writes);
  close(c->fd);
  MC_CHECK(sim_open_fds() == 0, "descriptors leaked");
  end();
}

static void c26_read(void)
{
  static unsigned char buf[1048578];
  int n = fill(buf, sizes[mc_choose(20, "size")]);
  sim_conn *c;
  string s;

  begin();
  c = sim_conn_new(mc_choose(2, "socket or pipe") ? SIM_PIPE_R : SIM_SOCK, 1 << 20);
  sim_peer_send(c, buf, n);
  sim_peer_fin(c);
  if (n <= 6 || mc_choose(2, "short reads"))
    sim_split = n <= 6 ? NULL : splitter(n);
  sim_call_limit(5000);
  s = string_read(c->fd);
  sim_split = NULL;
  MC_CHECK(string_size(s) == (size_t) n && memcmp(s, buf, n) == 0, "%zu bytes read of %d, or wrong ones", string_size(s), n);
  MC_CHECK(s[n] == 0, "not terminated");
  MC_CHECK(sim_is_open(c->fd), "reading closed the descriptor");
  string_free(s);
  mc_state(mc_mix(n, c->reads));
  mc_step();
  close(c->fd);
  end();
}

/* every way the peer's chunks can be cut: one byte at a time up to all at once, via read limits */
static size_t chunk_plan[8];
static int chunk_i, chunk_n;
static size_t split_plan(int fd, int wr, size_t n)
{
  (void) fd;
  (void) wr;
  if (chunk_i < chunk_n && chunk_plan[chunk_i] < n)
    n = chunk_plan[chunk_i];
  chunk_i++;
  return n;
}
static void c26_chunks(void)
{
  unsigned char buf[8];
  int n = fill(buf, 1 + mc_choose(7, "size")), left = n;
  sim_conn *c;
  string s;

  begin();
  for (chunk_n = chunk_i = 0; left; left -= chunk_plan[chunk_n++])
    chunk_plan[chunk_n] = 1 + mc_choose(left, "chunk");
  c = sim_conn_new(SIM_PIPE_R, 0);
  sim_peer_send(c, buf, n);
  sim_peer_fin(c);
  sim_split = split_plan;
  s = string_read(c->fd);
  sim_split = NULL;
  MC_CHECK(string_size(s) == (size_t) n && memcmp(s, buf, n) == 0, "%zu bytes read of %d, or wrong ones", string_size(s), n);
  string_free(s);
  mc_steps(chunk_n);
  mc_state(mc_mixs(n, chunk_plan, chunk_n * sizeof *chunk_plan));
  close(c->fd);
  end();
}

static int lowest_fd(void) { int fd = open("/dev/null", O_RDONLY); close(fd); return fd; }

static void c26_files(void)
{
  static unsigned char buf[1048578], old[1048578], got[1048578];
  static const int fsz[] = {0, 1, 2, 5, 100, 4096, 4097, 9000, 65536, 65537, 500000};
  char path[512];
  int o = fsz[mc_choose(11, "old file size")], n = fsz[mc_choose(11, "new size")], fd, i, fd0, r;
  string s;

  begin();
  fill(buf, n);
  for (i = 0; i < o; i++)
    old[i] = ~(i * 3);
  snprintf(path, sizeof path, "%s/f%d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : ".", getpid());
  fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd == -1 || write(fd, old, o) != o)
    mc_error("scratch file");
  close(fd);
  fd0 = lowest_fd();
  sim_split = mc_choose(2, "short transfers") ? splitter(n) : NULL;
  s = string_append_data(string_null(), data_construct((char *) buf, n));
  r = string_save(s, path);
  sim_split = NULL;
  MC_CHECK(r == 0, "saving to an existing file fails");
  fd = open(path, O_RDONLY);
  i = read(fd, got, sizeof got);
  close(fd);
  MC_CHECK(i == n && memcmp(got, buf, n) == 0, "the file holds %d bytes after saving %d over %d", i, n, o);
  string_free(s);
  s = string_load(path);
  MC_CHECK(string_size(s) == (size_t) n && memcmp(s, buf, n) == 0, "loading gives %zu bytes of %d", string_size(s), n);
  string_free(s);
  unlink(path);
  s = string_load(path);
  MC_CHECK(string_size(s) == 0, "loading a missing file gives something");
  MC_CHECK(string_save(s, "/nonexistent-directory/file") == -1, "saving to an impossible path succeeds");
  string_free(s);
  MC_CHECK(lowest_fd() == fd0, "a descriptor leaked");
  mc_step();
  mc_state(o * 100000 + n);
  end();
}

/* files that are no regular files: a pipe by its name, a file whose size is unknown before it is read, symbolic links */
static void c26_special(void)
{
  static unsigned char buf[65537], got[65537];
  static const int sizes[] = {0, 1, 2, 100, 4095, 4096, 4097, 8192, 8193, 20000, 65535, 65536};
  int kind = mc_choose(5, "kind"), n = sizes[mc_choose(12, "size")], p[2], fd, fd0, i;
  char path[512], link[600];
  string s;

  begin();
  fill(buf, n);
  fd0 = lowest_fd();
  snprintf(path, sizeof path, "%s/f%d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : ".", getpid());
  snprintf(link, sizeof link, "%s.link", path);
  switch (kind)
  {
  case 0: /* load from a pipe */
    if (pipe(p) || write(p[1], buf, n) != n) mc_error("pipe");
    close(p[1]);
    snprintf(path, sizeof path, "/proc/self/fd/%d", p[0]);
    s = string_load(path);
    close(p[0]);
    MC_CHECK(string_size(s) == (size_t) n && memcmp(s, buf, n) == 0, "loading a pipe by name gives %zu bytes of %d", string_size(s), n);
    string_free(s);
    break;
  case 1: /* save to a pipe */
    if (pipe(p)) mc_error("pipe");
    snprintf(path, sizeof path, "/proc/self/fd/%d", p[1]);
    s = string_append_data(string_null(), data_construct((char *) buf, n));
    MC_CHECK(string_save(s, path) == 0, "saving to a pipe by name fails");
    string_free(s);
    close(p[1]);
    for (i = 0; (fd = read(p[0], got + i, sizeof got - i)) > 0; i += fd);
    close(p[0]);
    MC_CHECK(i == n && memcmp(got, buf, n) == 0, "the pipe holds %d bytes after saving %d", i, n);
    break;
  case 2: /* a file of the kernel: its size is given as zero */
    if (n) mc_prune();
    fd = open("/proc/version", O_RDONLY);
    if (fd == -1) mc_prune();
    n = read(fd, got, sizeof got);
    close(fd);
    s = string_load("/proc/version");
    MC_CHECK(string_size(s) == (size_t) n && memcmp(s, got, n) == 0, "loading /proc/version gives %zu bytes of %d", string_size(s), n);
    string_free(s);
    break;
  default: /* through a symbolic link */
    fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd == -1 || (kind == 3 && write(fd, buf, n) != n)) mc_error("scratch file");
    unlink(link);
    if (symlink(path, link)) mc_error("link");
    if (kind == 4)
    {
      s = string_append_data(string_null(), data_construct((char *) buf, n));
      MC_CHECK(string_save(s, link) == 0, "saving through a link fails");
      string_free(s);
      i = read(fd, got, sizeof got);
      MC_CHECK(i == n && memcmp(got, buf, n) == 0, "the file holds %d bytes after saving %d through a link", i, n);
    }
    close(fd);
    s = string_load(link);
    MC_CHECK(string_size(s) == (size_t) n && memcmp(s, buf, n) == 0, "loading through a link gives %zu bytes of %d", string_size(s), n);
    string_free(s);
    unlink(link);
    unlink(path);
  }
  MC_CHECK(lowest_fd() == fd0, "a descriptor leaked");
  mc_step();
  mc_state(kind * 100000 + n);
  end();
}

const mc_scenario mc_scenarios[] = {
  {"C25", "operations", c25_single, 0, 0, 4, 5, 3, 0},
  {"C25", "replace", c25_replace, 0, 0, 6, 8, 2, 0},
  {"C25", "sequences", c25_sequence, 0, 0, 4, 5, 4, 0},
  {"C25", "large", c25_large, 0, 0, 0, 0, 3, 0},
  {"C25", "huge", c25_huge, 0, 0, 33, 33, 2, 0},
  {"C26", "write", c26_write, 2, 3, 0, 0, 3, 0},
  {"C26", "read", c26_read, 2, 3, 0, 0, 3, 0},
  {"C26", "chunks", c26_chunks, 0, 0, 0, 0, 3, 0},
  {"C26", "files", c26_files, 1, 2, 0, 0, 2, 0},
  {"C26", "special", c26_special, 0, 0, 0, 0, 2, 0},
  {0}
};
