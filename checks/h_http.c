/* C17, C18: HTTP head parsing.  C19: message writing.  C20: field look-up.  C36: chunked decoding. */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <sanitizer/asan_interface.h>
#include "reactor.h"
#include "picohttpparser/picohttpparser.h"
#include "mc.h"
#include "sim.h"
#include "refhttp.h"

typedef unsigned char u8;

/* ---- input placement: everything outside [p, p + n) is poisoned ---- */
static u8 arena[1 << 22] __attribute__((aligned(64)));
static u8 *placed;
static int placed_n;

static u8 *put(const u8 *s, int n, int align)
{
  static int ready;
  if (!ready)
  {
    memset(arena, ' ', sizeof arena);
    __asan_poison_memory_region(arena, sizeof arena);
    ready = 1;
  }
  if (placed)
  {
    __asan_unpoison_memory_region(arena + 256 - 64, placed_n + 192);
    memset(placed, ' ', placed_n);
    __asan_poison_memory_region(arena + 256 - 64, placed_n + 192);
  }
  placed = arena + 256 + align;
  placed_n = n;
  __asan_unpoison_memory_region(placed, n);
  memcpy(placed, s, n);
  return placed;
}

static const char *show(const u8 *s, int n)
{
  static char b[4][1200];
  static int k;
  char *p = b[k++ & 3], *q = p;
  int i;
  for (i = 0; i < n && q - p < 1100; i++)
    if (s[i] >= 0x20 && s[i] < 0x7f && s[i] != '\\') *q++ = s[i];
    else q += sprintf(q, s[i] == '\r' ? "\\r" : s[i] == '\n' ? "\\n" : s[i] == '\t' ? "\\t" : "\\x%02x", s[i]);
  *q = 0;
  return p;
}

/* ---- what the implementation says ---- */
enum { REQUEST, RESPONSE, PHR_REQUEST, PHR_RESPONSE, PHR_HEADERS };
static const char *kind_name[] = {"request", "response", "request head", "response head", "header block"};
typedef struct
{
  long       r;
  data       method, target, reason;
  int        status, minor, has_minor;
  size_t     n;
  http_field f[20];
} got_msg;

static long parse(int kind, const u8 *p, int n, size_t max, got_msg *g)
{
  stream st;
  g->n = max;
  g->has_minor = 0;
  g->method = g->target = g->reason = data_null();
  switch (kind)
  {
  case REQUEST:
    g->r = http_read_request_data(data_construct(p, n), &g->method, &g->target, g->f, &g->n);
    break;
  case RESPONSE:
    memset(&st, 0, sizeof st);
    st.input.data = (void *) p;
    st.input.size = n;
    st.input.capacity = n;
    g->r = http_read_response(&st, &g->status, &g->reason, g->f, &g->n);
    break;
  case PHR_REQUEST:
    g->r = phr_parse_request((const char *) p, n, (const char **) &g->method.base, &g->method.size, (const char **) &g->target.base, &g->target.size,
                             &g->minor, (struct phr_header *) g->f, &g->n, 0);
    g->has_minor = 1;
    break;
  case PHR_RESPONSE:
    g->r = phr_parse_response((const char *) p, n, &g->minor, &g->status, (const char **) &g->reason.base, &g->reason.size,
                              (struct phr_header *) g->f, &g->n, 0);
    g->has_minor = 1;
    break;
  case PHR_HEADERS:
    g->r = phr_parse_headers((const char *) p, n, (struct phr_header *) g->f, &g->n, 0);
    break;
  }
  return g->r;
}

static int ref(int kind, const u8 *p, int n, int max, ref_msg *m)
{
  switch (kind)
  {
  case REQUEST: case PHR_REQUEST: return ref_request(p, n, max, m);
  case RESPONSE: case PHR_RESPONSE: return ref_response(p, n, max, m);
  default: return ref_headers(p, n, max, m);
  }
}

static void same(const u8 *p, int n, data d, ref_slice s, const char *what)
{
  MC_CHECK(data_size(d) == (size_t) s.len && (!s.len || data_base(d) == (void *) (p + s.off)), "'%s': %s is reported as %zu bytes at offset %ld instead of %d at %d",
           show(p, n), what, data_size(d), (long) ((u8 *) data_base(d) - p), s.len, s.off);
}

static uint64_t judged;

/* C17 */
static void judge_exact(int kind, const u8 *s, int n, int max, int align)
{
  u8 *p = put(s, n, align);
  ref_msg m;
  got_msg g;
  int want = ref(kind, p, n, max, &m), i;

  judged++;
  parse(kind, p, n, max, &g);
  MC_CHECK(g.r == want, "%s '%s' (%d bytes, at most %d fields, alignment %d): parsed as %ld instead of %d", kind_name[kind], show(p, n), n, max, align, g.r, want);
  if (want <= 0)
    return;
  if (kind == REQUEST || kind == PHR_REQUEST)
  {
    same(p, n, g.method, m.method, "method");
    same(p, n, g.target, m.target, "target");
  }
  if (kind == RESPONSE || kind == PHR_RESPONSE)
  {
    MC_CHECK(g.status == m.status, "'%s': status %d instead of %d", show(p, n), g.status, m.status);
    same(p, n, g.reason, m.reason, "reason");
  }
  if (g.has_minor)
    MC_CHECK(g.minor == m.minor, "'%s': minor version %d instead of %d", show(p, n), g.minor, m.minor);
  MC_CHECK(g.n == (size_t) m.n, "'%s': %zu fields instead of %d", show(p, n), g.n, m.n);
  for (i = 0; i < m.n; i++)
  {
    if (m.name[i].off < 0)
      MC_CHECK(data_size(g.f[i].name) == 0, "'%s': continuation line %d has a name", show(p, n), i);
    else
      same(p, n, g.f[i].name, m.name[i], "a field name");
    same(p, n, g.f[i].value, m.value[i], "a field value");
  }
}

/* C18 */
static int from; /* prefixes shorter than this were judged already */
static void judge_prefix(int kind, const u8 *s, int n, int max, int align)
{
  got_msg g, first;
  long last = -2, k;

  judged++;
  first.r = -2;
  for (k = from; k <= n; k++)
  {
    u8 *p = put(s, k, align);
    parse(kind, p, k, max, &g);
    MC_CHECK(g.r == -2 || g.r == -1 || (g.r > 0 && g.r <= k), "'%s': verdict %ld for %ld bytes", show(s, k), g.r, k);
    if (k > from)
      MC_CHECK(last == -2 || g.r == last, "'%s': the first %ld bytes are judged %ld, one byte more gives %ld", show(s, n), k - 1, last, g.r);
    if (g.r > 0 && last != g.r && from == 0)
      MC_CHECK(g.r == k, "'%s': judged incomplete at %ld bytes, but of length %ld at %ld", show(s, n), k - 1, g.r, k);
    if (g.r > 0 && first.r > 0)
    {
      size_t i;
      int d = g.n != first.n || data_size(g.method) != data_size(first.method) || data_size(g.target) != data_size(first.target)
        || data_size(g.reason) != data_size(first.reason);
      for (i = 0; !d && i < g.n; i++)
        d = data_size(g.f[i].name) != data_size(first.f[i].name) || data_size(g.f[i].value) != data_size(first.f[i].value)
          || data_base(g.f[i].value) != data_base(first.f[i].value);
      MC_CHECK(!d, "'%s': bytes after the head change how it is understood", show(s, k));
    }
    if (g.r > 0 && first.r <= 0)
      first = g;
    last = g.r;
  }
}

/* with a previous length given, complete heads get the same verdict */
static void judge_resume(const u8 *s, int n)
{
  struct phr_header h[16];
  const char *m, *t;
  size_t ml, tl, hn, last;
  int minor, r;
  ref_msg x;
  int want = ref_request(s, n, 16, &x);

  if (want <= 0)
    return;
  for (last = 1; (int) last < want; last++)
  {
    u8 *p = put(s, want, 0);
    hn = 16;
    r = phr_parse_request((const char *) p, want, &m, &ml, &t, &tl, &minor, h, &hn, last);
    MC_CHECK(r == want && hn == (size_t) x.n, "'%s': verdict %d instead of %d when resuming after %zu bytes", show(s, n), r, want, last);
  }
  judged++;
}

/* ---- inputs ---- */
static const char alphabet[] = " \t\r\n:a/1\0\x7f\x80H(,\"";
#define ALPHA ((int) sizeof alphabet - 1)

typedef struct { int kind; const char *s; } context;
static const context contexts[] = {
  {REQUEST, ""}, {REQUEST, "\r"}, {REQUEST, "\n"}, {REQUEST, "G"}, {REQUEST, "G "}, {REQUEST, "GET /"}, {REQUEST, "GET / "}, {REQUEST, "GET  /a  HTTP"},
  {REQUEST, "GET / HTTP/1."}, {REQUEST, "GET / HTTP/1.1"}, {REQUEST, "GET / HTTP/1.1\r"}, {REQUEST, "GET / HTTP/1.1\r\n"}, {REQUEST, "GET / HTTP/1.1\r\nA"},
  {REQUEST, "GET / HTTP/1.1\r\nA:"}, {REQUEST, "GET / HTTP/1.1\nA: b"}, {REQUEST, "GET / HTTP/1.1\r\nA: b\r"}, {REQUEST, "GET / HTTP/1.1\r\nA: b\r\n"},
  {REQUEST, "GET / HTTP/1.1\r\nA: b\r\n c"}, {REQUEST, "GET / HTTP/1.1\r\nA: b\r\nC:d\n"}, {REQUEST, "GET /index.html?q HTTP/1.0\r\nHost: a.b.example.org\r\n"},
  {RESPONSE, ""}, {RESPONSE, "HTTP/1."}, {RESPONSE, "HTTP/1.1"}, {RESPONSE, "HTTP/1.1 "}, {RESPONSE, "HTTP/1.1 2"}, {RESPONSE, "HTTP/1.1 20"}, {RESPONSE, "HTTP/1.1 200"},
  {RESPONSE, "HTTP/1.1 200 "}, {RESPONSE, "HTTP/1.1 200 OK"}, {RESPONSE, "HTTP/1.1 200 OK\r"}, {RESPONSE, "HTTP/1.1 200 OK\r\n"}, {RESPONSE, "HTTP/1.1 404 Not Found\nA: b\n"},
  {PHR_HEADERS, ""}, {PHR_HEADERS, "A: b\r\n"}, {PHR_REQUEST, "GET / HTTP/1.1\r\nA:b\r\n"}, {PHR_RESPONSE, "HTTP/1.0 200"},
  {REQUEST, "GETGETGETGETGETGETGE /abcdefghijklmnopqrst HTTP/1.1\r\nLongHeaderNameOfMany: valuevaluevaluevalue"},
};
#define CONTEXTS ((int) (sizeof contexts / sizeof contexts[0]))

static void enumerate(void (*judge)(int, const u8 *, int, int, int))
{
  int c = mc_choose(CONTEXTS, "context"), a = mc_choose(ALPHA, "next byte"), b = mc_choose(ALPHA + 1, "byte after it"), len = mc_param(), i, n0, n, d;
  u8 s[256];
  int idx[16] = {0};

  n0 = strlen(contexts[c].s);
  memcpy(s, contexts[c].s, n0);
  s[n0] = alphabet[a];
  if (b == ALPHA)
  {
    judge(contexts[c].kind, s, n0, 16, 0);
    judge(contexts[c].kind, s, n0 + 1, 16, 0);
    mc_steps(2);
    return;
  }
  s[n0 + 1] = alphabet[b];
  judged = 0;
  from = 0;
  judge(contexts[c].kind, s, n0 + 2, 16, 0);
  for (d = 1; d <= len - 2; d++)
  {
    /* all strings of d further bytes; shorter prefixes have been judged with smaller d */
    n = n0 + 2 + d;
    from = n - 1;
    memset(idx, 0, sizeof idx);
    for (i = 0; i < d; i++)
      s[n0 + 2 + i] = alphabet[0];
    while (1)
    {
      judge(contexts[c].kind, s, n, 16, 0);
      for (i = d - 1; i >= 0; i--)
      {
        if (++idx[i] < ALPHA)
        {
          s[n0 + 2 + i] = alphabet[idx[i]];
          break;
        }
        idx[i] = 0;
        s[n0 + 2 + i] = alphabet[0];
      }
      if (i < 0)
        break;
    }
  }
  from = 0;
  mc_steps(judged);
  mc_evals(judged - 1);
  mc_state(mc_mix(mc_mix(c, a), b));
}
static void c17_enumerate(void) { enumerate(judge_exact); }
static void c18_enumerate(void) { enumerate(judge_prefix); }

static const context templates[] = {
  {REQUEST, "GET / HTTP/1.1\r\n\r\n"},
  {REQUEST, "\r\nPOST /a?b=c HTTP/1.0\nHost: x\nA:\n\nrest"},
  {REQUEST, "GET /hello HTTP/1.1\r\nHost: 127.0.0.1:8080\r\nAccept: text/plain \t\r\n  folded\r\nX-Y:z\r\n\r\n"},
  {RESPONSE, "HTTP/1.1 200 OK\r\n\r\n"},
  {RESPONSE, "HTTP/1.0 404 Not Found \r\nContent-Length: 10\r\nA: \r\n\tb\r\n\r\n0123456789"},
  {RESPONSE, "HTTP/1.1 500\nServer: reactor\nDate:  Thu, 01 Jan 1970 00:00:00 GMT\n\n"},
  {PHR_REQUEST, "GET / HTTP/1.1\r\nA: b\r\n\r\n"},
  {PHR_RESPONSE, "HTTP/1.1 200 OK\r\nA: b\r\n\r\n"},
  {PHR_HEADERS, "A: b\r\nCc: dd\r\n e\r\n\r\n"},
};
#define TEMPLATES ((int) (sizeof templates / sizeof templates[0]))

/* one edit: any byte at any position */
static void edit(void (*judge)(int, const u8 *, int, int, int))
{
  int t = mc_choose(TEMPLATES, "message"), n = strlen(templates[t].s), op = mc_choose(3, "replace, insert, delete"), pos = mc_choose(n + (op == 1), "position"), v, align;
  u8 s[512];

  judged = 0;
  for (v = 0; v < (op == 2 ? 1 : 256); v++)
  {
    int m = n;
    memcpy(s, templates[t].s, n);
    if (op == 0)
      s[pos] = v;
    else if (op == 1)
    {
      memmove(s + pos + 1, s + pos, n - pos);
      s[pos] = v;
      m++;
    }
    else
    {
      memmove(s + pos, s + pos + 1, n - pos - 1);
      m--;
    }
    for (align = 0; align < (mc_thorough() ? 16 : 4); align++)
      judge(templates[t].kind, s, m, 16, mc_thorough() ? align : align * 5);
    if (judge == judge_prefix && templates[t].kind == REQUEST)
      judge_resume(s, m);
  }
  mc_steps(judged);
  mc_evals(judged ? judged - 1 : 0);
  mc_state(mc_mix(mc_mix(t, op), pos));
}
static void c17_edit(void) { edit(judge_exact); }
static void c18_edit(void) { edit(judge_prefix); }

/* two edits: significant bytes at any two positions */
static void edit2(void (*judge)(int, const u8 *, int, int, int))
{
  int t = mc_choose(TEMPLATES, "message"), n = strlen(templates[t].s), p1 = mc_choose(n, "first position"), op = mc_choose(3, "replace/replace, replace/insert, insert/replace"), p2, a, b;
  u8 s[512], q[512];

  judged = 0;
  for (a = 0; a < ALPHA; a++)
  {
    int m = n;
    memcpy(s, templates[t].s, n);
    if (op == 2)
    {
      memmove(s + p1 + 1, s + p1, n - p1);
      m++;
    }
    s[p1] = alphabet[a];
    for (p2 = p1 + 1; p2 < m; p2++)
      for (b = 0; b < ALPHA; b++)
      {
        int k = m;
        memcpy(q, s, m);
        if (op == 1)
        {
          memmove(q + p2 + 1, q + p2, m - p2);
          k++;
        }
        q[p2] = alphabet[b];
        judge(templates[t].kind, q, k, 16, 0);
      }
  }
  mc_steps(judged);
  mc_evals(judged ? judged - 1 : 0);
  mc_state(mc_mix(mc_mix(t, op), p1));
}
static void c17_edit2(void) { edit2(judge_exact); }
static void c18_edit2(void) { edit2(judge_prefix); }

/* tokens of every length with any byte anywhere, at any alignment, the input ending at any point behind it */
static void runs(void (*judge)(int, const u8 *, int, int, int))
{
  static const char *before[] = {"", "GET ", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nA: ", "HTTP/1.1 200 ", "GET / HTTP/1.1\r\nA: b\r\n "};
  static const char *after[] = {" / HTTP/1.1\r\n\r\n", " HTTP/1.1\r\n\r\n", ": b\r\n\r\n", "\r\n\r\n", "\r\nA: b\r\n\r\n", "\n\n"};
  int f = mc_choose(6, "part"), len = mc_choose(mc_param() + 1, "length"), v = mc_choose(257, "byte"), kind = f == 4 ? RESPONSE : REQUEST, pos, n, align, step = mc_thorough() ? 1 : 5, i;
  u8 s[512];

  judged = 0;
  for (pos = 0; pos < (v == 256 ? 1 : len); pos++)
  {
    n = strlen(before[f]);
    memcpy(s, before[f], n);
    for (i = 0; i < len; i++)
      s[n + i] = "abcdefghijklmnopqrstuvwxyz"[i % 26];
    if (v < 256)
      s[n + pos] = v;
    n += len;
    for (align = 0; align < 16; align += step)
    {
      judge(kind, s, n, 16, align);
      memcpy(s + n, after[f], strlen(after[f]));
      judge(kind, s, n + 1, 16, align);
      judge(kind, s, n + strlen(after[f]), 16, align);
    }
  }
  if (!judged)
    return;
  mc_steps(judged);
  mc_evals(judged - 1);
  mc_state(mc_mix(mc_mix(f, len), v));
}
static void c17_runs(void) { runs(judge_exact); }
static void c18_runs(void) { runs(judge_prefix); }

/* number of fields against the space for them */
static void c17_fields(void)
{
  int kind = mc_choose(5, "kind"), lines = mc_choose(20, "lines"), max = mc_choose(18, "space"), fold = mc_choose(lines + 1, "folded line"), i, n = 0, want;
  u8 s[1024], *p;
  http_field *f;
  size_t count = max;
  data a = data_null(), b = data_null();
  int x, y;
  long r = 0;
  stream st;
  ref_msg m;

  if (kind == REQUEST || kind == PHR_REQUEST) n += sprintf((char *) s, "GET / HTTP/1.1\r\n");
  if (kind == RESPONSE || kind == PHR_RESPONSE) n += sprintf((char *) s, "HTTP/1.1 200 OK\r\n");
  for (i = 0; i < lines; i++)
    n += sprintf((char *) s + n, i == fold ? " c%d\r\n" : "N%d: v\r\n", i);
  n += sprintf((char *) s + n, "\r\n");
  want = ref(kind, s, n, max, &m);
  p = put(s, n, 0);
  f = malloc(max * sizeof *f + !max);
  memset(&st, 0, sizeof st);
  st.input.data = p;
  st.input.size = n;
  st.input.capacity = n;
  switch (kind)
  {
  case REQUEST: r = http_read_request(&st, &a, &b, f, &count); break;
  case RESPONSE: r = http_read_response(&st, &x, &a, f, &count); break;
  case PHR_REQUEST: r = phr_parse_request((char *) p, n, (const char **) &a.base, &a.size, (const char **) &b.base, &b.size, &y, (void *) f, &count, 0); break;
  case PHR_RESPONSE: r = phr_parse_response((char *) p, n, &y, &x, (const char **) &a.base, &a.size, (void *) f, &count, 0); break;
  case PHR_HEADERS: r = phr_parse_headers((char *) p, n, (void *) f, &count, 0); break;
  }
  MC_CHECK(r == want, "%s with %d lines and space for %d: verdict %ld instead of %d", kind_name[kind], lines, max, r, want);
  if (r > 0)
  {
    MC_CHECK(count == (size_t) m.n, "%zu fields reported instead of %d", count, m.n);
    for (i = 0; i < m.n; i++)
    {
      if (m.name[i].off >= 0) same(p, n, f[i].name, m.name[i], "a field name");
      else MC_CHECK(data_size(f[i].name) == 0, "a folded line has a name");
      same(p, n, f[i].value, m.value[i], "a field value");
    }
  }
  free(f);
  mc_step();
  mc_state(mc_mix(mc_mix(kind, lines), max));
  mc_outcome(r);
}

/* heads far longer than any block the implementation may work in */
static void c17_long(void)
{
  static const int sizes[] = {63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072, 1 << 20};
  static const struct { int kind; const char *before, *after; } parts[] =
  {
    {REQUEST, "", " / HTTP/1.1\r\n\r\n"}, {REQUEST, "GET ", " HTTP/1.1\r\n\r\n"}, {REQUEST, "GET / HTTP/1.1\r\n", ": b\r\n\r\n"}, {REQUEST, "GET / HTTP/1.1\r\nA: ", "\r\n\r\n"},
    {REQUEST, "GET / HTTP/1.1\r\nA: b\r\n ", "\r\nC: d\r\n\r\n"}, {RESPONSE, "HTTP/1.1 200 ", "\r\n\r\n"}, {RESPONSE, "HTTP/1.1 200 OK\r\n", ": b\r\n\r\n"}, {RESPONSE, "HTTP/1.1 200 OK\r\nA: ", "\n\n"},
    {PHR_HEADERS, "", ": b\r\n\r\n"}, {PHR_HEADERS, "A:", "\r\n\r\n"},
  };
  int f = mc_choose(10, "part"), len = sizes[mc_choose(19, "length")], bad = mc_choose(6, "byte"), where = mc_choose(4, "position"), n, i, k, kind = parts[f].kind;
  u8 *s = malloc(len + 200);

  n = strlen(parts[f].before);
  memcpy(s, parts[f].before, n);
  for (i = 0; i < len; i++)
    s[n + i] = where == 3 ? "a\x01\x7f\x80 \t"[bad] : 'a' + i % 26;
  k = where == 0 ? 0 : where == 1 ? len / 2 : len - 1;
  s[n + k] = "a\x01\x7f\x80 \t"[bad];
  n += len;
  judge_exact(kind, s, n, 16, 0);
  strcpy((char *) s + n, parts[f].after);
  judge_exact(kind, s, n + strlen(parts[f].after), 16, 3);
  free(s);
  mc_step();
  mc_state(mc_mix(mc_mix(mc_mix(f, len), bad), where));
}

/* many field lines, and space for as many, one fewer, one more */
static void c17_many(void)
{
  static const int counts[] = {20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 70000};
  int kind = mc_choose(5, "kind"), lines = counts[mc_choose(19, "lines")], space = mc_choose(4, "space"), i, n = 0, x, y;
  size_t max = space == 0 ? lines - 1 : space == 1 ? lines : space == 2 ? lines + 1 : 100000, count = max;
  u8 *s = malloc(lines * 24 + 100), *p;
  http_field *f = malloc(max * sizeof *f);
  data a = data_null(), b = data_null();
  long r = 0, want;
  stream st;
  char t[64];

  if (kind == REQUEST || kind == PHR_REQUEST) n += sprintf((char *) s, "GET / HTTP/1.1\r\n");
  if (kind == RESPONSE || kind == PHR_RESPONSE) n += sprintf((char *) s, "HTTP/1.1 200 OK\r\n");
  for (i = 0; i < lines; i++) n += sprintf((char *) s + n, "N%d: v%d\r\n", i, i);
  n += sprintf((char *) s + n, "\r\n");
  p = put(s, n, 0);
  memset(&st, 0, sizeof st);
  st.input.data = p;
  st.input.size = n;
  st.input.capacity = n;
  switch (kind)
  {
  case REQUEST: r = http_read_request(&st, &a, &b, f, &count); break;
  case RESPONSE: r = http_read_response(&st, &x, &a, f, &count); break;
  case PHR_REQUEST: r = phr_parse_request((char *) p, n, (const char **) &a.base, &a.size, (const char **) &b.base, &b.size, &y, (void *) f, &count, 0); break;
  case PHR_RESPONSE: r = phr_parse_response((char *) p, n, &y, &x, (const char **) &a.base, &a.size, (void *) f, &count, 0); break;
  case PHR_HEADERS: r = phr_parse_headers((char *) p, n, (void *) f, &count, 0); break;
  }
  want = (size_t) lines > max ? -1 : n;
  MC_CHECK(r == want, "%s with %d lines and space for %zu: verdict %ld instead of %ld", kind_name[kind], lines, max, r, want);
  if (r > 0)
  {
    MC_CHECK(count == (size_t) lines, "%zu fields reported instead of %d", count, lines);
    for (i = 0; i < lines; i++)
    {
      x = sprintf(t, "N%d", i);
      MC_CHECK((data_equal(f[i].name, data_construct(t, x))), "name of field %d of %d is wrong", i, lines);
      t[0] = 'v';
      MC_CHECK((data_equal(f[i].value, data_construct(t, x))), "value of field %d of %d is wrong", i, lines);
    }
  }
  free(f);
  free(s);
  mc_step();
  mc_state(mc_mix(mc_mix(kind, lines), max));
}

/* ---- C20 ---- */
static void c20_pairs(void)
{
  int a = mc_choose(256, "first byte"), b, la, lb, i;
  u8 s[8], q[8];

  for (b = 0; b < 256; b++)
    for (la = 0; la < 4; la++)
      for (lb = 0; lb < 4; lb++)
      {
        http_field *f = malloc(sizeof *f);
        u8 *x = malloc(la), *y = malloc(lb), v[1];
        data d;
        int eq = la == lb && (la == 0 || tolower(a) == tolower(b));
        if (!a || !b) { eq = la == lb && (la == 0 || a == b); if (a == b && la) { free(f); free(x); free(y); continue; } }
        for (i = 0; i < la; i++) x[i] = i == la - 1 ? a : 'k';
        for (i = 0; i < lb; i++) y[i] = i == lb - 1 ? b : 'K';
        *f = http_field_construct(data_construct(x, la), data_construct(v, 1));
        d = http_field_lookup(f, 1, data_construct(y, lb));
        MC_CHECK(data_base(d) == (eq ? v : NULL) && data_size(d) == (size_t) eq, "looking up '%s' in a field named '%s' %s", show(y, lb), show(x, la), eq ? "fails" : "succeeds");
        d = http_field_lookup(f, 0, data_construct(y, lb));
        MC_CHECK(data_empty(d), "a look-up among no fields succeeds");
        free(f); free(x); free(y);
      }
  (void) s; (void) q;
  mc_steps(256 * 16);
  mc_evals(256 * 16 - 1);
  mc_state(a);
}

static const char *names[] = {"", "a", "A", "b", "ab", "AB", "aB", "abc", "Content-Type", "content-type", "CONTENT-TYPE", "Content-Typ", "Content-Type-", "a\x80", "[", "{", "@", "`"};
#define NAMES ((int) (sizeof names / sizeof names[0]))
static void c20_order(void)
{
  int n = mc_choose(mc_param() + 1, "fields"), key = mc_choose(NAMES, "name"), i, j, idx[8], want = -1;
  http_field *f = malloc(n * sizeof *f + !n), *copy;
  char *value = malloc(n + 1), *k;
  data d;

  for (i = 0; i < n; i++)
  {
    int l;
    idx[i] = mc_choose(NAMES, "field name");
    l = strlen(names[idx[i]]);
    k = malloc(l);
    memcpy(k, names[idx[i]], l);
    f[i] = http_field_construct(data_construct(k, l), data_construct(value + i, mc_choose(2, "value size")));
    if (want < 0 && l == (int) strlen(names[key]))
    {
      for (j = 0; j < l; j++)
        if (((u8) names[idx[i]][j] | (isalpha((u8) names[idx[i]][j]) ? 32 : 0)) != ((u8) names[key][j] | (isalpha((u8) names[key][j]) ? 32 : 0)))
          break;
      if (j == l)
        want = i;
    }
  }
  copy = malloc(n * sizeof *f + !n);
  memcpy(copy, f, n * sizeof *f);
  d = http_field_lookup(f, n, data_string((char *) names[key]));
  MC_CHECK(want < 0 ? data_empty(d) : data_base(d) == data_base(f[want].value) && data_size(d) == data_size(f[want].value), "look-up of '%s' among %d fields does not give field %d", names[key], n, want);
  MC_CHECK(memcmp(copy, f, n * sizeof *f) == 0, "look-up changes the fields");
  for (i = 0; i < n; i++)
    free((void *) data_base(f[i].name));
  free(f); free(copy); free(value);
  mc_step();
  mc_outcome(want);
  mc_state(mc_mix(mc_mix(n, key), want));
}

/* ---- C19 ---- */
static const int body_sizes[] = {0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 65535, 65536, 99999, 100000, 999999, 1000000, 12345678};
static const int part_sizes[] = {0, 1, 2, 3, 5, 8, 15, 16, 17, 29, 30, 64, 255, 4096};
static u8 *bytes(int n, int salt)
{
  u8 *p = malloc(n + 1);
  int i;
  for (i = 0; i < n; i++)
    p[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i * 7 + salt) % 36];
  p[n] = 0;
  return p;
}

/* checks that the message is complete and holds exactly the given fields, in any order, plus a Server field if allowed */
static void read_back(const u8 *out, size_t total, int request, data method, data target, data status, const char *names[], data *values, int count, data body)
{
  ref_msg m;
  int r = request ? ref_request(out, total, 32, &m) : ref_response(out, total, 32, &m), i, j, seen[8] = {0};

  MC_CHECK(r > 0, "what was written is not a message head (verdict %d): '%s'", r, show(out, total));
  MC_CHECK(m.minor == 1, "minor version %d", m.minor);
  if (request)
  {
    MC_CHECK(m.method.len == (int) data_size(method) && memcmp(out + m.method.off, data_base(method), m.method.len) == 0, "wrong method in '%s'", show(out, total));
    MC_CHECK(m.target.len == (int) data_size(target) && memcmp(out + m.target.off, data_base(target), m.target.len) == 0, "wrong target in '%s'", show(out, total));
  }
  else
  {
    char line[8192];
    int k = sprintf(line, "HTTP/1.1 %.*s\r\n", (int) data_size(status), (char *) data_base(status));
    MC_CHECK(memcmp(out, line, k) == 0, "wrong status line in '%s'", show(out, total));
  }
  for (i = 0; i < m.n; i++)
  {
    for (j = 0; j < count; j++)
      if ((int) strlen(names[j]) == m.name[i].len && strncasecmp((char *) out + m.name[i].off, names[j], m.name[i].len) == 0)
        break;
    if (j == count && !request && m.name[i].len == 6 && strncasecmp((char *) out + m.name[i].off, "Server", 6) == 0)
      continue;
    MC_CHECK(j < count, "unexpected field '%.*s' in '%s'", m.name[i].len, out + m.name[i].off, show(out, total));
    MC_CHECK(!seen[j]++, "field %s is written twice", names[j]);
    MC_CHECK(m.value[i].len == (int) data_size(values[j]) && memcmp(out + m.value[i].off, data_base(values[j]), m.value[i].len) == 0,
             "field %s has value '%.*s' instead of '%.*s'", names[j], m.value[i].len, out + m.value[i].off, (int) data_size(values[j]), (char *) data_base(values[j]));
  }
  for (j = 0; j < count; j++)
    MC_CHECK(seen[j], "field %s is missing in '%s'", names[j], show(out, total));
  MC_CHECK(total - r == data_size(body) && memcmp(out + r, data_base(body), data_size(body)) == 0, "the body does not follow the head unchanged (%zu bytes instead of %zu)", total - r, data_size(body));
}

static sim_conn *conn;
static const u8 *written(stream *s, size_t *n)
{
  stream_flush(s);
  sim_peer_take(conn, -1);
  *n = conn->gotlen;
  return conn->got;
}

static void c19_message(int request, int a, int b, int c, int d, int e, int before, int after)
{
  u8 *x = bytes(a, 1), *y = bytes(b, 2), *z = bytes(c, 3), *t = bytes(d, 4), *body = bytes(e, 5), *pre = bytes(before, 6), *post = bytes(after, 7);
  char length[16];
  const char *names[4];
  data values[4], dx = data_construct(x, a), dy = data_construct(y, b), dz = data_construct(z, c), dt = data_construct(t, d), dbody = data_construct(body, e);
  size_t n;
  int count = 0;
  stream s;
  const u8 *out;

  sim_reset();
  reactor_construct();
  conn = sim_conn_new(SIM_SOCK, 1 << 26);
  stream_construct(&s, NULL, NULL);
  stream_open(&s, conn->fd, STREAM_READ, NULL);
  stream_write(&s, data_construct(pre, before));
  if (request)
    http_write_request(&s, dx, dy, dz, dt, dbody);
  else
    http_write_response(&s, dx, dz, dt, dbody);
  stream_write(&s, data_construct(post, after));
  out = written(&s, &n);
  MC_CHECK(n >= (size_t) before + after && memcmp(out, pre, before) == 0, "earlier output was changed");
  MC_CHECK(memcmp(out + n - after, post, after) == 0, "later output was changed");
  sprintf(length, "%d", e);
  if (request)
  {
    names[count] = "Host"; values[count++] = dz;
    if (e) { names[count] = "Content-Type"; values[count++] = dt; names[count] = "Content-Length"; values[count++] = data_string(length); }
  }
  else
  {
    names[count] = "Date"; values[count++] = dz;
    if (d) { names[count] = "Content-Type"; values[count++] = dt; }
    names[count] = "Content-Length"; values[count++] = data_string(length);
  }
  if (request ? a && b : 1)
    read_back(out + before, n - before - after, request, dx, dy, dx, names, values, count, dbody);
  else
    MC_CHECK(n - before - after >= (size_t) a + b + c + e + 22, "a message of %zu bytes is shorter than its parts", n - before - after);
  stream_destruct(&s);
  reactor_destruct();
  free(x); free(y); free(z); free(t); free(body); free(pre); free(post);
  mc_step();
}

/* status lines that the reader accepts: three digits and a reason */
static void c19_status_message(const char *status, int date, int type, int e)
{
  u8 *z = bytes(date, 3), *t = bytes(type, 4), *body = bytes(e, 5);
  char length[16];
  const char *names[4];
  data values[4], out;
  http_field f[16];
  size_t n, fc = 16;
  int count = 0, code = -1;
  stream s, in;
  data reason;
  ssize_t r;

  sim_reset();
  reactor_construct();
  conn = sim_conn_new(SIM_SOCK, 1 << 26);
  stream_construct(&s, NULL, NULL);
  stream_open(&s, conn->fd, STREAM_READ, NULL);
  http_write_response(&s, data_string((char *) status), data_construct(z, date), data_construct(t, type), data_construct(body, e));
  out.base = (void *) written(&s, &n);
  out.size = n;
  sprintf(length, "%d", e);
  names[count] = "Date"; values[count++] = data_construct(z, date);
  if (type) { names[count] = "Content-Type"; values[count++] = data_construct(t, type); }
  names[count] = "Content-Length"; values[count++] = data_string(length);
  read_back(out.base, n, 0, data_null(), data_null(), data_string((char *) status), names, values, count, data_construct(body, e));
  /* and through the library's own reader */
  memset(&in, 0, sizeof in);
  in.input.data = (void *) out.base;
  in.input.size = in.input.capacity = n;
  r = http_read_response(&in, &code, &reason, f, &fc);
  MC_CHECK(r > 0 && n - r == (size_t) e, "the library's reader gives %zd for a message of %zu bytes with a body of %d", r, n, e);
  MC_CHECK(code == atoi(status), "status %d read back for '%s'", code, status);
  MC_CHECK(data_equal(http_field_lookup(f, fc, data_string("content-length")), data_string(length)), "content length read back wrongly");
  stream_destruct(&s);
  reactor_destruct();
  free(z); free(t); free(body);
  mc_step();
}

static void c19_request(void)
{
  static const int s1[] = {0, 1, 3, 7, 16}, s2[] = {0, 1, 2, 15, 64, 4096};
  int a = s1[mc_choose(5, "method size")], b = s2[mc_choose(6, "target size")], c = s2[mc_choose(6, "host size")], d = s2[mc_choose(6, "type size")],
    e = body_sizes[mc_choose(mc_thorough() ? 21 : 16, "body size")];
  c19_message(1, a, b, c, d, e, mc_choose(2, "earlier output") * 5, mc_choose(2, "later output") * 3);
  mc_state(mc_mix(mc_mix(mc_mix(a, b), mc_mix(c, d)), e));
}

static void c19_response(void)
{
  static const char *status[] = {"200 OK", "404 Not Found", "500", "204 ", "400 Bad Request", "100 Continue please"};
  int st = mc_choose(6, "status"), z = part_sizes[mc_choose(14, "date size")], t = part_sizes[mc_choose(14, "type size")], e = body_sizes[mc_choose(mc_thorough() ? 21 : 16, "body size")];
  c19_status_message(status[st], z, t, e);
  mc_state(mc_mix(mc_mix(st, z), mc_mix(t, e)));
}

/* every size in a range, so that no boundary of the allocation is missed */
static void c19_sizes(void)
{
  int part = mc_choose(5, "part"), n = mc_choose(mc_param(), "size"), i;
  int v[5] = {3, 1, 4, 10, 1}, w[5] = {6, 0, 29, 10, 3};
  v[part] = n + (part < 2);
  w[part] = n;
  c19_message(1, v[0], v[1], v[2], v[3], v[4], 0, 1);
  if (part != 1 && part != 0)
  {
    char type[] = "200 OK";
    c19_status_message(type, w[2], w[3], w[4]);
  }
  for (i = 0; i < 3; i++)
    c19_message(1, v[0], v[1], v[2], v[3], v[4], 1 << (4 + i), 0);
  mc_state(mc_mix(part, n));
}

/* names of any length, differing in one byte, in case only, or in length; after any number of other fields, continuation lines among them */
static void c20_long(void)
{
  static const int sizes[] = {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 1000, 4096, 65535, 65536, 65537};
  static const int befores[] = {0, 1, 2, 15, 16, 17, 63, 64, 255, 256, 300, 1000};
  int n = sizes[mc_choose(28, "name length")], before = befores[mc_choose(12, "fields before")], kind = mc_choose(3, "the others: a byte differs, one byte longer or shorter, nameless"), i, pos, step = n > 600 ? n / 200 : 1;
  u8 *want = malloc(n), *other = malloc(n + 1), *asked = malloc(n), v[4];
  http_field *f = malloc((before + 2) * sizeof *f);
  data d;

  judged = 0;
  for (i = 0; i < n; i++)
  {
    want[i] = "aZ09-_.Mq~"[(i * 7 + i / 10) % 10];
    asked[i] = isalpha(want[i]) ? want[i] ^ 32 : want[i];
  }
  for (pos = 0; pos < n; pos = pos == n - 1 ? n : pos + step < n ? pos + step : n - 1)
  {
    memcpy(other, want, n);
    other[n] = 'x';
    if (kind == 0)
      other[pos] = other[pos] == '5' ? '6' : '5';
    for (i = 0; i < before; i++)
      f[i] = http_field_construct(kind == 2 ? data_null() : data_construct(other, kind == 0 ? n : i & 1 ? n - 1 : n + 1), data_construct(v, 2));
    f[before] = http_field_construct(data_construct(want, n), data_construct(v + 1, 1));
    f[before + 1] = http_field_construct(data_construct(want, n), data_construct(v + 2, 1));
    d = http_field_lookup(f, before + 2, data_construct(asked, n));
    MC_CHECK(data_base(d) == v + 1 && data_size(d) == 1, "a field with a name of %d bytes behind %d others is not found", n, before);
    d = http_field_lookup(f, before, data_construct(asked, n));
    MC_CHECK(data_empty(d), "a name of %d bytes that differs at %d is found", n, pos);
    judged += 2;
    if (kind || before > 300)
      break;
  }
  free(want); free(other); free(asked); free(f);
  mc_steps(judged);
  mc_evals(judged - 1);
  mc_state(mc_mix(mc_mix(n, before), kind));
}

/* one field written on its own */
static void c19_field(void)
{
  int a = part_sizes[mc_choose(14, "name size")], b = part_sizes[mc_choose(14, "value size")], n = a + b + 4;
  u8 *x = bytes(a, 1), *y = bytes(b, 2), *p = malloc(n);
  http_field f = http_field_construct(data_construct(x, a), data_construct(y, b));
  pointer q = (pointer) p;

  MC_CHECK(data_base(f.name) == (void *) x && data_size(f.name) == (size_t) a && data_base(f.value) == (void *) y && data_size(f.value) == (size_t) b, "a field does not hold what it was made of");
  http_field_push(&q, f);
  MC_CHECK((u8 *) q == p + n, "a field of %d and %d bytes moves the position by %d", a, b, (int) ((u8 *) q - p));
  MC_CHECK(memcmp(p, x, a) == 0 && memcmp(p + a, ": ", 2) == 0 && memcmp(p + a + 2, y, b) == 0 && memcmp(p + a + 2 + b, "\r\n", 2) == 0, "a field of %d and %d bytes is written wrongly", a, b);
  free(x); free(y); free(p);
  mc_step();
  mc_state(mc_mix(a, b));
}

/* several messages one after the other */
static void c19_sequence(void)
{
  int n = mc_param(), i, kind[8], size[8], types[8];
  stream s;
  const u8 *out;
  size_t total, at = 0;
  u8 *body = bytes(70000, 5);

  sim_reset();
  reactor_construct();
  conn = sim_conn_new(SIM_SOCK, 1 << 26);
  stream_construct(&s, NULL, NULL);
  stream_open(&s, conn->fd, STREAM_READ, NULL);
  for (i = 0; i < n; i++)
  {
    static const int sizes[] = {0, 1, 25, 1000, 65536};
    kind[i] = mc_choose(3, "request, response, response with type");
    size[i] = sizes[mc_choose(5, "body size")];
    types[i] = kind[i] == 2 ? 10 : 0;
    if (kind[i] == 0)
      http_write_request(&s, data_string("PUT"), data_string("/x"), data_string("h"), data_string("t/p"), data_construct(body + i, size[i]));
    else
      http_write_response(&s, data_string("200 OK"), data_string("Thu, 01 Jan 1970 00:00:00 GMT"), kind[i] == 2 ? data_string("text/plain") : data_null(), data_construct(body + i, size[i]));
    mc_step();
  }
  out = written(&s, &total);
  for (i = 0; i < n; i++)
  {
    ref_msg m;
    int r = kind[i] ? ref_response(out + at, total - at, 32, &m) : ref_request(out + at, total - at, 32, &m);
    MC_CHECK(r > 0, "message %d is not a message head", i);
    MC_CHECK(total - at - r >= (size_t) size[i] && memcmp(out + at + r, body + i, size[i]) == 0, "message %d has the wrong body", i);
    at += r + size[i];
  }
  MC_CHECK(at == total, "%zu bytes written beyond the messages", total - at);
  stream_destruct(&s);
  reactor_destruct();
  free(body);
  mc_state(mc_mixs(mc_mixs(0, kind, sizeof kind[0] * n), size, sizeof size[0] * n));
}

/* ---- C36 ---- */
typedef struct { long r; long end; u8 out[64]; int n; unsigned long long data; } chunk_result; /* data: bit i, the payload of a chunk goes on after i bytes */

/* reference: defined over the whole input */
static chunk_result ref_chunked(const u8 *s, int n, int trailer)
{
  chunk_result c = {-2, 0, {0}, 0};
  int i = 0, st = 0, digits = 0;
  unsigned long long left = 0;

  while (i < n)
  {
    u8 b = s[i];
    if (st == 2) c.data |= 1ULL << i;
    switch (st)
    {
    case 0: /* size */
      if (isxdigit(b))
      {
        if (digits == 16) { c.r = -1; return c; }
        left = left << 4 | (ref_digit(b) ? b - '0' : (b | 32) - 'a' + 10);
        digits++;
        i++;
        break;
      }
      if (!digits) { c.r = -1; return c; }
      digits = 0;
      st = 1;
      break;
    case 1: /* extension */
      i++;
      if (b == '\n')
      {
        if (left) st = 2;
        else if (trailer) st = 4;
        else { c.r = 0; c.end = i; return c; }
      }
      break;
    case 2:
      if (c.n < (int) sizeof c.out) c.out[c.n] = b;
      c.n++;
      i++;
      if (!--left) st = 3;
      break;
    case 3:
      if (b == '\r') { i++; break; }
      if (b != '\n') { c.r = -1; return c; }
      i++;
      st = 0;
      break;
    case 4:
      if (b == '\r') { i++; break; }
      i++;
      if (b == '\n') { c.r = 0; c.end = i; return c; }
      st = 5;
      break;
    case 5:
      i++;
      if (b == '\n') st = 4;
      break;
    }
  }
  if (st == 2) c.data |= 1ULL << i;
  return c;
}

/* decode with the pieces given by cut positions (bit i: cut after byte i) */
static chunk_result decode(const u8 *s, int n, int trailer, unsigned cuts, const chunk_result *want)
{
  struct phr_chunked_decoder d = {0};
  chunk_result c = {-2, 0, {0}, 0};
  int i = 0, j;

  d.consume_trailer = trailer;
  while (i < n)
  {
    size_t size;
    ssize_t r;
    u8 *p;
    for (j = i; j < n - 1 && !(cuts >> j & 1); j++);
    size = j + 1 - i;
    p = put(s + i, size, 0);
    r = phr_decode_chunked(&d, (char *) p, &size);
    MC_CHECK(size <= (size_t) (j + 1 - i), "decoding '%s' yields more bytes than given", show(s, n));
    memcpy(c.out + c.n, p, size);
    c.n += size;
    if (r == -1) { c.r = -1; return c; }
    if (r >= 0)
    {
      MC_CHECK((size_t) r <= (size_t) (j + 1 - i) && r + size <= (size_t) (j + 1 - i), "decoding '%s' leaves more bytes than given", show(s, n));
      MC_CHECK(memcmp(p + size, s + j + 1 - r, r) == 0, "decoding '%s' with cuts %x does not keep the bytes after the end", show(s, n), cuts);
      c.r = 0;
      c.end = j + 1 - r;
      return c;
    }
    MC_CHECK(r == -2, "decoding '%s' returns %zd", show(s, n), r);
    i = j + 1;
    MC_CHECK(!phr_decode_chunked_is_in_data(&d) == !(want->data >> i & 1), "after %d bytes of '%s' the decoder %s to be in the payload of a chunk", i, show(s, n), phr_decode_chunked_is_in_data(&d) ? "claims" : "does not claim");
  }
  return c;
}

static void judge_chunk(const u8 *s, int n, int trailer, unsigned cuts, const chunk_result *want)
{
  chunk_result c = decode(s, n, trailer, cuts, want);
  judged++;
  MC_CHECK(c.r == want->r && c.n == want->n && memcmp(c.out, want->out, c.n) == 0 && c.end == want->end,
           "'%s' (trailer %d) split at %x: verdict %ld, end %ld, payload '%s' instead of %ld, %ld, '%s'", show(s, n), trailer, cuts, c.r, c.end, show(c.out, c.n), want->r, want->end, show(want->out, want->n));
}

static const char chunk_alpha[] = "0129aF\r\n;x";
#define CA 10
static void c36_enumerate(void)
{
  int trailer = mc_choose(2, "trailer"), a = mc_choose(CA, "first byte"), b = mc_choose(CA, "second byte"), c = mc_choose(CA, "third byte"), len = mc_param(), d, i, idx[16];
  u8 s[32] = {chunk_alpha[a], chunk_alpha[b], chunk_alpha[c]};
  unsigned cuts;

  judged = 0;
  for (d = 0; d <= len - 3; d++)
  {
    int n = 3 + d;
    memset(idx, 0, sizeof idx);
    for (i = 0; i < d; i++)
      s[3 + i] = chunk_alpha[0];
    while (1)
    {
      chunk_result want = ref_chunked(s, n, trailer);
      if (n <= 6 || (mc_thorough() && n <= 7))
        for (cuts = 0; cuts < 1u << (n - 1); cuts++)
          judge_chunk(s, n, trailer, cuts, &want);
      else
      {
        judge_chunk(s, n, trailer, 0, &want);
        judge_chunk(s, n, trailer, -1, &want);
        for (i = 0; i < n - 1; i++)
          judge_chunk(s, n, trailer, 1u << i, &want);
      }
      for (i = d - 1; i >= 0; i--)
      {
        if (++idx[i] < CA) { s[3 + i] = chunk_alpha[idx[i]]; break; }
        idx[i] = 0;
        s[3 + i] = chunk_alpha[0];
      }
      if (i < 0)
        break;
    }
  }
  mc_steps(judged);
  mc_evals(judged - 1);
  mc_state(mc_mix(mc_mix(trailer, a), mc_mix(b, c)));
}

/* well-formed bodies with one byte changed, in all two- and three-way splits */
static void c36_edit(void)
{
  static const char *t[] = {"1\r\na\r\n0\r\n\r\nrest", "3;ext=1\r\nabc\r\nB\r\nhello world\r\n0\r\n", "0000000000000001\nz\n00\n", "00000000000000001\r\nz", "2\r\nab\r\n0\r\nA: b\r\n\r\nxy", "fFfFfFfFfFfFfFfF\r\nabc",
                            "10\r\n0123456789abcdef\r\n1\r\nq\r\n0\r\n\r\n", "a\n\r\n\r\n0\r\n0\r\n\r\n0\r\n\r\n"};
  int k = mc_choose(8, "body"), n = strlen(t[k]), trailer = mc_choose(2, "trailer"), pos = mc_choose(n, "position"), op = mc_choose(3, "replace, insert, delete"), v, i, j;
  u8 s[64];

  judged = 0;
  for (v = 0; v < (op == 2 ? 1 : 256); v++)
  {
    int m = n;
    chunk_result want;
    if (op != 2 && !mc_thorough() && !(v == '\r' || v == '\n' || v == '0' || v == '1' || v == 'g' || v == 'G' || v == '/' || v == ':' || v == '@' || v == '`' || v == 0 || v == 255 || v == 'f' || v == 'A' || v == ' ' || v == 0xb0))
      continue;
    memcpy(s, t[k], n);
    if (op == 0) s[pos] = v;
    else if (op == 1) { memmove(s + pos + 1, s + pos, n - pos); s[pos] = v; m++; }
    else { memmove(s + pos, s + pos + 1, n - pos - 1); m--; }
    want = ref_chunked(s, m, trailer);
    judge_chunk(s, m, trailer, 0, &want);
    judge_chunk(s, m, trailer, -1, &want);
    for (i = 0; i < m - 1 && i < 32; i++)
      for (j = i; j < m - 1 && j < 32; j++)
        judge_chunk(s, m, trailer, 1u << i | 1u << j, &want);
  }
  mc_steps(judged);
  mc_evals(judged ? judged - 1 : 0);
  mc_state(mc_mix(mc_mix(k, trailer), mc_mix(pos, op)));
}

/* chunks larger than the pieces, many of them */
static void c36_large(void)
{
  static const int sizes[] = {1, 15, 16, 17, 255, 256, 4096, 65536};
  int a = sizes[mc_choose(8, "first chunk")], b = sizes[mc_choose(8, "second chunk")], piece = (int[]) {1, 7, 64, 1000, 1 << 20}[mc_choose(5, "piece")], trailer = mc_choose(2, "trailer"), fmt = mc_choose(3, "size format"), n = 0, i, done = 0, out = 0;
  u8 *s = malloc(a + b + 100), *o = malloc(a + b + 1);
  static const char *f[] = {"%x\r\n", "%X;a=b\r\n", "000%x\n"};
  struct phr_chunked_decoder d = {0};
  ssize_t r = -2;

  n += sprintf((char *) s + n, f[fmt], a);
  for (i = 0; i < a; i++) s[n + i] = i * 31 + 1;
  n += a;
  n += sprintf((char *) s + n, "\r\n");
  n += sprintf((char *) s + n, f[fmt], b);
  for (i = 0; i < b; i++) s[n + i] = i * 17 + 2;
  n += b;
  n += sprintf((char *) s + n, trailer ? "\r\n0\r\nA: b\r\n\r\nEND" : "\r\n0\r\nEND");
  d.consume_trailer = trailer;
  for (i = 0; i < n && !done; i += piece)
  {
    size_t k = n - i < piece ? n - i : piece;
    u8 *p = malloc(k);
    int given = k;
    memcpy(p, s + i, k);
    r = phr_decode_chunked(&d, (char *) p, &k);
    memcpy(o + out, p, k);
    out += k;
    if (r >= 0)
    {
      MC_CHECK(i + given - r == n - 3, "the end is reported at %ld instead of %d", (long) (i + given - r), n - 3);
      done = 1;
    }
    free(p);
    MC_CHECK(r != -1, "a well-formed body is rejected");
  }
  MC_CHECK(done && out == a + b, "payload of %d bytes instead of %d", out, a + b);
  for (i = 0; i < a; i++) MC_CHECK(o[i] == (u8) (i * 31 + 1), "payload byte %d is wrong", i);
  for (i = 0; i < b; i++) MC_CHECK(o[a + i] == (u8) (i * 17 + 2), "payload byte %d is wrong", a + i);
  free(s); free(o);
  mc_steps(n / piece + 1);
  mc_state(mc_mix(mc_mix(a, b), mc_mix(piece, trailer * 3 + fmt)));
}

/* many chunks, long extensions, long and many trailer lines, in pieces */
static void c36_many(void)
{
  static const int chunks[] = {1, 2, 100, 5000}, sizes[] = {1, 2, 17, 300}, exts[] = {0, 1, 300, 70000, 300000}, trailers[] = {-1, 0, 1, 500, 20000};
  int a = chunks[mc_choose(4, "chunks")], b = sizes[mc_choose(4, "size")], e = exts[mc_choose(5, "length of an extension")], t = trailers[mc_choose(5, "trailer lines")],
    piece = (int[]) {1 << 30, 100000, 4096, 13, 1}[mc_choose(5, "piece")], every = mc_choose(2, "extension on every chunk"), i, j, done = 0;
  size_t n = 0, out = 0, pos, cap;
  u8 *s, *o;
  struct phr_chunked_decoder d = {0};
  ssize_t r = -2;

  if (every && (size_t) a * e > 4000000) mc_prune();
  cap = (size_t) a * (b + 20) + (size_t) (every ? a + 1 : 1) * (e + 4) + (t > 0 ? (size_t) t * 30 : 0) + 100;
  if (cap / piece > 200000) mc_prune();
  s = malloc(cap); o = malloc((size_t) a * b + 1);
  for (i = 0; i <= a; i++)
  {
    if (i) { s[n++] = '\r'; s[n++] = '\n'; }
    n += sprintf((char *) s + n, "%x", i < a ? b : 0);
    if (e && (every || i == a / 2))
    {
      s[n++] = ';';
      memset(s + n, 'e', e);
      n += e;
    }
    s[n++] = '\r'; s[n++] = '\n';
    if (i < a)
      for (j = 0; j < b; j++) s[n++] = o[out++] = (i * 7 + j * 31 + (i >> 8)) % 3 ? (u8) (i + j) : '\r' - (j & 1) * 3;
  }
  if (t >= 0)
  {
    d.consume_trailer = 1;
    for (i = 0; i < t; i++) n += sprintf((char *) s + n, "T%d: %s\r\n", i, i % 3 ? "0" : "value");
    s[n++] = '\r'; s[n++] = '\n';
  }
  memcpy(s + n, "0\r\n", 3);
  out = 0;
  for (pos = 0; pos < n + 3 && !done; pos += piece)
  {
    size_t k = n + 3 - pos < (size_t) piece ? n + 3 - pos : (size_t) piece, given = k;
    u8 *p = malloc(k);
    memcpy(p, s + pos, k);
    r = phr_decode_chunked(&d, (char *) p, &k);
    MC_CHECK(r != -1, "a well-formed body is rejected at byte %zu", pos);
    MC_CHECK(out + k <= (size_t) a * b && memcmp(o + out, p, k) == 0, "payload is wrong after byte %zu", out);
    out += k;
    if (r >= 0)
    {
      MC_CHECK(pos + given - r == n, "the end is reported at %zu instead of %zu", pos + given - r, n);
      done = 1;
    }
    free(p);
  }
  MC_CHECK(done && out == (size_t) a * b, "payload of %zu bytes instead of %zu", out, (size_t) a * b);
  mc_steps(n / piece + 1);
  mc_state(mc_mix(mc_mix(a, b), mc_mix(e * 2 + every, mc_mix(t, piece))));
  free(s); free(o);
}

/* chunk sizes around every power of two: how much of the payload is still expected, up to beyond 4 GiB */
static void c36_sizes(void)
{
  static u8 *area;
  const size_t unit = 1 << 26;
  int bit = mc_choose(64, "power of two"), off = mc_choose(3, "-1 0 1") - 1, zeros = mc_choose(3, "leading zeros"), upper = mc_choose(2, "upper case"), how = mc_choose(2, "whole or in pieces");
  size_t size = ((size_t) 1 << bit) + off, k, n, left = size;
  struct phr_chunked_decoder d = {0};
  char head[64];
  u8 *p;
  ssize_t r;
  int digits = snprintf(NULL, 0, "%zx", size);

  if (zeros) zeros = zeros == 1 ? 1 : 16 - digits;
  if (digits + zeros > 16 || size == 0) mc_prune();
  if (!area) area = mmap(NULL, unit, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  n = sprintf(head, upper ? "%.*s%zX\r\n" : "%.*s%zx\r\n", zeros, "0000000000000000", size);
  p = malloc(n);
  memcpy(p, head, n);
  if (how == 0) { k = n; r = phr_decode_chunked(&d, (char *) p, &k); MC_CHECK(r == -2 && k == 0, "the size line gives %zd with %zu bytes", r, k); }
  else for (size_t i = 0; i < n; i++) { k = 1; r = phr_decode_chunked(&d, (char *) p + i, &k); MC_CHECK(r == -2 && k == 0, "byte %zu of the size line gives %zd with %zu bytes", i, r, k); }
  free(p);
  MC_CHECK(phr_decode_chunked_is_in_data(&d), "not in the payload after the size line");
  for (int i = 0; left > 1 && i < 70; i++)
  {
    size_t given = k = left - 1 < unit ? left - 1 : unit;
    r = phr_decode_chunked(&d, (char *) area, &k);
    MC_CHECK(r == -2 && k == given, "%zu bytes of payload give %zd with %zu bytes", given, r, k);
    MC_CHECK(phr_decode_chunked_is_in_data(&d), "not in the payload with %zu bytes of it missing", left - given);
    left -= given;
  }
  if (left == 1)
  {
    char tail[] = "x\r\n0\r\n\r\n";
    d.consume_trailer = 1;
    k = 8;
    r = phr_decode_chunked(&d, tail, &k);
    MC_CHECK(r == 0 && k == 1 && tail[0] == 'x', "the end after %zu bytes gives %zd with %zu bytes", size, r, k);
  }
  else
  {
    /* far from the end: what looks like the end of the body is payload */
    char tail[] = "\r\n0\r\n\r\n";
    k = 7;
    r = phr_decode_chunked(&d, tail, &k);
    MC_CHECK(r == -2 && k == 7 && memcmp(tail, "\r\n0\r\n\r\n", 7) == 0 && phr_decode_chunked_is_in_data(&d), "payload is taken for the end");
  }
  mc_steps(4);
  mc_state(mc_mix(size, zeros * 4 + upper * 2 + how));
}

const mc_scenario mc_scenarios[] = {
  {"C17", "all-continuations", c17_enumerate, 0, 0, 5, 6, 3, 0},
  {"C17", "one-edit", c17_edit, 0, 0, 0, 0, 3, 0},
  {"C17", "two-edits", c17_edit2, 0, 0, 0, 0, 3, 0},
  {"C17", "token-lengths", c17_runs, 0, 0, 40, 70, 3, 0},
  {"C17", "field-limit", c17_fields, 0, 0, 0, 0, 3, 0},
  {"C17", "long-heads", c17_long, 0, 0, 0, 0, 2, 0},
  {"C17", "many-fields", c17_many, 0, 0, 0, 0, 2, 0},
  {"C18", "all-continuations", c18_enumerate, 0, 0, 5, 6, 3, 0},
  {"C18", "one-edit", c18_edit, 0, 0, 0, 0, 3, 0},
  {"C18", "two-edits", c18_edit2, 0, 0, 0, 0, 3, MC_THOROUGH_ONLY},
  {"C18", "token-lengths", c18_runs, 0, 0, 20, 40, 3, 0},
  {"C19", "requests", c19_request, 0, 0, 0, 0, 4, 0},
  {"C19", "responses", c19_response, 0, 0, 0, 0, 4, 0},
  {"C19", "all-sizes", c19_sizes, 0, 0, 300, 5000, 2, 0},
  {"C19", "fields", c19_field, 0, 0, 0, 0, 2, 0},
  {"C19", "sequences", c19_sequence, 0, 0, 2, 4, 3, 0},
  {"C20", "byte-pairs", c20_pairs, 0, 0, 0, 0, 1, 0},
  {"C20", "first-match", c20_order, 0, 0, 3, 4, 3, 0},
  {"C20", "long-names", c20_long, 0, 0, 0, 0, 2, 0},
  {"C36", "all-inputs", c36_enumerate, 0, 0, 7, 9, 4, 0},
  {"C36", "edited-bodies", c36_edit, 0, 0, 0, 0, 4, 0},
  {"C36", "large-chunks", c36_large, 0, 0, 0, 0, 4, 0},
  {"C36", "many-chunks", c36_many, 0, 0, 0, 0, 4, 0},
  {"C36", "chunk-sizes", c36_sizes, 0, 0, 0, 0, 3, 0},
  {NULL}
};
