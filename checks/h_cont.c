/* C21-C24, C27: buffers, vectors, lists, maps, data slices - every operation sequence up to a depth against an ideal container. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "reactor.h"
#include "mc.h"

static long mem0;
static void begin(void) { mem0 = mc_mem_live(); }
static void end(void) { MC_CHECK(mc_mem_live() == mem0, "%ld heap blocks leaked", mc_mem_live() - mem0); }

/* ------------------------------------------------------------------ C21 buffer */

static unsigned char ref[4096];
static size_t rn, reserved;
static unsigned char fresh;

static void buf_check(buffer *b, const char *op)
{
  size_t i;

  MC_CHECK(buffer_size(b) == rn, "size is %zu after %s, should be %zu", buffer_size(b), op, rn);
  MC_CHECK(buffer_capacity(b) >= rn, "capacity %zu below size %zu after %s", buffer_capacity(b), rn, op);
  MC_CHECK(buffer_capacity(b) >= reserved, "capacity %zu after %s although %zu was reserved", buffer_capacity(b), op, reserved);
  for (i = 0; i < rn; i++)
    MC_CHECK(((unsigned char *) buffer_data(b))[i] == ref[i], "byte %zu is wrong after %s", i, op);
  /* all of the capacity must be usable */
  for (i = rn; i < buffer_capacity(b); i++)
    ((volatile unsigned char *) buffer_data(b))[i] = 0xee;
}

static void ref_insert(size_t pos, const void *p, size_t n)
{
  memmove(ref + pos + n, ref + pos, rn - pos);
  memcpy(ref + pos, p, n);
  rn += n;
}

static size_t pick_pos(int k) { return k == 0 ? 0 : k == 1 ? rn : k == 2 ? rn / 2 : rn ? rn - 1 : 0; }

static void c21(void)
{
  static const size_t start[] = {0, 1, 7, 8, 63, 64};
  static const size_t isz[] = {0, 1, 3, 9, 64};
  buffer b;
  unsigned char *tmp;
  size_t n, pos, i, old, size;
  int d, c;

  begin();
  buffer_construct(&b);
  rn = reserved = 0;
  fresh = 1;
  n = start[mc_choose(6, "initial size")];
  tmp = malloc(n + 1);
  for (i = 0; i < n; i++)
    tmp[i] = fresh++;
  buffer_insert(&b, 0, tmp, n);
  ref_insert(0, tmp, n);
  free(tmp);
  buf_check(&b, "initial insert");
  for (d = 0; d < mc_param(); d++)
  {
    c = mc_choose(8, "operation");
    mc_step();
    switch (c)
    {
    case 0: /* insert */
      n = isz[mc_choose(5, "bytes")];
      pos = pick_pos(mc_choose(4, "position"));
      tmp = malloc(n ? n : 1);
      for (i = 0; i < n; i++)
        tmp[i] = fresh++;
      buffer_insert(&b, pos, tmp, n);
      ref_insert(pos, tmp, n);
      free(tmp);
      buf_check(&b, "insert");
      break;
    case 1: /* insert fill */
      n = mc_choose(4, "count");
      size = 1 + 2 * mc_choose(2, "element size");
      pos = pick_pos(mc_choose(4, "position"));
      tmp = malloc(size);
      for (i = 0; i < size; i++)
        tmp[i] = fresh++;
      buffer_insert_fill(&b, pos, n, tmp, size);
      for (i = 0; i < n; i++)
        ref_insert(pos, tmp, size);
      free(tmp);
      buf_check(&b, "insert_fill");
      break;
    case 2: /* erase */
      pos = pick_pos(mc_choose(4, "position"));
      switch (mc_choose(3, "how much"))
      {
      case 0: n = 0; break;
      case 1: n = rn - pos ? 1 : 0; break;
      default: n = rn - pos; break;
      }
      buffer_erase(&b, pos, n);
      memmove(ref + pos, ref + pos + n, rn - pos - n);
      rn -= n;
      buf_check(&b, "erase");
      break;
    case 3: /* resize; new bytes are then written by the user */
      old = rn;
      switch (mc_choose(5, "new size"))
      {
      case 0: n = 0; break;
      case 1: n = rn ? rn - 1 : 0; break;
      case 2: n = rn + 1; break;
      case 3: n = buffer_capacity(&b); break;
      default: n = buffer_capacity(&b) + 1; break;
      }
      buffer_resize(&b, n);
      MC_CHECK(buffer_size(&b) == n && buffer_capacity(&b) >= n, "resize to %zu gives size %zu, capacity %zu", n, buffer_size(&b), buffer_capacity(&b));
      for (i = old; i < n; i++)
        ((unsigned char *) buffer_data(&b))[i] = ref[i] = fresh++;
      rn = n;
      buf_check(&b, "resize");
      break;
    case 4: /* reserve */
      switch (mc_choose(4, "reserve"))
      {
      case 0: n = 0; break;
      case 1: n = buffer_capacity(&b); break;
      case 2: n = buffer_capacity(&b) + 1; break;
      default: n = rn + 100; break;
      }
      buffer_reserve(&b, n);
      if (n > reserved)
        reserved = n;
      buf_check(&b, "reserve");
      break;
    case 5:
      buffer_compact(&b);
      reserved = 0;
      MC_CHECK(buffer_capacity(&b) == rn, "capacity is %zu after compacting %zu bytes", buffer_capacity(&b), rn);
      buf_check(&b, "compact");
      break;
    case 6:
      buffer_clear(&b);
      rn = reserved = 0;
      buf_check(&b, "clear");
      break;
    case 7:
      if (d)
        mc_prune(); /* only the shorter histories */
      buffer_destruct(&b);
      buffer_construct(&b);
      rn = reserved = 0;
      buf_check(&b, "reconstruct");
      break;
    }
    mc_state(mc_mix(rn * 5000 + buffer_capacity(&b), reserved));
  }
  mc_outcome(mc_mixs(rn, ref, rn));
  buffer_destruct(&b);
  end();
}

/* growth: every size up to a page, in one step and byte by byte */
static void c21_growth(void)
{
  size_t n = mc_choose(mc_param(), "size"), m = mc_choose(4, "then more"), i;
  buffer b;
  unsigned char *p;

  begin();
  buffer_construct(&b);
  buffer_reserve(&b, n);
  MC_CHECK(buffer_capacity(&b) >= n, "capacity %zu after reserving %zu", buffer_capacity(&b), n);
  buffer_resize(&b, n);
  for (i = 0; i < n; i++)
    ((unsigned char *) buffer_data(&b))[i] = i * 7;
  p = malloc(m + 1);
  memset(p, 0x77, m + 1);
  for (i = 0; i < m; i++)
    buffer_insert(&b, buffer_size(&b), p, 1);
  buffer_insert(&b, n / 2, p, m);
  MC_CHECK(buffer_size(&b) == n + 2 * m, "size");
  for (i = 0; i < n + 2 * m; i++)
  {
    unsigned char want = i < n / 2 ? i * 7 : i < n / 2 + m ? 0x77 : i < n + m ? (i - m) * 7 : 0x77;
    MC_CHECK(((unsigned char *) buffer_data(&b))[i] == want, "byte %zu of %zu+%zu", i, n, m);
  }
  mc_step();
  mc_state(n * 8 + m);
  buffer_erase(&b, n / 2, m);
  buffer_compact(&b);
  MC_CHECK(buffer_size(&b) == n + m && (n + m == 0 || ((unsigned char *) buffer_data(&b))[0] == (n ? 0 : 0x77)), "after erase and compact");
  free(p);
  buffer_destruct(&b);
  end();
}

/* long contents: two operations on each of a range of lengths up to megabytes */
static void c21_large(void)
{
  static const size_t lens[] = {0, 1, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 100000, 131073, 1048576, 1048577, 5000000};
  static unsigned char *want, *src;
  size_t n = 0, l, pos, k, i, z, cap, reserved = 0;
  int d;
  buffer b;

  if (!want)
  {
    want = malloc(40 << 20);
    src = malloc(12 << 20);
    for (i = 0; i < 12 << 20; i++)
      src[i] = i * 131 + i / 251 * 7 + i / 65521;
  }
  begin();
  buffer_construct(&b);
  l = lens[mc_choose(sizeof lens / sizeof lens[0], "length")];
  if (mc_choose(2, "initially: one insertion, reserved and resized"))
  {
    buffer_reserve(&b, l);
    MC_CHECK(buffer_capacity(&b) >= l, "capacity %zu after reserving %zu", buffer_capacity(&b), l);
    buffer_resize(&b, l);
    memcpy(buffer_data(&b), src, l);
  }
  else
    buffer_insert(&b, 0, src, l);
  memcpy(want, src, l);
  n = l;
  /* the longest ones: one operation less */
  for (d = 0; d < mc_param() - (l > 70000); d++)
  {
    mc_step();
    switch (mc_choose(7, "insert, fill, erase, resize, reserve, compact, clear"))
    {
    case 0:
      k = (size_t[]) {1, 4096, l / 2, l, 70000}[mc_choose(5, "bytes")];
      pos = (size_t[]) {0, n / 3, n}[mc_choose(3, "position")];
      buffer_insert(&b, pos, src + 5, k);
      memmove(want + pos + k, want + pos, n - pos);
      memcpy(want + pos, src + 5, k);
      n += k;
      break;
    case 1:
      k = (size_t[]) {1, 100, 1000, 65537}[mc_choose(4, "count")];
      z = (size_t[]) {1, 3, 64, 300}[mc_choose(4, "element size")];
      if (k * z > 3000000)
        mc_prune();
      pos = (size_t[]) {0, n / 3, n}[mc_choose(3, "position")];
      buffer_insert_fill(&b, pos, k, src + 9, z);
      memmove(want + pos + k * z, want + pos, n - pos);
      for (i = 0; i < k; i++)
        memcpy(want + pos + i * z, src + 9, z);
      n += k * z;
      break;
    case 2:
      k = (size_t[]) {0, 1, n / 64, n / 17, n / 2, n - !!n, n}[mc_choose(7, "bytes left")];
      if (k > n)
        mc_prune();
      k = n - k;
      pos = (size_t[]) {0, (n - k) / 2, n - k}[mc_choose(3, "position")];
      buffer_erase(&b, pos, k);
      memmove(want + pos, want + pos + k, n - pos - k);
      n -= k;
      break;
    case 3:
      k = (size_t[]) {0, 1, n / 64, n / 17, n / 2, n + 1, 2 * n, buffer_capacity(&b), buffer_capacity(&b) + 1}[mc_choose(9, "size")];
      buffer_resize(&b, k);
      MC_CHECK(buffer_size(&b) == k && buffer_capacity(&b) >= k, "resize to %zu gives size %zu, capacity %zu", k, buffer_size(&b), buffer_capacity(&b));
      for (i = n; i < k; i++)
        ((unsigned char *) buffer_data(&b))[i] = want[i] = src[i % 100000];
      n = k;
      break;
    case 4:
      k = (size_t[]) {0, n / 2, n, n + 1, 2 * n, buffer_capacity(&b) + 1, 65536, 65537, 200000}[mc_choose(9, "capacity")];
      buffer_reserve(&b, k);
      reserved = k > reserved ? k : reserved;
      break;
    case 5:
      buffer_compact(&b);
      MC_CHECK(buffer_capacity(&b) == n, "capacity is %zu after compacting %zu bytes", buffer_capacity(&b), n);
      reserved = 0;
      break;
    case 6:
      buffer_clear(&b);
      n = reserved = 0;
      break;
    }
    cap = buffer_capacity(&b);
    MC_CHECK(buffer_size(&b) == n, "size is %zu, should be %zu", buffer_size(&b), n);
    MC_CHECK(cap >= n && cap >= reserved, "capacity %zu with %zu bytes, %zu reserved", cap, n, reserved);
    MC_CHECK(!n || memcmp(buffer_data(&b), want, n) == 0, "contents of %zu bytes differ", n);
    if (cap > n)
      memset((char *) buffer_data(&b) + n, 0xee, cap - n);
    mc_state(mc_mix(n, cap));
  }
  buffer_destruct(&b);
  end();
}

/* ------------------------------------------------------------------ C22 vector */

static int vref[8192], vn, vnext, esize, vlog[8192], vlogn;

static void velem(unsigned char *p, int id)
{
  int i;
  for (i = 0; i < esize; i++)
    p[i] = (unsigned char) (id * 31 + i * 7 + 1);
}

static int vid(unsigned char *p)
{
  static unsigned char t[70000];
  int id;
  for (id = 0; id < vnext; id++)
  {
    if (esize > 1 && (p[0] != (unsigned char) (id * 31 + 1) || p[esize - 1] != (unsigned char) (id * 31 + (esize - 1) * 7 + 1)))
      continue;
    velem(t, id);
    if (memcmp(t, p, esize) == 0)
      return id;
  }
  return -1;
}

static void vrel(void *p) { vlog[vlogn++] = vid(p); }

static void vcheck_(vector *v, const char *op)
{
  static unsigned char t[70000];
  int i;

  MC_CHECK(vector_size(v) == (size_t) vn, "size is %zu after %s, should be %d", vector_size(v), op, vn);
  MC_CHECK(vector_empty(v) == (vn == 0), "empty after %s", op);
  MC_CHECK(vector_capacity(v) >= (size_t) vn, "capacity after %s", op);
  for (i = 0; i < vn; i++)
  {
    velem(t, vref[i]);
    MC_CHECK(memcmp(vector_at(v, i), t, esize) == 0, "element %d is wrong after %s", i, op);
  }
  if (vn)
  {
    MC_CHECK(vector_front(v) == vector_at(v, 0) && vector_back(v) == vector_at(v, vn - 1) && vector_data(v) == vector_at(v, 0), "front/back/data after %s", op);
  }
}

static void vexpect(int first, int n, int rel, const char *op)
{
  int i;
  if (!rel)
    n = 0;
  MC_CHECK(vlogn == n, "%s released %d elements, should be %d", op, vlogn, n);
  for (i = 0; i < n; i++)
    MC_CHECK(vlog[i] == vref[first + i], "%s released element %d, should be %d", op, vlog[i], vref[first + i]);
  vlogn = 0;
}

static void vremove(int first, int n)
{
  memmove(vref + first, vref + first + n, (vn - first - n) * sizeof *vref);
  vn -= n;
}

static void vadd(int pos, int id, int n)
{
  memmove(vref + pos + n, vref + pos, (vn - pos) * sizeof *vref);
  while (n--)
    vref[pos++] = id++;
}

/* all positions, or with many elements some of them */
static int vpos(int n, int few, const char *label)
{
  int p[5] = {0, 1, n / 2, n - 1, n};
  if (!few || n < 6)
    return mc_choose(n + 1, label);
  return p[mc_choose(5, label)];
}

static void c22_(int large)
{
  static const int sizes[] = {1, 4, 8, 24}, lsizes[] = {1, 2, 3, 5, 7, 12, 16, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 4097, 65537};
  static const int counts[] = {0, 1, 3, 9, 33, 100, 129};
  unsigned char *t;
  vector v;
  int d, pos, n, i, rel;

  begin();
  esize = large ? lsizes[mc_choose(sizeof lsizes / sizeof lsizes[0], "element size")] : sizes[mc_choose(4, "element size")];
  vn = vlogn = vnext = 0;
  vector_construct(&v, esize);
  t = malloc(esize * 4);
  n = large ? counts[mc_choose(esize < 1000 ? 7 : 4, "initial elements")] : mc_choose(2, "initial elements") * 3;
  for (; n > 0; n--)
  {
    velem(t, vnext);
    vector_push_back(&v, t);
    vref[vn++] = vnext++;
  }
  free(t);
  for (d = 0; d < mc_param(); d++)
  {
    mc_step();
    rel = 1;
    switch (mc_choose(10, "operation"))
    {
    case 0:
      t = malloc(esize);
      velem(t, vnext);
      vector_push_back(&v, t);
      free(t);
      vref[vn++] = vnext++;
      vcheck_(&v, "push_back");
      break;
    case 1:
      if (!vn)
        mc_prune();
      vector_pop_back(&v, (rel = mc_choose(2, "release")) ? vrel : NULL);
      vexpect(vn - 1, 1, rel, "pop_back");
      vn--;
      vcheck_(&v, "pop_back");
      break;
    case 2:
      pos = vpos(vn, large, "position");
      t = malloc(esize);
      velem(t, vnext);
      vector_insert(&v, pos, t);
      free(t);
      vadd(pos, vnext++, 1);
      vn++;
      vcheck_(&v, "insert");
      break;
    case 3:
      pos = vpos(vn, large, "position");
      n = mc_choose(4, "range length");
      if (large && n == 3)
        n = 20;
      t = malloc(esize * n + 1);
      for (i = 0; i < n; i++)
        velem(t + i * esize, vnext + i);
      vector_insert_range(&v, pos, t, t + esize * n);
      free(t);
      vadd(pos, vnext, n);
      vnext += n;
      vn += n;
      vcheck_(&v, "insert_range");
      break;
    case 4:
      pos = vpos(vn, large, "position");
      n = mc_choose(4, "count");
      if (large && n == 3)
        n = 20;
      t = malloc(esize);
      velem(t, vnext);
      vector_insert_fill(&v, pos, n, t);
      free(t);
      vadd(pos, vnext, n);
      for (i = 0; i < n; i++)
        vref[pos + i] = vnext;
      vnext++;
      vn += n;
      vcheck_(&v, "insert_fill");
      break;
    case 5:
      if (!vn)
        mc_prune();
      pos = vpos(vn - 1, large, "position");
      vector_erase(&v, pos, (rel = mc_choose(2, "release")) ? vrel : NULL);
      vexpect(pos, 1, rel, "erase");
      vremove(pos, 1);
      vcheck_(&v, "erase");
      break;
    case 6:
      pos = vpos(vn, large, "first");
      n = vpos(vn - pos, large, "length");
      vector_erase_range(&v, pos, pos + n, (rel = mc_choose(2, "release")) ? vrel : NULL);
      vexpect(pos, n, rel, "erase_range");
      vremove(pos, n);
      vcheck_(&v, "erase_range");
      break;
    case 7:
      vector_clear(&v, (rel = mc_choose(2, "release")) ? vrel : NULL);
      vexpect(0, vn, rel, "clear");
      vn = 0;
      vcheck_(&v, "clear");
      break;
    case 8:
      n = vn + mc_choose(3, "reserve") * 3;
      vector_reserve(&v, n);
      MC_CHECK(vector_capacity(&v) >= (size_t) n, "capacity %zu after reserving %d", vector_capacity(&v), n);
      vcheck_(&v, "reserve");
      break;
    case 9:
      vector_shrink_to_fit(&v);
      MC_CHECK(vector_capacity(&v) == (size_t) vn, "capacity %zu after shrinking to %d", vector_capacity(&v), vn);
      vcheck_(&v, "shrink_to_fit");
      break;
    }
    mc_state(mc_mixs(esize + 100 * vector_capacity(&v), vref, vn * sizeof *vref));
  }
  vector_destruct(&v, vrel);
  vexpect(0, vn, 1, "destruct");
  end();
}
static void c22(void) { c22_(0); }
static void c22_large(void) { c22_(1); }

/* sizes around every power of two up to far beyond 4 GiB: the memory is reserved, only its ends are used */
static size_t huge_size(void)
{
  return ((size_t) 1 << (20 + mc_choose(mc_param() - 20 + 1, "power of two"))) + (size_t[]) {-1, 0, 1}[mc_choose(3, "minus one, exactly, plus one")];
}
static void c21_huge(void)
{
  size_t n = huge_size(), pre = mc_choose(2, "bytes before") * 100, i;
  int how = mc_choose(2, "reserve, resize");
  buffer b;
  unsigned char *p;

  begin();
  buffer_construct(&b);
  for (i = 0; i < pre; i++)
    buffer_insert(&b, i, (unsigned char[]) {i + 1}, 1);
  if (how)
    buffer_resize(&b, n + 8);
  else
    buffer_reserve(&b, n + 8);
  if (n >> 31 && !buffer_data(&b))
    mc_prune(); /* no memory */
  MC_CHECK(buffer_capacity(&b) >= n + 8, "capacity %zu after asking for %zu bytes", buffer_capacity(&b), n + 8);
  MC_CHECK(buffer_size(&b) == (how ? n + 8 : pre), "size %zu after asking for %zu bytes", buffer_size(&b), n + 8);
  mc_step();
  buffer_resize(&b, n);
  p = buffer_data(&b);
  for (i = 0; i < pre; i++)
    MC_CHECK(p[i] == i + 1, "byte %zu changed by asking for %zu bytes", i, n);
  p[n - 2] = 'x';
  p[n - 1] = 'y';
  buffer_insert(&b, n, "abc", 3);
  mc_step();
  buffer_insert(&b, n + 1, "_", 1);
  mc_step();
  buffer_insert_fill(&b, n, 2, "*", 1);
  mc_step();
  MC_CHECK(buffer_size(&b) == n + 6 && memcmp((char *) buffer_data(&b) + n - 2, "xy**a_bc", 8) == 0, "contents at the end of %zu bytes", n);
  buffer_erase(&b, n - 1, 4);
  mc_step();
  MC_CHECK(buffer_size(&b) == n + 2 && memcmp((char *) buffer_data(&b) + n - 2, "x_bc", 4) == 0, "contents at the end of %zu bytes after erasing", n);
  for (i = 0; i < pre; i++)
    MC_CHECK(((unsigned char *) buffer_data(&b))[i] == i + 1, "byte %zu changed with %zu bytes", i, n);
  mc_state(mc_mix(mc_mix(n, pre), how));
  buffer_destruct(&b);
  end();
}
/* the bytes behind the place are more than 32 bits can count (takes 4 GiB of memory) */
static void c21_huge_move(void)
{
  size_t n = (1ull << 32) + 12345;
  int what = mc_choose(3, "insert, fill, erase");
  buffer b;
  char *p;

  begin();
  buffer_construct(&b);
  buffer_reserve(&b, n + 100);
  if (!buffer_data(&b))
    mc_prune();
  buffer_resize(&b, n);
  p = buffer_data(&b);
  memcpy(p, "begin", 5);
  memcpy(p + 12345, "first", 5);
  memcpy(p + n - 5, "endof", 5);
  mc_step();
  if (what == 0)
    buffer_insert(&b, 2, "____", 4);
  else if (what == 1)
    buffer_insert_fill(&b, 2, 4, "_", 1);
  else
    buffer_erase(&b, 2, 3);
  n += what == 2 ? -3 : 4;
  p = buffer_data(&b);
  MC_CHECK(buffer_size(&b) == n, "size %zu", buffer_size(&b));
  MC_CHECK(!memcmp(p, what == 2 ? "be" : "be____gin", what == 2 ? 2 : 9), "the beginning");
  MC_CHECK(!memcmp(p + 12345 + (what == 2 ? -3 : 4), "first", 5), "the middle");
  MC_CHECK(!memcmp(p + n - 5, "endof", 5), "the end");
  mc_state(what);
  buffer_destruct(&b);
  end();
}
static int hrel_n;
static uint32_t hrel_v[4];
static void hrel(void *p) { if (hrel_n < 4) hrel_v[hrel_n++] = *(uint32_t *) p; }
static void c22_huge(void)
{
  static const size_t esz[] = {4, 8, 24, 64, 1000};
  size_t z = esz[mc_choose(5, "element size")], n = (huge_size() + z - 1) / z, i;
  unsigned char e[1000] = {0};
  vector v;

  begin();
  vector_construct(&v, z);
  for (i = 0; i < 3; i++)
  {
    *(uint32_t *) e = i + 1;
    vector_push_back(&v, e);
  }
  vector_reserve(&v, n + 4);
  if (n * z >> 31 && !vector_data(&v))
    mc_prune(); /* no memory */
  MC_CHECK(vector_capacity(&v) >= n + 4, "capacity %zu after reserving %zu elements of %zu bytes", vector_capacity(&v), n + 4, z);
  MC_CHECK(vector_size(&v) == 3, "size");
  for (i = 0; i < 3; i++)
    MC_CHECK(*(uint32_t *) vector_at(&v, i) == i + 1, "element %zu after reserving %zu", i, n);
  mc_step();
  buffer_resize(&v.buffer, n * z);
  MC_CHECK(vector_size(&v) == n && vector_at(&v, n) == (char *) vector_data(&v) + n * z && vector_back(&v) == (char *) vector_data(&v) + (n - 1) * z, "size and positions with %zu elements", n);
  *(uint32_t *) vector_back(&v) = 77;
  *(uint32_t *) e = 78;
  vector_push_back(&v, e);
  *(uint32_t *) e = 79;
  vector_insert(&v, n, e);
  mc_step();
  *(uint32_t *) e = 80;
  vector_insert_fill(&v, n + 1, 2, e);
  mc_step();
  for (i = 0; i < 5; i++)
    MC_CHECK(*(uint32_t *) vector_at(&v, n - 1 + i) == ((uint32_t[]) {77, 79, 80, 80, 78})[i], "element %zu of %zu", n - 1 + i, n + 4);
  hrel_n = 0;
  vector_erase_range(&v, n, n + 3, hrel);
  MC_CHECK(hrel_n == 3 && hrel_v[0] == 79 && hrel_v[1] == 80 && hrel_v[2] == 80, "elements released when a range behind %zu is erased", n);
  vector_pop_back(&v, hrel);
  MC_CHECK(hrel_n == 4 && hrel_v[3] == 78 && vector_size(&v) == n && *(uint32_t *) vector_back(&v) == 77, "popping behind %zu elements", n);
  mc_step();
  mc_state(mc_mix(n, z));
  vector_destruct(&v, NULL);
  end();
}

/* ------------------------------------------------------------------ C23 list */

typedef struct { int id; char pad[12]; } lobj;
static lobj *lref[2][32];
static int ln[2], lnext, llog[64], llogn;
static void lrel(void *p) { llog[llogn++] = ((lobj *) p)->id; }
static int *lsought;
static int lcmp(void *a, void *b)
{
  MC_CHECK(a == (void *) lsought, "find does not compare the object sought, as first argument, with the elements");
  return *(int *) a != ((lobj *) b)->id;
}

static void lcheck(list *l, const char *op)
{
  lobj *o;
  int k, i;

  for (k = 0; k < 2; k++)
  {
    MC_CHECK(list_empty(&l[k]) == (ln[k] == 0), "list_empty after %s", op);
    i = 0;
    list_foreach(&l[k], o)
    {
      MC_CHECK(i < ln[k], "list %d has too many elements going forward after %s", k, op);
      MC_CHECK(o == lref[k][i], "element %d of list %d is wrong going forward after %s", i, k, op);
      i++;
    }
    MC_CHECK(i == ln[k], "list %d has %d elements going forward after %s, should be %d", k, i, op, ln[k]);
    i = ln[k];
    list_foreach_reverse(&l[k], o)
    {
      MC_CHECK(i > 0, "list %d has too many elements going backward after %s", k, op);
      i--;
      MC_CHECK(o == lref[k][i], "element %d of list %d is wrong going backward after %s", i, k, op);
    }
    MC_CHECK(i == 0, "list %d misses elements going backward after %s", k, op);
    MC_CHECK(list_front(&l[k]) == (ln[k] ? (void *) lref[k][0] : list_end(&l[k])), "front after %s", op);
    MC_CHECK(list_back(&l[k]) == (ln[k] ? (void *) lref[k][ln[k] - 1] : list_end(&l[k])), "back after %s", op);
    for (i = 0; i < ln[k]; i++)
      MC_CHECK(lref[k][i]->pad[0] == (char) lref[k][i]->id && lref[k][i]->pad[11] == (char) lref[k][i]->id, "contents of an element changed after %s", op);
  }
}

static void c23(void)
{
  list l[2];
  lobj *t, *p;
  int d, k, k2, i, j, n, id;
  uint64_t h;

  begin();
  memset(ln, 0, sizeof ln);
  lnext = llogn = 0;
  list_construct(&l[0]);
  list_construct(&l[1]);
  lcheck(l, "construct");
  for (d = 0; d < mc_param(); d++)
  {
    mc_step();
    k = mc_choose(2, "list");
    switch (mc_choose(6, "operation") + 2)
    {
    case 2:
      t = malloc(sizeof *t);
      t->id = lnext;
      memset(t->pad, lnext, sizeof t->pad);
      i = mc_choose(ln[k] + 1, "insert before");
      if (i == 0 && mc_choose(2, "by push_front"))
        p = list_push_front(&l[k], t, sizeof *t);
      else if (i == ln[k] && mc_choose(2, "by push_back"))
        p = list_push_back(&l[k], t, sizeof *t);
      else
        p = list_insert(i == ln[k] ? list_end(&l[k]) : lref[k][i], t, sizeof *t);
      free(t);
      memmove(&lref[k][i + 1], &lref[k][i], (ln[k] - i) * sizeof(lobj *));
      lref[k][i] = p;
      ln[k]++;
      MC_CHECK(p->id == lnext, "inserted object has wrong contents");
      lnext++;
      lcheck(l, "insert");
      break;
    case 3:
      p = list_push_back(&l[k], NULL, sizeof *p);
      for (i = 0; i < (int) sizeof *p; i++)
        MC_CHECK(((char *) p)[i] == 0, "object inserted without contents is not zero");
      p->id = lnext;
      memset(p->pad, lnext++, sizeof p->pad);
      lref[k][ln[k]++] = p;
      lcheck(l, "push_back");
      break;
    case 4: /* move element i of list k before j of list k2 */
      if (!ln[k])
        mc_prune();
      i = mc_choose(ln[k], "element");
      k2 = mc_choose(2, "to list");
      j = mc_choose(ln[k2] + 1, "before");
      p = lref[k][i];
      list_splice(j == ln[k2] ? list_end(&l[k2]) : lref[k2][j], p);
      if (!(k == k2 && i == j))
      {
        memmove(&lref[k][i], &lref[k][i + 1], (ln[k] - i - 1) * sizeof(lobj *));
        ln[k]--;
        if (k == k2 && j > i)
          j--;
        memmove(&lref[k2][j + 1], &lref[k2][j], (ln[k2] - j) * sizeof(lobj *));
        lref[k2][j] = p;
        ln[k2]++;
      }
      lcheck(l, "splice");
      break;
    case 5:
      if (!ln[k])
        mc_prune();
      i = mc_choose(ln[k], "element");
      n = mc_choose(2, "release");
      id = lref[k][i]->id;
      list_erase(lref[k][i], n ? lrel : NULL);
      MC_CHECK(llogn == n && (!n || llog[0] == id), "erase released the wrong object");
      llogn = 0;
      memmove(&lref[k][i], &lref[k][i + 1], (ln[k] - i - 1) * sizeof(lobj *));
      ln[k]--;
      lcheck(l, "erase");
      break;
    case 6:
      n = ln[k];
      {
        int ids[32];
        for (i = 0; i < n; i++)
          ids[i] = lref[k][i]->id;
        list_clear(&l[k], lrel);
        MC_CHECK(llogn == n, "clear released %d of %d objects", llogn, n);
        for (i = 0; i < n; i++)
          MC_CHECK(llog[i] == ids[i], "clear released a wrong object");
      }
      llogn = 0;
      ln[k] = 0;
      lcheck(l, "clear");
      break;
    case 7:
      for (id = -1; id <= lnext; id++)
      {
        lsought = &id;
        p = list_find(&l[k], lcmp, &id);
        for (i = 0; i < ln[k] && lref[k][i]->id != id; i++);
        MC_CHECK(p == (i < ln[k] ? lref[k][i] : NULL), "find of %d gives the wrong object", id);
      }
      break;
    }
    h = 7;
    for (k = 0; k < 2; k++)
      for (i = 0, h = mc_mix(h, ln[k]); i < ln[k]; i++)
        h = mc_mix(h, lref[k][i]->id);
    mc_state(h);
  }
  for (k = 0; k < 2; k++)
  {
    n = ln[k];
    list_destruct(&l[k], lrel);
    MC_CHECK(llogn == n, "destruct released %d of %d objects", llogn, n);
    llogn = 0;
  }
  end();
}

/* objects of any size, lists of many elements */
static size_t lsz;
static long lrels, lrelsum;
static void lrel2(void *p) { lrels++; lrelsum += *(int *) p; MC_CHECK(lsz <= sizeof(int) || ((unsigned char *) p)[lsz - 1] == (unsigned char) *(int *) p || lsz < 5, "released object has wrong contents"); }
static void c23_large(void)
{
  static const int sizes[] = {4, 5, 8, 12, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 4096, 65537}, counts[] = {1, 2, 10, 100, 255, 256, 257, 1000};
  int n, i, j, k, how;
  unsigned char *t;
  list l[2];
  void *o, *p;
  long want = 0, have, wantn;

  begin();
  lsz = sizes[mc_choose(sizeof sizes / sizeof sizes[0], "object size")];
  n = counts[mc_choose(lsz > 5000 ? 4 : 8, "objects")];
  how = mc_choose(4, "filled: at the end, at the front, zeroed, before the end");
  k = 1 + mc_choose(5, "every n-th object is moved or erased");
  lrels = lrelsum = 0;
  list_construct(&l[0]);
  list_construct(&l[1]);
  t = malloc(lsz);
  for (i = 0; i < n; i++)
  {
    memset(t, i, lsz);
    memcpy(t, &i, sizeof i);
    switch (how)
    {
    case 0: o = list_push_back(&l[0], t, lsz); break;
    case 1: o = list_push_front(&l[0], t, lsz); break;
    case 2:
      o = list_push_back(&l[0], NULL, lsz);
      for (j = 0; j < (int) lsz; j++)
        MC_CHECK(((char *) o)[j] == 0, "byte %d of an object inserted without contents is not zero", j);
      memcpy(o, t, lsz);
      break;
    default: o = list_insert(list_end(&l[0]), t, lsz); break;
    }
    MC_CHECK(memcmp(o, t, lsz) == 0, "contents of an inserted object");
  }
  free(t);
  /* every k-th to the other list or erased, alternating */
  i = 0;
  wantn = 0;
  for (o = list_front(&l[0]); o != list_end(&l[0]); o = p)
  {
    p = list_next(o);
    if (i % k == 0)
    {
      if (i / k % 2)
        list_splice(list_end(&l[1]), o);
      else
      {
        want += *(int *) o;
        wantn++;
        list_erase(o, lrel2);
      }
    }
    i++;
  }
  MC_CHECK(i == n, "%d of %d objects visited", i, n);
  MC_CHECK(lrels == wantn && lrelsum == want, "%ld objects were released instead of %ld", lrels, wantn);
  for (i = 0; i < 2; i++)
  {
    have = 0;
    for (o = list_front(&l[i]); o != list_end(&l[i]); o = list_next(o))
    {
      for (j = sizeof(int); j < (int) lsz; j++)
        MC_CHECK(((unsigned char *) o)[j] == (unsigned char) *(int *) o, "byte %d of object %d changed", j, *(int *) o);
      j = how == 1 ? n - 1 - *(int *) o : *(int *) o;
      MC_CHECK((j % k == 0) == i && (!i || j / k % 2), "object %d is in the wrong list", *(int *) o);
      have++;
      wantn++;
    }
    j = 0;
    for (o = list_back(&l[i]); o != list_end(&l[i]); o = list_previous(o))
      j++;
    MC_CHECK(j == have, "%d objects going backward, %ld going forward", j, have);
  }
  MC_CHECK(wantn == n, "%ld of %d objects remain", wantn, n);
  mc_steps(n);
  mc_state(mc_mix(n, lsz * 32 + how * 8 + k));
  list_destruct(&l[0], lrel2);
  list_clear(&l[1], lrel2);
  list_destruct(&l[1], lrel2);
  MC_CHECK(lrels == n && lrelsum == (long) n * (n - 1) / 2, "%ld of %d objects were released", lrels, n);
  end();
}

/* ------------------------------------------------------------------ C24 maps */

typedef struct { uintptr_t key, value; } ent;
#define NK 24
static size_t home[NK + 1];
static uintptr_t mval[NK + 1]; /* 0: absent */
static int mrel[1024], mcount;
static uintptr_t mnext, rel_key, rel_val;
static int rel_n;
static size_t ghash(void *p) { return home[((ent *) p)->key]; }
static int gequal(void *a, void *b) { ent *x = a, *y = b; return y ? x->key == y->key : x->key == 0; }
static void gset(void *a, void *b) { *(ent *) a = b ? *(ent *) b : (ent) {0}; }
static void grel(void *p) { ent *e = p; rel_n++; rel_key = e->key; rel_val = e->value; if (e->value < 1024) mrel[e->value]++; }

static void gcheck(map *m, int nk, const char *op)
{
  int k, n = 0;
  size_t i, seen = 0;
  ent *e;

  for (k = 1; k <= nk; k++)
  {
    e = map_at(m, (ent[]) {{.key = k}}, ghash, gequal);
    if (mval[k])
    {
      MC_CHECK(e->key == (uintptr_t) k && e->value == mval[k], "key %d is %s after %s", k, e->key ? "wrong" : "lost", op);
      n++;
    }
    else
      MC_CHECK(e->key == 0, "absent key %d is found after %s", k, op);
  }
  MC_CHECK(map_size(m) == (size_t) n, "size is %zu after %s, should be %d", map_size(m), op, n);
  for (i = 0; i < m->elements_capacity; i++)
  {
    e = (ent *) m->elements + i;
    if (e->key)
    {
      seen++;
      MC_CHECK(e->key <= (uintptr_t) nk && mval[e->key] == e->value, "stray entry after %s", op);
    }
  }
  MC_CHECK(seen == (size_t) n, "enumeration sees %zu entries after %s, should see %d", seen, op, n);
}

static void expect_rel(int n, uintptr_t key, uintptr_t val, const char *op)
{
  MC_CHECK(rel_n == n, "%s released %d entries, should be %d", op, rel_n, n);
  if (n)
    MC_CHECK(rel_key == key && rel_val == val, "%s released the wrong entry", op);
  rel_n = 0;
}

static void g_insert(map *m, int k)
{
  uintptr_t v = mnext++;

  map_insert(m, (ent[]) {{.key = k, .value = v}}, ghash, gset, gequal, grel);
  if (mval[k])
    expect_rel(1, k, v, "insert of a duplicate");
  else
  {
    expect_rel(0, 0, 0, "insert");
    mval[k] = v;
  }
}

static void g_erase(map *m, int k)
{
  map_erase(m, (ent[]) {{.key = k}}, ghash, gset, gequal, grel);
  expect_rel(!!mval[k], k, mval[k], "erase");
  mval[k] = 0;
}

static void g_clear(map *m, int nk, int destruct)
{
  int i, n = 0, total;

  for (i = 1; i <= nk; i++)
    n += mval[i] != 0;
  memset(mrel, 0, sizeof mrel);
  rel_n = 0;
  if (destruct)
    map_destruct(m, gequal, grel);
  else
    map_clear(m, gset, gequal, grel);
  total = rel_n;
  MC_CHECK(total == n, "%s released %d entries, should be %d", destruct ? "destruct" : "clear", total, n);
  for (i = 1; i <= nk; i++)
    if (mval[i])
    {
      MC_CHECK(mrel[mval[i]] == 1, "an entry was released %d times", mrel[mval[i]]);
      mval[i] = 0;
    }
  rel_n = 0;
}

static const size_t patterns[][12] = {
  {15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15},
  {13, 14, 15, 0, 1, 14, 15, 0, 13, 14, 15, 0},
  {15, 31, 47, 14, 30, 46, 0, 16, 32, 15, 31, 13},
  {0, 0, 15, 15, 1, 1, 14, 14, 0, 15, 1, 14},
  {31, 30, 31, 30, 0, 1, 31, 15, 14, 30, 31, 0},
};

static void c24_ops(void)
{
  map m;
  int d, k, nk = 6, pre, i, grow;

  begin();
  memset(mval, 0, sizeof mval);
  mnext = 1;
  rel_n = 0;
  k = mc_choose(5, "hash pattern");
  pre = mc_choose(5, "entries to start with") * 2; /* 0..8: the table grows at 9 */
  for (i = 1; i <= 12; i++)
    home[i] = patterns[k][i - 1];
  for (i = 13; i <= NK; i++)
    home[i] = patterns[k][i % 12] + 1;
  map_construct(&m, sizeof(ent), gset);
  for (i = 0; i < pre; i++)
    g_insert(&m, 12 - i);
  gcheck(&m, NK, "filling");
  for (d = 0; d < mc_param(); d++)
  {
    mc_step();
    i = mc_choose(4, "operation: insert, erase, reserve, clear");
    if (i == 0)
    {
      g_insert(&m, 1 + mc_choose(nk, "key"));
      gcheck(&m, NK, "insert");
    }
    else if (i == 1)
    {
      i = mc_choose(nk + 2, "key");
      g_erase(&m, i < nk ? 1 + i : 12 - (i - nk)); /* also prefilled ones */
      gcheck(&m, NK, "erase");
    }
    else if (i == 2)
    {
      grow = mc_choose(3, "reserve");
      map_reserve(&m, grow == 0 ? 0 : grow == 1 ? map_size(&m) : 17, ghash, gset, gequal);
      gcheck(&m, NK, "reserve");
    }
    else
    {
      g_clear(&m, NK, 0);
      gcheck(&m, NK, "clear");
    }
    uint64_t h = m.elements_capacity;
    for (i = 0; i < (int) m.elements_capacity; i++)
      h = mc_mix(h, ((ent *) m.elements)[i].key);
    mc_state(h);
  }
  g_clear(&m, NK, 1);
  end();
}

/* every cluster: n entries with every combination of home slots around the table end, any one or two erased */
static void c24_cluster(void)
{
  static const size_t homes[] = {13, 14, 15, 0, 1};
  map m;
  int i, n = mc_param(), a, b, nh = n > 6 ? 4 : 5;

  begin();
  memset(mval, 0, sizeof mval);
  mnext = 1;
  rel_n = 0;
  for (i = 1; i <= n; i++)
    home[i] = homes[mc_choose(nh, "home slot")];
  home[n + 1] = homes[1];
  map_construct(&m, sizeof(ent), gset);
  for (i = 1; i <= n; i++)
    g_insert(&m, i);
  gcheck(&m, n + 1, "filling");
  a = 1 + mc_choose(n, "erase first");
  b = 1 + mc_choose(n, "erase second");
  g_erase(&m, a);
  gcheck(&m, n + 1, "erase");
  g_erase(&m, b);
  gcheck(&m, n + 1, "second erase");
  g_insert(&m, a);
  g_insert(&m, n + 1);
  gcheck(&m, n + 1, "insert again");
  mc_steps(n + 4);
  uint64_t h = 0;
  for (i = 0; i < (int) m.elements_capacity; i++)
    h = mc_mix(h, ((ent *) m.elements)[i].key);
  mc_state(h);
  g_clear(&m, n + 1, 1);
  end();
}

/* integer and string maps: keys picked so that they collide under the real hash */
static uintptr_t ikeys[16];
static char *skeys[16];
static void pick_keys(void)
{
  static int done;
  static char names[16][16];
  int i = 0, w;
  unsigned v;
  static const unsigned slots[] = {15, 15, 15, 14, 0, 14, 31, 15, 0, 13, 15, 30, 15, 14, 0, 1};

  if (done)
    return;
  for (w = 0; w < 2; w++)
    for (i = 0, v = 1; i < 16; v++)
    {
      char s[16];
      snprintf(s, sizeof s, "k%u", v);
      if (((w ? hash_string(s) : hash_uint64(v)) & (i == 6 || i == 11 ? 31 : 15)) != slots[i] || v > 1000000)
      {
        if (v <= 1000000)
          continue;
      }
      if (w)
      {
        strcpy(names[i], s);
        skeys[i] = names[i];
      }
      else
        ikeys[i] = v;
      i++;
    }
  done = 1;
}

static uintptr_t iv[16];
static int irel_n, irel_bad;
static uintptr_t irel_key, irel_val;
static int irel_seen[512];
static void irel(mapi_entry *e) { irel_n++; irel_key = e->key; irel_val = e->value; if (e->value < 512) irel_seen[e->value]++; }
static char *srel_key;
static void srel(maps_entry *e) { irel_n++; irel_val = e->value; srel_key = e->key; if (e->value < 512) irel_seen[e->value]++; free(e->key); }

static void mi_check(mapi *m, maps *s, const char *op)
{
  int i, n = 0, seen = 0;
  mapi_entry *e;
  maps_entry *se;

  for (i = 0; i < 16; i++)
  {
    uintptr_t v = m ? mapi_at(m, ikeys[i]) : maps_at(s, skeys[i]);
    MC_CHECK(v == iv[i], "look-up of key %d gives %lu after %s, should be %lu", i, v, op, iv[i]);
    n += iv[i] != 0;
  }
  MC_CHECK((m ? mapi_size(m) : maps_size(s)) == (size_t) n, "size after %s", op);
  if (m)
  {
    mapi_foreach(m, e)
    {
      seen++;
      for (i = 0; i < 16 && ikeys[i] != e->key; i++);
      MC_CHECK(i < 16 && iv[i] == e->value, "stray entry after %s", op);
    }
  }
  else
    maps_foreach(s, se)
    {
      seen++;
      for (i = 0; i < 16 && strcmp(skeys[i], se->key); i++);
      MC_CHECK(i < 16 && iv[i] == se->value, "stray entry after %s", op);
    }
  MC_CHECK(seen == n, "enumeration sees %d entries after %s, should see %d", seen, op, n);
}

static void mi_insert(mapi *m, maps *s, int i)
{
  uintptr_t v = mnext++;

  irel_n = 0;
  if (m)
    mapi_insert(m, ikeys[i], v, irel);
  else
    maps_insert(s, strdup(skeys[i]), v, srel);
  MC_CHECK(irel_n == (iv[i] != 0), "insert released %d entries", irel_n);
  if (irel_n)
    MC_CHECK(irel_val == v, "insert released the wrong entry");
  if (!iv[i])
    iv[i] = v;
}

static void mi(int strings)
{
  mapi mm, *m = strings ? NULL : &mm;
  maps ss, *s = strings ? &ss : NULL;
  int d, i, pre, c, n;

  pick_keys();
  begin();
  memset(iv, 0, sizeof iv);
  mnext = 1;
  pre = mc_choose(5, "entries to start with") * 2;
  m ? mapi_construct(m) : maps_construct(s);
  for (i = 0; i < pre; i++)
    mi_insert(m, s, 15 - i);
  mi_check(m, s, "filling");
  for (d = 0; d < mc_param(); d++)
  {
    mc_step();
    c = mc_choose(4, "operation: insert, erase, reserve, clear");
    if (c == 0)
    {
      mi_insert(m, s, mc_choose(7, "key"));
      mi_check(m, s, "insert");
    }
    else if (c == 1)
    {
      i = mc_choose(9, "key");
      if (i >= 7)
        i = 15 - (i - 7);
      irel_n = 0;
      if (m)
        mapi_erase(m, ikeys[i], irel);
      else
        maps_erase(s, skeys[i], srel);
      MC_CHECK(irel_n == (iv[i] != 0) && (!irel_n || irel_val == iv[i]), "erase released the wrong entries");
      iv[i] = 0;
      mi_check(m, s, "erase");
    }
    else if (c == 2)
    {
      n = mc_choose(2, "reserve") ? 20 : 3;
      m ? mapi_reserve(m, n) : maps_reserve(s, n);
      mi_check(m, s, "reserve");
    }
    else
    {
      for (n = i = 0; i < 16; i++)
        n += iv[i] != 0;
      irel_n = 0;
      m ? mapi_clear(m, irel) : maps_clear(s, srel);
      MC_CHECK(irel_n == n, "clear released %d entries, should be %d", irel_n, n);
      memset(iv, 0, sizeof iv);
      mi_check(m, s, "clear");
    }
    mc_state(mc_mixs(strings, iv, sizeof iv));
  }
  for (n = i = 0; i < 16; i++)
    n += iv[i] != 0;
  irel_n = 0;
  memset(irel_seen, 0, sizeof irel_seen);
  m ? mapi_destruct(m, irel) : maps_destruct(s, srel);
  MC_CHECK(irel_n == n, "destruct released %d entries, should be %d", irel_n, n);
  for (i = 0; i < 16; i++)
    if (iv[i])
      MC_CHECK(irel_seen[iv[i]] == 1, "an entry was released %d times", irel_seen[iv[i]]);
  end();
}
static void c24_mapi(void) { mi(0); }
static void c24_maps(void) { mi(1); }

/* growth: n sequential keys, then every one erased in two orders */
static void c24_grow(void)
{
  int n = mc_choose(mc_param(), "number of keys"), order = mc_choose(3, "erase order"), i, k, j;
  mapi m;
  mapi_entry *e;

  begin();
  mapi_construct(&m);
  for (i = 1; i <= n; i++)
    mapi_insert(&m, i, i * 3, NULL);
  for (i = 1; i <= n; i++)
    mapi_insert(&m, i, 99999, NULL);
  for (k = 0; k <= n; k++)
  {
    MC_CHECK(mapi_size(&m) == (size_t) (n - k), "size %zu, should be %d", mapi_size(&m), n - k);
    if (k % 8 == 0 || n - k < 4)
    {
      for (i = 1; i <= n + 1; i++)
      {
        int gone = i > n || (order == 0 ? i <= k : order == 1 ? i > n - k : ((i - 1) * 7 % 211) < 0);
        if (order == 2)
          continue;
        MC_CHECK(mapi_at(&m, i) == (gone ? 0 : (uintptr_t) i * 3), "key %d of %d after %d erasures", i, n, k);
      }
      j = 0;
      mapi_foreach(&m, e) j++;
      MC_CHECK(j == n - k, "enumeration sees %d entries, should see %d", j, n - k);
    }
    if (k < n)
    {
      if (order == 2)
      {
        /* erase whatever enumeration gives first */
        mapi_foreach(&m, e) { i = e->key; break; }
        mapi_foreach(&m, e) { i = e->key; }
        mapi_erase(&m, i, NULL);
        MC_CHECK(mapi_at(&m, i) == 0, "erased key %d is still there", i);
      }
      else
        mapi_erase(&m, order == 0 ? k + 1 : n - k, NULL);
    }
  }
  mc_steps(3 * n + 1);
  mc_state(n * 4 + order);
  mapi_destruct(&m, NULL);
  end();
}

/* any reservation, then any number of keys */
static void c24_reserve(void)
{
  static const int large[] = {2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 10000, 16385, 40000, 65535, 65536, 65537, 100000};
  int q = mc_param(), r, n, i, kind, pre;
  mapi m;
  maps ms;
  mapi_entry *e;
  char s[32];

  r = mc_choose(q + sizeof large / sizeof large[0], "reserved");
  r = r < q ? r : large[r - q];
  kind = mc_choose(2, "integers, strings");
  n = (int[]) {1, r / 2, r, r + 1, r + r / 2}[mc_choose(5, "inserted")];
  pre = mc_choose(2, "before the reservation") ? (n < 7 ? n : 7) : 0;
  if (kind && r > 5000)
    mc_prune();
  begin();
  if (kind)
  {
    maps_construct(&ms);
    for (i = 0; i < n; i++)
    {
      if (i == pre)
        maps_reserve(&ms, r);
      sprintf(s, "%dk", i);
      maps_insert(&ms, strdup(s), i + 1, NULL);
    }
    for (i = 0; i <= n; i++)
    {
      sprintf(s, "%dk", i);
      MC_CHECK(maps_at(&ms, s) == (uintptr_t) (i < n ? i + 1 : 0), "key %d of %d with %d reserved", i, n, r);
    }
    MC_CHECK(maps_size(&ms) == (size_t) n, "size");
    irel_n = 0;
    maps_destruct(&ms, srel);
    MC_CHECK(irel_n == n, "destruct released %d entries, should be %d", irel_n, n);
  }
  else
  {
    mapi_construct(&m);
    for (i = 0; i < n; i++)
    {
      if (i == pre)
        mapi_reserve(&m, r);
      mapi_insert(&m, i * 3 + 1, i + 1, NULL);
    }
    for (i = 0; i < n; i++)
    {
      MC_CHECK(mapi_at(&m, i * 3 + 1) == (uintptr_t) i + 1, "key %d of %d with %d reserved", i, n, r);
      MC_CHECK(mapi_at(&m, i * 3 + 2) == 0, "an absent key is found with %d reserved", r);
    }
    MC_CHECK(mapi_size(&m) == (size_t) n, "size");
    i = 0;
    mapi_foreach(&m, e) i++;
    MC_CHECK(i == n, "enumeration sees %d entries, should see %d", i, n);
    for (i = 0; i < n; i += 2)
      mapi_erase(&m, i * 3 + 1, NULL);
    for (i = 0; i < n; i++)
      MC_CHECK(mapi_at(&m, i * 3 + 1) == (uintptr_t) (i % 2 ? i + 1 : 0), "key %d of %d with %d reserved after erasing every second", i, n, r);
    mapi_destruct(&m, NULL);
  }
  mc_steps(n);
  mc_state(mc_mix(r, n * 4 + kind * 2 + !!pre));
  end();
}
/* integer keys that are large, close together or far apart */
static void c24_keys(void)
{
  static const uintptr_t base[] = {1, 255, 65535, 0x7fffffff, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffff00ull};
  static const uintptr_t step[] = {1, 2, 16, 256, 4096, 65536, 0x100000000ull, 0x1000000000000ull};
  uintptr_t b = base[mc_choose(8, "first key")], st = step[mc_choose(8, "distance")], k;
  int n = (int[]) {9, 40, 200, 255}[mc_choose(4, "keys")], i, j;
  mapi m;

  begin();
  mapi_construct(&m);
  for (i = 0; i < n; i++)
  {
    k = b + st * i;
    if (!k || (i && k == b))
      break;
    mapi_insert(&m, k, (uintptr_t) -1 - i, NULL);
  }
  n = i;
  for (j = 0; j < 2; j++)
  {
    for (i = 0; i < n; i++)
      MC_CHECK(mapi_at(&m, b + st * i) == (j && i % 3 == 0 ? 0 : (uintptr_t) -1 - i), "value of key %d", i);
    if (!j)
      for (i = 0; i < n; i += 3)
        mapi_erase(&m, b + st * i, NULL);
  }
  mc_steps(n);
  mc_state(mc_mix(b, mc_mix(st, n)));
  mapi_destruct(&m, NULL);
  end();
}
/* string keys: every length, prefixes of each other, any byte */
/* long keys with a common beginning or end */
static void c24_long_keys(void)
{
  static const int lens[] = {1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 1 << 20};
  static char *k[200];
  int i, n = 0, j, how = mc_choose(3, "differ in length, in the last, in the first character");
  maps m;

  for (i = 0; i < (int) (sizeof lens / sizeof lens[0]); i++)
    for (j = 0; j < (how ? 3 : 1); j++)
    {
      k[n] = malloc(lens[i] + 1);
      memset(k[n], 'x', lens[i]);
      k[n][lens[i]] = 0;
      if (how)
        k[n][how == 1 ? lens[i] - 1 : 0] = "xz\xff"[j];
      n++;
    }
  begin();
  maps_construct(&m);
  for (i = 0; i < n; i++)
  {
    maps_insert(&m, k[i], i + 1, NULL);
    mc_step();
  }
  MC_CHECK(maps_size(&m) == (size_t) n, "size %zu, should be %d", maps_size(&m), n);
  for (i = 0; i < n; i++)
  {
    char *copy = strdup(k[i]);
    MC_CHECK(maps_at(&m, copy) == (uintptr_t) i + 1, "value of the key of %zu characters", strlen(copy));
    copy[strlen(copy) - 1]--;
    MC_CHECK(maps_at(&m, copy) == 0, "a value for a key of %zu characters that was not inserted", strlen(copy));
    free(copy);
  }
  for (i = 0; i < n; i += 2)
    maps_erase(&m, k[i], NULL);
  for (i = 0; i < n; i++)
    MC_CHECK(maps_at(&m, k[i]) == (uintptr_t) (i % 2 ? i + 1 : 0), "value of the key of %zu characters after erasing every second", strlen(k[i]));
  mc_state(how);
  maps_destruct(&m, NULL);
  end();
  for (i = 0; i < n; i++)
    free(k[i]);
}

static void c24_strings(void)
{
  static char k[1200][1200];
  int n = mc_choose(3, "up to 100, 1000 characters, single bytes and pairs"), i, j, c, count = 0;
  maps m;

  begin();
  if (n < 2)
    for (i = 0; i < (n ? 1000 : 100); i++)
    {
      memset(k[count], 'x', i);
      k[count++][i] = 0;
      if (!n && i)
      {
        memset(k[count], 'x', i);
        k[count][i] = 0;
        k[count++][i - 1] = 'y';
        memset(k[count], 'x', i);
        k[count][i] = 0;
        k[count++][0] = i > 1 ? 'y' : 'z';
      }
    }
  else
    for (i = 1; i < 256; i++)
    {
      sprintf(k[count++], "%c", i);
      sprintf(k[count++], "%c%c", i, 256 - i);
      sprintf(k[count++], "a%c", i);
      sprintf(k[count++], "%cab", i);
    }
  /* no duplicates */
  for (i = c = 0; i < count; i++)
  {
    for (j = 0; j < c && strcmp(k[j], k[i]); j++);
    if (j == c)
    {
      if (c != i)
        strcpy(k[c], k[i]);
      c++;
    }
  }
  count = c;
  maps_construct(&m);
  for (i = 0; i < count; i++)
    maps_insert(&m, k[i], i + 1, NULL);
  MC_CHECK(maps_size(&m) == (size_t) count, "size %zu, should be %d", maps_size(&m), count);
  for (i = 0; i < count; i++)
    MC_CHECK(maps_at(&m, k[i]) == (uintptr_t) i + 1, "value of string key %d", i);
  for (i = 0; i < count; i += 2)
    maps_erase(&m, k[i], NULL);
  for (i = 0; i < count; i++)
    MC_CHECK(maps_at(&m, k[i]) == (uintptr_t) (i % 2 ? i + 1 : 0), "value of string key %d after erasing every second", i);
  mc_steps(count);
  mc_state(n);
  maps_destruct(&m, NULL);
  end();
}

/* ------------------------------------------------------------------ C27 data, pointer */

static char *exact(const char *s, int n)
{
  char *p = malloc(n);
  memcpy(p, s, n);
  return p;
}

static void c27_pairs(void)
{
  static const char alpha[] = {0, 'a', 'b', (char) 0xff};
  int max = mc_param(), la = mc_choose(max + 1, "length of first"), lb = mc_choose(max + 1, "length of second"), i, j, k, na = 1, nb = 1, eq, pre;
  char a[8], b[8], *pa, *pb;
  data da, db, r;

  begin();
  for (i = 0; i < la; i++)
    na *= 4;
  for (i = 0; i < lb; i++)
    nb *= 4;
  for (i = 0; i < na; i++)
  {
    for (k = 0; k < la; k++)
      a[k] = alpha[i >> (2 * k) & 3];
    pa = exact(a, la);
    da = data_construct(pa, la);
    MC_CHECK(data_base(da) == pa && data_size(da) == (size_t) la && data_empty(da) == (la == 0), "construct");
    if (i == 0 || lb == 0)
      for (j = 0; j <= la; j++)
        for (k = 0; k + j <= la; k++)
        {
          r = data_select(da, j, k);
          MC_CHECK(data_base(r) == pa + j && data_size(r) == (size_t) k, "select %d %d", j, k);
          MC_CHECK(data_offset(da, r) == (size_t) j, "offset %d", j);
          r = data_consume(da, j);
          MC_CHECK(data_base(r) == pa + j && data_size(r) == (size_t) (la - j), "consume %d", j);
          mc_evals(3);
        }
    for (j = 0; j < nb; j++)
    {
      for (k = 0; k < lb; k++)
        b[k] = alpha[j >> (2 * k) & 3];
      pb = exact(b, lb);
      db = data_construct(pb, lb);
      eq = la == lb;
      for (k = 0; eq && k < la; k++)
        eq = a[k] == b[k];
      pre = la <= lb;
      for (k = 0; pre && k < la; k++)
        pre = a[k] == b[k];
      MC_CHECK(!!data_equal(da, db) == eq, "equal of lengths %d, %d gives %d", la, lb, !eq);
      MC_CHECK(!!data_prefix(da, db) == pre, "prefix of lengths %d, %d gives %d", la, lb, !pre);
      mc_evals(2);
      free(pb);
    }
    mc_state(mc_mixs(lb, a, la));
    free(pa);
  }
  mc_step();
  end();
}

/* long slices differing in one place; offsets and sizes beyond 4 GiB (the memory is never looked at) */
static void c27_long(void)
{
  static const int sizes[] = {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537};
  int n = sizes[mc_choose(26, "size")], off = mc_choose(8, "misalignment"), extra = mc_choose(3, "the second is longer by"), step = n > 300 ? n / 50 : 1, i;
  char *a = malloc(n), *b = malloc(off + n + extra), *y = b + off;
  data x = data_construct(a, n), z;

  begin();
  for (i = 0; i < n; i++)
    a[i] = y[i] = i * 37 + i / 256;
  for (i = 0; i < extra; i++)
    y[n + i] = 0;
  z = data_construct(y, n + extra);
  MC_CHECK(!data_equal(x, z) == !!extra && !data_equal(z, x) == !!extra && data_prefix(x, z) && !data_prefix(z, x) == !!extra, "slices of %d and %d bytes, the first being the start of the second", n, n + extra);
  for (i = 0; i < n; i = i == n - 1 ? n : i + step < n ? i + step : n - 1)
  {
    y[i] ^= i & 1 ? 0x80 : 1;
    MC_CHECK(!data_equal(x, z) && !data_equal(z, x) && !data_prefix(x, z) && !data_prefix(z, x), "slices of %d and %d bytes that differ at %d", n, n + extra, i);
    y[i] ^= i & 1 ? 0x80 : 1;
    mc_evals(4);
  }
  free(a);
  free(b);
  mc_step();
  mc_state(mc_mix(n, off * 4 + extra));
}
static void c27_huge(void)
{
  size_t n = huge_size(), m, k;
  int i;
  char *base = (char *) 0x1000;
  data d = data_construct(base, n), r;
  pointer w;

  begin();
  MC_CHECK(data_size(d) == n && data_base(d) == base && !data_empty(d), "a slice of %zu bytes", n);
  for (i = 0; i < 9; i++)
  {
    m = (size_t[]) {0, 1, n / 3, n / 2, n - 1, n, (size_t) 1 << 31, (size_t) 1 << 32, ((size_t) 1 << 32) + 1}[i];
    if (m > n)
      continue;
    for (k = 0; k < 2; k++)
    {
      r = data_select(d, m, k ? n - m : 0);
      MC_CHECK(data_base(r) == base + m && data_size(r) == (k ? n - m : 0), "selecting from %zu in %zu bytes", m, n);
      MC_CHECK(data_offset(d, r) == m, "offset %zu in %zu bytes", m, n);
    }
    r = data_consume(d, m);
    MC_CHECK(data_base(r) == base + m && data_size(r) == n - m, "consuming %zu of %zu bytes", m, n);
    MC_CHECK(m == 0 || (!data_equal(d, r) && !data_prefix(d, r)), "slices of different sizes are equal");
    w = base;
    pointer_move(&w, m);
    MC_CHECK(w == base + m, "moving by %zu", m);
    mc_step();
    mc_evals(6);
  }
  mc_state(n);
  end();
}
static void c27_misc(void)
{
  int n = mc_choose(mc_param(), "size"), off = mc_choose(3, "offset"), i;
  data d, s;
  char *p, *q;
  pointer w;

  begin();
  d = data_null();
  MC_CHECK(data_empty(d) && data_size(d) == 0 && data_base(d) == NULL, "null slice");
  MC_CHECK(data_equal(d, data_null()) && data_prefix(d, data_null()), "null slices compare");
  d = data_alloc(n);
  MC_CHECK(data_size(d) == (size_t) n && (n == 0 || data_base(d)), "alloc");
  for (i = 0; i < n; i++)
    MC_CHECK(((char *) data_base(d))[i] == 0, "allocated slice is not zero");
  p = malloc(n + 1);
  for (i = 0; i < n; i++)
    p[i] = 1 + i % 255;
  p[n] = 0;
  s = data_string(p);
  MC_CHECK(data_base(s) == p && data_size(s) == (size_t) n, "slice of a C string of length %d", n);
  /* output pointer */
  q = malloc(off + n + 1 + n);
  memset(q, 0x33, off + 2 * n + 1);
  w = q;
  pointer_move(&w, off);
  MC_CHECK(w == q + off, "move");
  pointer_push(&w, s);
  MC_CHECK(w == q + off + n, "push advances by %ld, should be %d", (long) ((char *) w - q - off), n);
  pointer_push_byte(&w, 0xfe);
  MC_CHECK(w == q + off + n + 1, "push_byte");
  if (n)
    pointer_push(&w, d);
  for (i = 0; i < off; i++)
    MC_CHECK(q[i] == 0x33, "bytes before the pointer changed");
  MC_CHECK(memcmp(q + off, p, n) == 0 && (unsigned char) q[off + n] == 0xfe, "pushed bytes");
  for (i = 0; i < n; i++)
    MC_CHECK(q[off + n + 1 + i] == 0, "pushed zero bytes");
  mc_step();
  mc_state(n * 4 + off);
  data_free(d);
  free(p);
  free(q);
  end();
}

const mc_scenario mc_scenarios[] = {
  {"C21", "operations", c21, 0, 0, 3, 4, 3, 0},
  {"C21", "growth", c21_growth, 0, 0, 1100, 5000, 1, 0},
  {"C21", "large", c21_large, 0, 0, 2, 3, 3, 0},
  {"C21", "huge", c21_huge, 0, 0, 33, 33, 2, 0},
  {"C21", "huge-move", c21_huge_move, 0, 0, 0, 0, 1, MC_SINGLE | MC_THOROUGH_ONLY},
  {"C22", "huge", c22_huge, 0, 0, 33, 33, 2, 0},
  {"C22", "operations", c22, 0, 0, 3, 4, 4, 0},
  {"C22", "large", c22_large, 0, 0, 2, 3, 3, 0},
  {"C23", "operations", c23, 0, 0, 5, 6, 5, 0},
  {"C23", "large", c23_large, 0, 0, 0, 0, 3, 0},
  {"C24", "operations", c24_ops, 0, 0, 4, 5, 4, 0},
  {"C24", "clusters", c24_cluster, 0, 0, 5, 7, 4, 0},
  {"C24", "integer-keys", c24_mapi, 0, 0, 4, 5, 3, 0},
  {"C24", "string-keys", c24_maps, 0, 0, 4, 5, 3, 0},
  {"C24", "growth", c24_grow, 0, 0, 140, 600, 2, 0},
  {"C24", "reserve", c24_reserve, 0, 0, 1100, 5000, 2, 0},
  {"C24", "keys", c24_keys, 0, 0, 0, 0, 2, 0},
  {"C24", "long-keys", c24_long_keys, 0, 0, 0, 0, 1, 0},
  {"C24", "strings", c24_strings, 0, 0, 0, 0, 1, 0},
  {"C27", "pairs", c27_pairs, 0, 0, 4, 5, 2, 0},
  {"C27", "long", c27_long, 0, 0, 0, 0, 2, 0},
  {"C27", "huge", c27_huge, 0, 0, 40, 46, 2, 0},
  {"C27", "sizes", c27_misc, 0, 0, 300, 3000, 1, 0},
  {0}
};
