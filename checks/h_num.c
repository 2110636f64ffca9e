/* C28, C29: decimal formatting for every 32-bit number; hashing. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "reactor.h"
#include "mc.h"

static void c28(void)
{
  uint64_t block = mc_choose(4096, "block of 2^20 values"), v, first = block << 20, end = first + (1 << 20);
  char ref[16], out[32], want[32];
  size_t len;
  int i;

  snprintf(ref, sizeof ref, "%llu", (unsigned long long) first);
  len = strlen(ref);
  for (v = first; v < end; v++)
  {
    size_t l = utility_u32_len((uint32_t) v);
    MC_CHECK(l == len, "length of %llu is given as %zu", (unsigned long long) v, l);
    memset(out, '#', sizeof out);
    memset(want, '#', sizeof want);
    memcpy(want + 8, ref, len);
    utility_u32_sprint((uint32_t) v, out + 8 + len);
    MC_CHECK(memcmp(out, want, sizeof out) == 0, "formatting %llu writes '%.32s'", (unsigned long long) v, out);
    memset(out, '#', sizeof out);
    want[8 + len] = 0;
    utility_u32_toa((uint32_t) v, out + 8);
    MC_CHECK(memcmp(out, want, sizeof out) == 0, "converting %llu writes '%.32s'", (unsigned long long) v, out);
    /* next number, in decimal */
    for (i = len - 1; i >= 0 && ref[i] == '9'; i--)
      ref[i] = '0';
    if (i < 0)
    {
      memmove(ref + 1, ref, len);
      ref[0] = '1';
      len++;
    }
    else
      ref[i]++;
  }
  mc_step();
  mc_state(block);
  mc_evals((1 << 20) - 1);
}

/* ---- reference: FarmHash na, written from its published definition ---- */
#define K0 0xc3a5c85c97cb3127ULL
#define K1 0xb492b66fbe98f273ULL
#define K2 0x9ae16a3b2f90404fULL
typedef uint64_t u64;
static u64 ld(const unsigned char *p, int n) { u64 v = 0; while (n--) v = v << 8 | p[n]; return v; }
static u64 ror(u64 v, int k) { return v >> k | v << (64 - k); }
static u64 mix(u64 v) { return v ^ v >> 47; }
static u64 h16(u64 u, u64 v, u64 m) { u64 a = mix((u ^ v) * m), b = mix((v ^ a) * m); return b * m; }
static void weak(const unsigned char *s, u64 a, u64 b, u64 o[2])
{
  u64 w = ld(s, 8), x = ld(s + 8, 8), y = ld(s + 16, 8), z = ld(s + 24, 8), c;
  a += w;
  b = ror(b + a + z, 21);
  c = a;
  a += x + y;
  b += ror(a, 44);
  o[0] = a + z;
  o[1] = b + c;
}
static u64 farm(const unsigned char *s, size_t n)
{
  u64 m = K2 + n * 2;
  if (n <= 16)
  {
    if (n >= 8)
    {
      u64 a = ld(s, 8) + K2, b = ld(s + n - 8, 8);
      return h16(ror(b, 37) * m + a, (ror(a, 25) + b) * m, m);
    }
    if (n >= 4)
      return h16(n + (ld(s, 4) << 3), ld(s + n - 4, 4), m);
    if (n)
    {
      uint32_t y = s[0] + ((uint32_t) s[n / 2] << 8), z = n + ((uint32_t) s[n - 1] << 2);
      return mix(y * K2 ^ z * K0) * K2;
    }
    return K2;
  }
  if (n <= 32)
  {
    u64 a = ld(s, 8) * K1, b = ld(s + 8, 8), c = ld(s + n - 8, 8) * m, d = ld(s + n - 16, 8) * K2;
    return h16(ror(a + b, 43) + ror(c, 30) + d, a + ror(b + K2, 18) + c, m);
  }
  if (n <= 64)
  {
    u64 a = ld(s, 8) * K2, b = ld(s + 8, 8), c = ld(s + n - 8, 8) * m, d = ld(s + n - 16, 8) * K2;
    u64 y = ror(a + b, 43) + ror(c, 30) + d, z = h16(y, a + ror(b + K2, 18) + c, m);
    u64 e = ld(s + 16, 8) * m, f = ld(s + 24, 8), g = (y + ld(s + n - 32, 8)) * m, h = (z + ld(s + n - 24, 8)) * m;
    return h16(ror(e + f, 43) + ror(g, 30) + h, e + ror(f + a, 18) + g, m);
  }
  u64 x = 81, y = 81 * K1 + 113, z = mix(y * K2 + 113) * K2, v[2] = {0, 0}, w[2] = {0, 0}, t;
  size_t blocks = (n - 1) / 64, i;
  const unsigned char *last = s + n - 64;
  x = x * K2 + ld(s, 8);
  for (i = 0; i < blocks; i++, s += 64)
  {
    x = ror(x + y + v[0] + ld(s + 8, 8), 37) * K1;
    y = ror(y + v[1] + ld(s + 48, 8), 42) * K1;
    x ^= w[1];
    y += v[0] + ld(s + 40, 8);
    z = ror(z + w[0], 33) * K1;
    weak(s, v[1] * K1, x + w[0], v);
    weak(s + 32, z + w[1], y + ld(s + 16, 8), w);
    t = z;
    z = x;
    x = t;
  }
  m = K1 + ((z & 0xff) << 1);
  s = last;
  w[0] += (n - 1) & 63;
  v[0] += w[0];
  w[0] += v[0];
  x = ror(x + y + v[0] + ld(s + 8, 8), 37) * m;
  y = ror(y + v[1] + ld(s + 48, 8), 42) * m;
  x ^= w[1] * 9;
  y += v[0] * 9 + ld(s + 40, 8);
  z = ror(z + w[0], 33) * m;
  weak(s, v[1] * m, x + w[0], v);
  weak(s + 32, z + w[1], y + ld(s + 16, 8), w);
  t = z;
  z = x;
  x = t;
  return h16(h16(v[0], w[0], m) + mix(y) * K0 + z, h16(v[1], w[1], m) + x, m);
}

static void pattern(unsigned char *p, size_t n, int k)
{
  size_t i;
  for (i = 0; i < n; i++)
    p[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? i * 37 + 11 : k == 3 ? (i * i * 13 + i / 7) : (unsigned char) (0x80 | i);
}

/* exact block at every alignment: memory before and after is inaccessible (AddressSanitizer) or different */
static void c29_length(void)
{
  size_t n = mc_choose(mc_param(), "length"), i;
  int k, a;
  unsigned char *p, *q;
  u64 want, got;

  p = malloc(n + 1);
  for (k = 0; k < 5; k++)
  {
    pattern(p, n, k);
    want = farm(p, n);
    for (a = 0; a < 17; a++)
    {
      q = malloc(n + a);
      memset(q, 0x41 + a, a);
      memcpy(q + a, p, n);
      got = hash_data(q + a, n);
      MC_CHECK(got == want, "hash of %zu bytes at alignment %d is %llx, should be %llx", n, a, (unsigned long long) got, (unsigned long long) want);
      free(q);
      mc_evals(1);
    }
    if (k == 4 || k == 1)
    {
      q = malloc(n + 1);
      memcpy(q, p, n);
      for (i = 0; i < n; i++)
        if (!q[i])
          q[i] = 1;
      q[n] = 0;
      MC_CHECK(hash_string((char *) q) == farm(q, n), "hash of a C string of length %zu", n);
      MC_CHECK(hash_string((char *) q) == hash_data(q, n), "string and data hash differ for length %zu", n);
      free(q);
    }
    mc_state(mc_mix(n, want));
  }
  /* every single byte counts */
  pattern(p, n, 2);
  for (i = 0; i < n; i++)
  {
    p[i] ^= 0x80;
    MC_CHECK(hash_data(p, n) == farm(p, n), "hash of %zu bytes with byte %zu changed", n, i);
    p[i] ^= 0x80;
    mc_evals(1);
  }
  mc_step();
  free(p);
}

static void c29_short(void)
{
  int n = mc_choose(mc_param() + 1, "length"), i, total = 1, k;
  unsigned char s[8] = {0};

  for (i = 0; i < n; i++)
    total *= n <= 2 ? 256 : 16;
  for (i = 0; i < total; i++)
  {
    for (k = 0; k < n; k++)
      s[k] = n <= 2 ? i >> (8 * k) : (i >> (4 * k) & 15) * 17;
    MC_CHECK(hash_data(s, n) == farm(s, n), "hash of a short string (length %d, number %d)", n, i);
  }
  mc_evals(total);
  mc_step();
  mc_state(n);
}

static u64 fmix(u64 v)
{
  v ^= v >> 33;
  v *= 0xff51afd7ed558ccdULL;
  v ^= v >> 33;
  v *= 0xc4ceb9fe1a85ec53ULL;
  return v ^ v >> 33;
}
static void c29_integer(void)
{
  u64 block = mc_choose(mc_param(), "block"), v;
  int i, j;

  for (v = block << 20; v < (block + 1) << 20; v++)
  {
    MC_CHECK(hash_uint64(v) == fmix(v), "integer hash of %llx", (unsigned long long) v);
    MC_CHECK(hash_uint64(v << 32) == fmix(v << 32), "integer hash of %llx", (unsigned long long) v << 32);
    MC_CHECK(hash_uint64(~v) == fmix(~v), "integer hash of %llx", (unsigned long long) ~v);
  }
  if (!block)
    for (i = 0; i < 64; i++)
      for (j = 0; j < 64; j++)
        MC_CHECK(hash_uint64(1ull << i | 1ull << j) == fmix(1ull << i | 1ull << j), "integer hash of bits %d %d", i, j);
  mc_evals(3 << 20);
  mc_step();
  mc_state(block);
}

const mc_scenario mc_scenarios[] = {
  {"C28", "all-values", c28, 0, 0, 0, 0, 1, 0},
  {"C29", "lengths", c29_length, 0, 0, 1101, 4200, 1, 0},
  {"C29", "short", c29_short, 0, 0, 5, 6, 1, 0},
  {"C29", "integer", c29_integer, 0, 0, 32, 1024, 1, 0},
  {0}
};
