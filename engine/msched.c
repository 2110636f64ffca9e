/* One baton: exactly one thread of the execution runs at any time.  A switch while the running thread could go on is a
 * preemption (a deviation of the explorer, bounded by the scenario's bound); a switch because it cannot go on is free.
 *
 * The library is compiled with -fsanitize=thread but linked against the hooks below instead of the sanitizer, and with
 * its thread and allocation functions renamed to the ones below (see VARIANTS["sched"] in props.py). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include "mc.h"
#include "sim.h"
#include "msched.h"

#define MAXT 340
#define MAXR 4096
#define SPIN 400      /* points one thread may pass without a switch while another can run */
#define POINTS 60000

typedef struct
{
  int         used, done, detached, joined, cancelled, cancel_off, cancel_async;
  void     *(*fn)(void *);
  void       *arg, *ret;
  int       (*ready)(void *);
  void       *rarg;
  int         wake_on_cancel;
  const char *what;
  sem_t       sem;
  uintptr_t   stack_lo, stack_hi;
  long        pos; /* scheduling points passed */
} thr;

typedef struct { uintptr_t p; size_t n; int state, lib, allow, by; const char *name; void *block; } region; /* state 1 live, 2 freed */

int sched_memory_points = 1;
uint64_t sched_state_base;
static thr T[MAXT];
static int nt, cur, active, nl_, nc_;
static region R[MAXR];
static int nr;
static long points, since;
static __thread int self_ = -1;

static int enabled(int t)
{
  if (!T[t].used || T[t].done)
    return 0;
  if (!T[t].ready)
    return 1;
  if (T[t].wake_on_cancel && T[t].cancelled && !T[t].cancel_off)
    return 1;
  return T[t].ready(T[t].rarg);
}

int sched_self(void) { return self_; }
int sched_created(void) { return nt; }
int sched_pending_cancel(void) { return T[self_].cancelled && !T[self_].cancel_off; }
int sched_alive(void)
{
  int i, n = 0;
  for (i = 0; i < nt; i++)
    n += !T[i].done;
  return n;
}

static void to(int t, int leave)
{
  int me = self_;
  since = 0;
  if (t == me)
    return;
  mc_note("        [thread %d runs]", t);
  cur = t;
  sem_post(&T[t].sem);
  if (leave)
    return;
  while (sem_wait(&T[me].sem) == -1)
    ;
}

/* the running thread cannot go on */
static void other(const char *what, int leave)
{
  int i, n = 0, c[MAXT], k;
  for (i = 0; i < nt; i++)
    if (i != self_ && enabled(i))
      c[n++] = i;
  if (!n)
  {
    if (leave)
      mc_fail("deadlock: thread %d has ended and every other thread waits (thread 0: %s)", self_, T[0].what ? T[0].what : "?");
    mc_fail("deadlock: thread %d waits for ever: %s", self_, what);
  }
  k = n > 1 ? mc_choose(n, what) : 0;
  to(c[k], leave);
}

void sched_block(int (*ready)(void *), void *arg, int cancellable, const char *what)
{
  thr *t = &T[self_];
  if (!active)
    return;
  for (;;)
  {
    if (cancellable && t->cancelled && !t->cancel_off)
      break;
    if (ready(arg))
      break;
    t->ready = ready;
    t->rarg = arg;
    t->wake_on_cancel = cancellable;
    t->what = what;
    other(what, 0);
    t->ready = NULL;
  }
  t->ready = NULL;
  if (cancellable)
    sched_cancel_point(what);
}

void sched_point(const char *what)
{
  int i, n = 0, c[MAXT], k;

  if (!active || self_ < 0)
    return;
  if (++points > POINTS)
    mc_fail("the threads do not come to rest (%s)", what);
  T[self_].pos++;
  mc_step();
  for (i = 0; i < nt; i++)
    if (i != self_ && enabled(i))
      c[n++] = i;
  if (!n)
    return;
  {
    /* how far each thread has come */
    uint64_t h = sched_state_base;
    for (i = 0; i < nt; i++)
      h = mc_mix(h, T[i].pos << 2 | T[i].done << 1 | T[i].cancelled);
    mc_state(mc_mix(h, self_));
  }
  if (++since > SPIN)
  {
    /* waiting for another thread by looking again and again */
    since = 0;
    to(c[0], 0);
    return;
  }
  k = mc_dev(n + 1, what);
  if (k)
    to(c[k - 1], 0);
  if (T[self_].cancel_async && T[self_].cancelled && !T[self_].cancel_off)
    pthread_exit(PTHREAD_CANCELED);
}

static void yield(const char *what)
{
  int i;
  if (!active || self_ < 0)
    return;
  if (++points > POINTS)
    mc_fail("the threads do not come to rest (%s)", what);
  for (i = 1; i < nt; i++)
    if (enabled((self_ + i) % nt))
    {
      to((self_ + i) % nt, 0);
      return;
    }
}

void sched_cancel_point(const char *what)
{
  if (!active || self_ < 0)
    return;
  sched_point(what);
  if (self_ > 0 && T[self_].cancelled && !T[self_].cancel_off)
  {
    mc_note("        [thread %d ends: cancelled in %s]", self_, what);
    pthread_exit(PTHREAD_CANCELED);
  }
}

static int owner_wakes(void *p) { return sim_ready_on((int) (intptr_t) p); }
static int on_block(int epfd)
{
  if (sim_ready_on(epfd))
    return 0;
  sched_block(owner_wakes, (void *) (intptr_t) epfd, 0, "epoll_wait");
  return 0;
}
static void on_call(const char *name, int fd)
{
  static const char *const cancellable[] = {"read", "write", "close", "epoll_wait", "accept", "accept4", "connect", "getaddrinfo", "open", "recv", "send", "recvmsg", "sendmsg", "readv", "writev", "poll", "fsync", NULL};
  int i;
  (void) fd;
  if (sched_alive() < 2)
    return;
  for (i = 0; cancellable[i]; i++)
    if (!strcmp(name, cancellable[i]))
    {
      sched_cancel_point(name);
      return;
    }
  sched_point(name);
}

static void bounds(thr *t)
{
  pthread_attr_t a;
  void *lo;
  size_t n;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &lo, &n);
  pthread_attr_destroy(&a);
  t->stack_lo = (uintptr_t) lo;
  t->stack_hi = (uintptr_t) lo + n;
}

void sched_begin(void)
{
  int i;
  static int once;
  if (!once)
  {
    /* all threads of one execution on one processor: handing over is cheap */
    cpu_set_t have, want;
    int k, n, c = 0;
    mc_worker(&k, &n);
    if (n > 1 && sched_getaffinity(0, sizeof have, &have) == 0 && CPU_COUNT(&have) > 1)
    {
      k %= CPU_COUNT(&have);
      for (c = 0; c < CPU_SETSIZE; c++)
        if (CPU_ISSET(c, &have) && k-- == 0)
          break;
      CPU_ZERO(&want);
      CPU_SET(c, &want);
      (void) sched_setaffinity(0, sizeof want, &want);
    }
  }
  memset(T, 0, sizeof T[0]);
  nt = 1;
  cur = 0;
  self_ = 0;
  T[0].used = 1;
  if (!once)
  {
    bounds(&T[0]);
    once = 1;
  }
  else
    bounds(&T[0]);
  sem_init(&T[0].sem, 0, 0);
  nr = nl_ = nc_ = 0;
  points = since = 0;
  active = 1;
  sim_on_block = on_block;
  sim_on_call = on_call;
  mc_no_longjmp(1);
}

static int all_done(void *p)
{
  int i;
  (void) p;
  for (i = 1; i < nt; i++)
    if (!T[i].done)
      return 0;
  return 1;
}

long sched_heap(void)
{
  long n = 0;
  int i;
  for (i = 0; i < nr; i++)
    n += R[i].state == 1 && R[i].lib;
  return n;
}

void sched_end(int leaks)
{
  int i;
  sched_block(all_done, NULL, 0, "the remaining threads to end");
  active = 0;
  for (i = 1; i < nt; i++)
    MC_CHECK(!leaks || T[i].detached || T[i].joined, "thread %d is never joined", i);
  if (leaks)
    for (i = 0; i < nr; i++)
      MC_CHECK(R[i].state != 1 || !R[i].lib, "%ld heap blocks of the library are left", sched_heap());
  for (i = 0; i < nr; i++)
    free(R[i].block);
  nr = 0;
  sim_on_block = NULL;
  sim_on_call = NULL;
  mc_no_longjmp(0);
}

/* ---- threads ---- */
static void ended(void *p)
{
  thr *t = p;
  t->done = 1;
  mc_note("        [thread %d has ended]", self_);
  other("a thread has ended", 1);
}

static void *start(void *p)
{
  thr *t = p;
  self_ = t - T;
  bounds(t);
  while (sem_wait(&t->sem) == -1)
    ;
  pthread_cleanup_push(ended, t);
  t->ret = t->fn(t->arg);
  pthread_cleanup_pop(1);
  return NULL;
}

static int spawn(pthread_t *out, int detached, void *(*fn)(void *), void *arg)
{
  pthread_attr_t a;
  pthread_t id;
  thr *t;

  if (nt == MAXT)
    mc_error("too many threads");
  t = &T[nt];
  memset(t, 0, sizeof *t);
  sem_init(&t->sem, 0, 0);
  t->used = 1;
  t->fn = fn;
  t->arg = arg;
  t->detached = detached;
  *out = (pthread_t) (nt + 1);
  nt++;
  pthread_attr_init(&a);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  pthread_attr_setstacksize(&a, 512 << 10);
  if (pthread_create(&id, &a, start, t))
    mc_error("pthread_create");
  pthread_attr_destroy(&a);
  return 0;
}

int sched_spawn(void *(*fn)(void *), void *arg, const char *name)
{
  pthread_t id;
  (void) name;
  spawn(&id, 1, fn, arg);
  return (int) id - 1;
}

static thr *which(pthread_t id, const char *what)
{
  long k = (long) id - 1;
  if (k < 0 || k >= nt)
    mc_fail("%s: there is no such thread", what);
  return &T[k];
}

int sched_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
  int s = PTHREAD_CREATE_JOINABLE;
  if (attr)
    pthread_attr_getdetachstate(attr, &s);
  spawn(out, s == PTHREAD_CREATE_DETACHED, fn, arg);
  mc_note("      thread %d is created%s", nt - 1, s == PTHREAD_CREATE_DETACHED ? ", detached" : "");
  sched_point("thread created");
  return 0;
}

static int thr_done(void *p) { return ((thr *) p)->done; }

int sched_pthread_join(pthread_t id, void **ret)
{
  thr *t = which(id, "pthread_join");
  MC_CHECK(!t->detached, "pthread_join of a detached thread");
  MC_CHECK(!t->joined, "pthread_join of a thread that was joined before");
  MC_CHECK(t != &T[self_], "a thread joins itself");
  sched_cancel_point("join");
  sched_block(thr_done, t, self_ > 0, "join");
  t->joined = 1;
  if (ret)
    *ret = t->ret;
  return 0;
}
int sched_pthread_tryjoin_np(pthread_t id, void **ret)
{
  thr *t = which(id, "pthread_tryjoin_np");
  MC_CHECK(!t->detached && !t->joined, "pthread_tryjoin_np of a detached or joined thread");
  yield("tryjoin");
  if (!t->done)
    return EBUSY;
  return sched_pthread_join(id, ret);
}
int sched_pthread_detach(pthread_t id)
{
  thr *t = which(id, "pthread_detach");
  MC_CHECK(!t->detached && !t->joined, "pthread_detach of a detached or joined thread");
  sched_point("detach");
  t->detached = 1;
  return 0;
}
int sched_pthread_cancel(pthread_t id)
{
  thr *t = which(id, "pthread_cancel");
  sched_point("cancel");
  MC_CHECK(!t->joined && !(t->detached && t->done), "pthread_cancel of a thread that does not exist any more");
  mc_note("      thread %d is cancelled", (int) (t - T));
  if (!t->done)
    t->cancelled = 1;
  sched_point("cancelled");
  return 0;
}
int sched_pthread_kill(pthread_t id, int sig)
{
  thr *t = which(id, "pthread_kill");
  MC_CHECK(!t->joined && !(t->detached && t->done), "pthread_kill of a thread that does not exist any more");
  MC_CHECK(sig == 0, "pthread_kill with a signal");
  sched_point("kill");
  return t->done ? ESRCH : 0;
}
void sched_pthread_exit(void *ret)
{
  T[self_].ret = ret;
  pthread_exit(ret);
}
pthread_t sched_pthread_self(void) { return (pthread_t) (self_ + 1); }
int sched_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_pthread_setcancelstate(int state, int *old)
{
  if (old)
    *old = T[self_].cancel_off ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
  T[self_].cancel_off = state == PTHREAD_CANCEL_DISABLE;
  return 0;
}
int sched_pthread_setcanceltype(int type, int *old)
{
  if (old)
    *old = T[self_].cancel_async ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED;
  T[self_].cancel_async = type == PTHREAD_CANCEL_ASYNCHRONOUS;
  return 0;
}
void sched_pthread_testcancel(void) { sched_cancel_point("testcancel"); }
int sched_sched_yield(void) { yield("yield"); return 0; }
int sched_usleep(unsigned us) { (void) us; if (self_ > 0) sched_cancel_point("usleep"); yield("usleep"); return 0; }
int sched_nanosleep(const struct timespec *a, struct timespec *b) { (void) a; (void) b; if (self_ > 0) sched_cancel_point("nanosleep"); yield("nanosleep"); return 0; }

/* locks: the owner is kept beside the (untouched) object */
#define MAXL 64
static struct { void *m; int owner; } L[MAXL];
static int *lock_of(void *m)
{
  int i;
  for (i = 0; i < nl_; i++)
    if (L[i].m == m)
      return &L[i].owner;
  if (nl_ == MAXL)
    mc_error("locks");
  L[nl_].m = m;
  L[nl_].owner = -1;
  return &L[nl_++].owner;
}
static int unlocked(void *p) { return *(int *) p < 0; }
int sched_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) a; sched_check(m, sizeof *m, "mutex"); *lock_of(m) = -1; return 0; }
int sched_pthread_mutex_destroy(pthread_mutex_t *m) { sched_check(m, sizeof *m, "mutex"); *lock_of(m) = -1; return 0; }
int sched_pthread_mutex_lock(pthread_mutex_t *m)
{
  int *o = lock_of(m);
  sched_point("lock");
  sched_check(m, sizeof *m, "mutex");
  sched_block(unlocked, o, 0, "lock");
  *o = self_;
  return 0;
}
int sched_pthread_mutex_trylock(pthread_mutex_t *m)
{
  int *o = lock_of(m);
  sched_point("trylock");
  sched_check(m, sizeof *m, "mutex");
  if (*o >= 0)
    return EBUSY;
  *o = self_;
  return 0;
}
int sched_pthread_mutex_unlock(pthread_mutex_t *m)
{
  int *o = lock_of(m);
  sched_check(m, sizeof *m, "mutex");
  MC_CHECK(*o == self_, "a lock is released by a thread that does not hold it");
  *o = -1;
  sched_point("unlock");
  return 0;
}
static struct { void *c; unsigned n; } C[MAXL];
static unsigned *cond_of(void *c)
{
  int i;
  for (i = 0; i < nc_; i++)
    if (C[i].c == c)
      return &C[i].n;
  if (nc_ == MAXL)
    mc_error("conditions");
  C[nc_].c = c;
  C[nc_].n = 0;
  return &C[nc_++].n;
}
struct waiting { unsigned *n, at; };
static int signalled(void *p) { struct waiting *w = p; return *w->n != w->at; }
int sched_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) a; (void) cond_of(c); return 0; }
int sched_pthread_cond_destroy(pthread_cond_t *c) { (void) c; return 0; }
int sched_pthread_cond_signal(pthread_cond_t *c) { sched_check(c, sizeof *c, "condition"); ++*cond_of(c); sched_point("signal"); return 0; }
int sched_pthread_cond_broadcast(pthread_cond_t *c) { return sched_pthread_cond_signal(c); }
int sched_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  struct waiting w = {cond_of(c), *cond_of(c)};
  int *o = lock_of(m);
  *o = -1;
  sched_block(signalled, &w, 0, "condition");
  sched_block(unlocked, o, 0, "lock");
  *o = self_;
  return 0;
}

/* ---- memory ---- */
static region *add(void *p, size_t n, int lib, const char *name)
{
  region *r;
  if (nr == MAXR)
    mc_error("too many blocks");
  r = &R[nr++];
  *r = (region) {.p = (uintptr_t) p, .n = n, .state = 1, .lib = lib, .name = name, .block = p, .by = -1};
  return r;
}
static region *at(void *p)
{
  int i;
  for (i = nr - 1; i >= 0; i--)
    if (R[i].p == (uintptr_t) p)
      return &R[i];
  return NULL;
}
void *sched_malloc(size_t n)
{
  void *p = malloc(n ? n : 1);
  if (!active)
    return p;
  memset(p, 0xa5, n);
  add(p, n ? n : 1, 1, "heap block");
  return p;
}
void sched_free(void *p)
{
  region *r = p ? at(p) : NULL;
  if (!p)
    return;
  if (!r)
  {
    free(p);
    return;
  }
  MC_CHECK(r->state == 1, "a %s is freed twice", r->name);
  r->state = 2;
  r->by = self_;
}
void *sched_calloc(size_t a, size_t b)
{
  void *p = sched_malloc(a * b);
  memset(p, 0, a * b);
  return p;
}
void *sched_realloc(void *p, size_t n)
{
  region *r = p ? at(p) : NULL;
  void *q;
  if (p && !r)
    return realloc(p, n);
  q = sched_malloc(n);
  if (r)
  {
    MC_CHECK(r->state == 1, "a freed %s is reallocated", r->name);
    memcpy(q, p, r->n < n ? r->n : n);
    sched_free(p);
  }
  return q;
}
char *sched_strdup(const char *s)
{
  size_t n = strlen(s) + 1;
  sched_check(s, n, "strdup");
  return memcpy(sched_malloc(n), s, n);
}
char *sched_strndup(const char *s, size_t m)
{
  size_t n = strnlen(s, m);
  char *p = sched_malloc(n + 1);
  sched_check(s, n, "strndup");
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
void *sched_new(size_t n, const char *name)
{
  void *p = malloc(n);
  memset(p, 0xa5, n);
  add(p, n, 0, name);
  return p;
}
void sched_delete(void *p)
{
  region *r = at(p);
  r->state = 2;
  r->by = self_;
}
void sched_fence_off(void *p, int allow)
{
  region *r = at(p);
  if (r)
    r->allow = allow;
}
void sched_check(const void *p, size_t n, const char *what)
{
  uintptr_t a = (uintptr_t) p;
  int i;

  for (i = 0; i < nr; i++)
    if (a < R[i].p + R[i].n && a + n > R[i].p)
    {
      MC_CHECK(R[i].state == 1, "thread %d uses a %s freed by thread %d (%s)", self_, R[i].name, R[i].by, what);
      MC_CHECK(self_ <= 0 || self_ >= R[i].allow, "thread %d still uses the %s it has been called off from (%s)", self_, R[i].name, what);
      MC_CHECK(a >= R[i].p && a + n <= R[i].p + R[i].n, "thread %d leaves the bounds of a %s (%s)", self_, R[i].name, what);
    }
}

extern char __data_start, _end;
static void touch(void *p, size_t n, const char *what)
{
  uintptr_t a = (uintptr_t) p, tp = (uintptr_t) __builtin_thread_pointer();

  if (!active || self_ < 0)
    return;
  if ((a >= T[self_].stack_lo && a < T[self_].stack_hi) || (a >= tp - 16384 && a < tp + 4096))
    return;
  if (sched_memory_points == 1 || (sched_memory_points == 2 && a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end))
    sched_point(what);
  sched_check(p, n, what);
}

#define RW(n) \
  void __tsan_read##n(void *p) { touch(p, n, "read"); } \
  void __tsan_write##n(void *p) { touch(p, n, "write"); } \
  void __tsan_unaligned_read##n(void *p) { touch(p, n, "read"); } \
  void __tsan_unaligned_write##n(void *p) { touch(p, n, "write"); } \
  void __tsan_volatile_read##n(void *p) { touch(p, n, "read"); } \
  void __tsan_volatile_write##n(void *p) { touch(p, n, "write"); } \
  void __tsan_unaligned_volatile_read##n(void *p) { touch(p, n, "read"); } \
  void __tsan_unaligned_volatile_write##n(void *p) { touch(p, n, "write"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { touch(p, n, "read"); }
void __tsan_write_range(void *p, long n) { touch(p, n, "write"); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
void __tsan_atomic_thread_fence(int o) { (void) o; }
void __tsan_atomic_signal_fence(int o) { (void) o; }
#define AT(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type *p, int o) { (void) o; touch((void *) p, sizeof *p, "atomic"); return *p; } \
  void __tsan_atomic##bits##_store(volatile type *p, type v, int o) { (void) o; touch((void *) p, sizeof *p, "atomic"); *p = v; } \
  type __tsan_atomic##bits##_exchange(volatile type *p, type v, int o) { type r; (void) o; touch((void *) p, sizeof *p, "atomic"); r = *p; *p = v; return r; } \
  type __tsan_atomic##bits##_fetch_add(volatile type *p, type v, int o) { type r; (void) o; touch((void *) p, sizeof *p, "atomic"); r = *p; *p = r + v; return r; } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v, int o) { type r; (void) o; touch((void *) p, sizeof *p, "atomic"); r = *p; *p = r - v; return r; } \
  type __tsan_atomic##bits##_fetch_and(volatile type *p, type v, int o) { type r; (void) o; touch((void *) p, sizeof *p, "atomic"); r = *p; *p = r & v; return r; } \
  type __tsan_atomic##bits##_fetch_or(volatile type *p, type v, int o) { type r; (void) o; touch((void *) p, sizeof *p, "atomic"); r = *p; *p = r | v; return r; } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v, int o) { type r; (void) o; touch((void *) p, sizeof *p, "atomic"); r = *p; *p = r ^ v; return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *e, type v, int o, int f) { (void) o; (void) f; touch((void *) p, sizeof *p, "atomic"); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *e, type v, int o, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, f); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *p, type e, type v, int o, int f) { type r; (void) o; (void) f; touch((void *) p, sizeof *p, "atomic"); r = *p; if (r == e) *p = v; return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

/* library calls that touch memory outside instrumented code */
void *sched_memcpy(void *d, const void *s, size_t n) { if (n) { touch(d, n, "memcpy"); touch((void *) s, n, "memcpy"); } return memcpy(d, s, n); }
void *sched_memmove(void *d, const void *s, size_t n) { if (n) { touch(d, n, "memmove"); touch((void *) s, n, "memmove"); } return memmove(d, s, n); }
void *sched_memset(void *d, int c, size_t n) { if (n) touch(d, n, "memset"); return memset(d, c, n); }
