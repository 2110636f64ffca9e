/* Stateless bounded-exhaustive explorer.
 *
 * A scenario is a C function that performs one complete execution of the code under test and asks
 * mc_choose()/mc_dev() for every nondeterministic decision.  The explorer enumerates, depth first, all
 * sequences of answers (mc_dev answers other than 0 are limited to a deviation bound), splitting the tree
 * over worker processes by the hash of the first few answers.  Every answer is recorded in shared memory
 * before it is used, so that an execution that crashes or hangs leaves its complete schedule behind.
 * A failing schedule is replayed (twice, in fresh processes) before it is reported; a schedule whose replay
 * asks for a different number of alternatives than recorded is an engine error, never a report. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include "mc.h"

#ifndef MAXTRACE
#define MAXTRACE 16384
#endif
#define MAXWORKERS 64
#define NSAMPLES 4
#define STATE_BITS 24

typedef struct { uint16_t c, n; uint8_t dev; } tr;

typedef struct
{
  volatile int      done;
  volatile int      status; /* 0 running/ok, 1 violation, 2 engine error */
  volatile uint64_t execs, steps, evals, pruned, skipped, redone;
  volatile uint64_t maxlen;
  volatile uint64_t beat;
  char              msg[4096];
  volatile uint32_t len;
  tr                trace[MAXTRACE];
  uint32_t          slen[NSAMPLES];
  tr                strace[NSAMPLES][MAXTRACE];
} wshm;

typedef struct
{
  volatile uint64_t states, outcomes;
  volatile int      stop;
  volatile int      known;
  char              known_key[8][64];
  char              known_msg[8][512];
  uint64_t          set[1u << STATE_BITS];
  uint64_t          oset[1u << 20];
} gshm;

static gshm *g;
static wshm *ws;   /* all workers */
static wshm *w;    /* mine */
static int widx, wcount = 1;
static const mc_scenario *sc;
static int thorough, verbose, bound, param, nolongjmp;
static tr stack[MAXTRACE];
static int prefix, pos;
static int replaying;
static jmp_buf env;
static uint64_t outcome;
static int shard_depth, shard_mine;
static FILE *vout;

/* ---- allocation accounting ---- */
static long live_blocks, live_bytes;
#if defined(__SANITIZE_ADDRESS__)
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *);
static void on_malloc(const volatile void *p, size_t n) { if (p) { __atomic_fetch_add(&live_blocks, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&live_bytes, (long) n, __ATOMIC_RELAXED); } }
static void on_free(const volatile void *p) { if (p) { __atomic_fetch_sub(&live_blocks, 1, __ATOMIC_RELAXED); __atomic_fetch_sub(&live_bytes, (long) __sanitizer_get_allocated_size(p), __ATOMIC_RELAXED); } }
const char *__asan_default_options(void)
{
  return "detect_leaks=0:exitcode=99:abort_on_error=0:quarantine_size_mb=16:malloc_context_size=6:"
         "detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:print_legend=0:"
         "max_free_fill_size=64:max_malloc_fill_size=256:malloc_fill_byte=165:allow_user_segv_handler=1";
}
static void hooks(void) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
#else
static void hooks(void) {}
#endif
long mc_mem_live(void) { return live_blocks; }
long mc_mem_bytes(void) { return live_bytes; }

int mc_param(void) { return param; }
int mc_thorough(void) { return thorough; }
int mc_verbose(void) { return verbose; }
void mc_worker(int *i, int *n) { *i = widx; *n = wcount; }
void mc_no_longjmp(int on) { nolongjmp = on; }
void mc_step(void) { w->steps++; }
void mc_steps(uint64_t n) { w->steps += n; }
void mc_evals(uint64_t n) { w->evals += n; }
void mc_outcome(uint64_t h) { outcome = mc_mix(outcome, h); }

static int set_add(uint64_t *set, unsigned bits, volatile uint64_t *count, uint64_t h)
{
  uint64_t m = (1ull << bits) - 1, i, v;
  int k;

  if (!h)
    h = 1;
  for (i = h & m, k = 0; k < 64; i = (i + 1) & m, k++)
  {
    v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
    if (v == h)
      return 0;
    if (!v)
    {
      if (__atomic_compare_exchange_n(&set[i], &v, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
      {
        __atomic_fetch_add(count, 1, __ATOMIC_RELAXED);
        return 1;
      }
      if (v == h)
        return 0;
    }
  }
  return 0; /* saturated: counted as a lower bound */
}

int mc_state(uint64_t h) { return set_add(g->set, STATE_BITS, &g->states, h); }

void mc_note_(const char *fmt, ...)
{
  va_list ap;

  if (!vout)
    return;
  va_start(ap, fmt);
  vfprintf(vout, fmt, ap);
  va_end(ap);
  fputc('\n', vout);
  fflush(vout);
}

void mc_fail(const char *fmt, ...)
{
  va_list ap;

  va_start(ap, fmt);
  vsnprintf(w->msg, sizeof w->msg, fmt, ap);
  va_end(ap);
  w->status = 1;
  if (vout)
    mc_note_("FAIL: %s", w->msg);
  _exit(1);
}

/* keys of known findings accepted on this tree (environment MC_KNOWN, space separated) */
void mc_known(const char *key, const char *fmt, ...)
{
  char buf[512], pat[80];
  const char *list = getenv("MC_KNOWN");
  va_list ap;
  int i;

  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  snprintf(pat, sizeof pat, " %s ", key);
  if (!list || !strstr(list, pat))
    mc_fail("%s", buf);
  for (i = 0; i < g->known && i < 8; i++)
    if (!strcmp(g->known_key[i], key))
      break;
  if (i == g->known && i < 8)
  {
    snprintf(g->known_key[i], 64, "%s", key);
    snprintf(g->known_msg[i], 512, "%s", buf);
    g->known = i + 1;
  }
  if (nolongjmp)
    mc_error("mc_known while several threads run");
  longjmp(env, 3);
}

void mc_error(const char *fmt, ...)
{
  va_list ap;

  va_start(ap, fmt);
  vsnprintf(w->msg, sizeof w->msg, fmt, ap);
  va_end(ap);
  w->status = 2;
  if (vout)
    mc_note_("ENGINE ERROR: %s", w->msg);
  _exit(2);
}

void mc_prune(void)
{
  if (nolongjmp)
    mc_error("prune while several threads run");
  longjmp(env, 1);
}

static int next(int n, int isdev, const char *label)
{
  int c;

  if (n <= 0)
    mc_error("choice with %d alternatives (%s)", n, label);
  if (pos >= MAXTRACE - 1)
    mc_error("trace too long (%s)", label);
  if (pos < prefix)
  {
    if (stack[pos].n != n || stack[pos].dev != isdev)
    {
      w->len = pos;
      mc_error("replay diverged at choice %d (%s): %d alternatives, recorded %d", pos, label, n, stack[pos].n);
    }
    c = stack[pos].c;
  }
  else
  {
    if (replaying && replaying != 3)
    {
      /* a recorded schedule is complete: it may only be extended by default answers after a crash point */
      c = 0;
    }
    else
      c = 0;
    stack[pos].c = 0;
    stack[pos].n = n;
    stack[pos].dev = isdev;
  }
  w->trace[pos] = stack[pos];
  pos++;
  w->len = pos;
  if (verbose && n > 1)
    mc_note_("  [%d] %s: %d of %d%s", pos - 1, label, c, n, isdev ? " (deviation point)" : "");
  if (!replaying && wcount > 1 && pos == shard_depth)
  {
    uint64_t h = 77;
    int i;
    for (i = 0; i < pos; i++)
      h = mc_mix(h, stack[i].c);
    shard_mine = (int) (h % (uint64_t) wcount) == widx;
    if (!shard_mine)
    {
      if (nolongjmp)
        mc_error("shard point reached while several threads run: lower .shard");
      longjmp(env, 2);
    }
  }
  return c;
}

int mc_choose(int n, const char *label) { return next(n, 0, label); }
int mc_dev(int n, const char *label) { return next(n, 1, label); }

/* advance stack to the next sequence; 0 when exhausted */
static int advance(void)
{
  int i, d, used[1];

  (void) used;
  /* deviations used before each position */
  static int before[MAXTRACE + 1];
  d = 0;
  for (i = 0; i < pos; i++)
  {
    before[i] = d;
    if (stack[i].dev && stack[i].c)
      d++;
  }
  for (i = pos - 1; i >= 0; i--)
    if (stack[i].c + 1 < stack[i].n && (!stack[i].dev || before[i] + 1 <= bound))
    {
      stack[i].c++;
      prefix = i + 1;
      return 1;
    }
  return 0;
}

static void explore(void)
{
  int r;
  uint64_t first;

  prefix = 0;
  for (;;)
  {
    pos = 0;
    outcome = 0xabcdef;
    shard_mine = -1;
    w->beat++;
    r = setjmp(env);
    if (r == 0)
    {
      sc->run();
      if (pos < prefix)
        mc_error("execution ended after %d choices, recorded %d", pos, prefix);
      if (wcount > 1 && shard_mine < 0)
      {
        uint64_t h = 77;
        int i;
        for (i = 0; i < pos; i++)
          h = mc_mix(h, stack[i].c);
        shard_mine = (int) (h % (uint64_t) wcount) == widx;
      }
      if (shard_mine)
      {
        w->execs++;
        if ((uint64_t) pos > w->maxlen)
        {
          w->maxlen = pos;
          w->slen[NSAMPLES - 1] = pos;
          memcpy(w->strace[NSAMPLES - 1], stack, pos * sizeof *stack);
        }
        if (w->execs == 1 || w->execs == 37 || w->execs == 1009)
        {
          int k = w->execs == 1 ? 0 : w->execs == 37 ? 1 : 2;
          w->slen[k] = pos;
          memcpy(w->strace[k], stack, pos * sizeof *stack);
        }
        set_add(g->oset, 20, &g->outcomes, outcome);
        /* determinism: every 4096th execution, and the first, is run again and must observe the same */
        if (w->execs == 1 || (w->execs & 4095) == 0)
        {
          int p = pos;
          first = outcome;
          prefix = pos;
          pos = 0;
          outcome = 0xabcdef;
          replaying = 3;
          w->redone++;
          r = setjmp(env);
          if (r == 0)
            sc->run();
          replaying = 0;
          if (pos != p || outcome != first)
            mc_error("execution is not deterministic (%d/%d choices)", pos, p);
        }
      }
    }
    else if (r == 1 || r == 3)
      w->pruned++;
    else
      w->skipped++;
    if (g->stop)
      break;
    if (!advance())
      break;
  }
}

/* ---- replay ---- */

static void write_trace(FILE *f, const char *msg, const char *extra, const tr *t, int len)
{
  int i;

  fprintf(f, "property %s\nscenario %s\ntier %s\nbound %d\nparam %d\n", sc->property, sc->name, thorough ? "thorough" : "quick", bound, param);
  fprintf(f, "trace %d", len);
  for (i = 0; i < len; i++)
    fprintf(f, " %d/%d%s", t[i].c, t[i].n, t[i].dev ? "d" : "");
  fprintf(f, "\n---\n%s\n", msg);
  if (extra)
    fputs(extra, f);
}

static int limit_s = 60;

/* run one trace in a child; returns 0 passed, 1 violation, 2 engine error, 3 crash, 4 hang */
static int run_child(const tr *t, int len, FILE *out, char *msg, size_t msg_size)
{
  pid_t pid;
  int st, i;

  ws[MAXWORKERS].status = 0;
  ws[MAXWORKERS].msg[0] = 0;
  fflush(NULL);
  pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    w = &ws[MAXWORKERS];
    widx = 0;
    wcount = 1;
    replaying = 1;
    verbose = out != NULL;
    vout = out;
    if (out)
    {
      dup2(fileno(out), 2);
    }
    memcpy(stack, t, len * sizeof *t);
    prefix = len;
    pos = 0;
    i = setjmp(env);
    if (i == 0)
      sc->run();
    if (out)
      fflush(out);
    _exit(0);
  }
  for (i = 0; i < limit_s * 100; i++)
  {
    if (waitpid(pid, &st, WNOHANG) == pid)
      goto done;
    usleep(10000);
  }
  kill(pid, SIGKILL);
  waitpid(pid, &st, 0);
  snprintf(msg, msg_size, "execution does not terminate (no end after %d s, run alone)", limit_s);
  return 4;
done:
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && ws[MAXWORKERS].status == 1)
  {
    snprintf(msg, msg_size, "%s", ws[MAXWORKERS].msg);
    return 1;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 2 && ws[MAXWORKERS].status == 2)
  {
    snprintf(msg, msg_size, "%s", ws[MAXWORKERS].msg);
    return 2;
  }
  if (WIFSIGNALED(st))
    snprintf(msg, msg_size, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else if (WEXITSTATUS(st) == 99)
    snprintf(msg, msg_size, "AddressSanitizer: invalid memory access (see report)");
  else
    snprintf(msg, msg_size, "process exited with status %d", WEXITSTATUS(st));
  return 3;
}

static double now_s(void)
{
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

static void json_str(FILE *f, const char *s)
{
  fputc('"', f);
  for (; *s; s++)
    if (*s == '"' || *s == '\\')
      fprintf(f, "\\%c", *s);
    else if (*s == '\n')
      fputs("\\n", f);
    else if ((unsigned char) *s < 32 || (unsigned char) *s > 126)
      fprintf(f, "\\u%04x", (unsigned char) *s);
    else
      fputc(*s, f);
  fputc('"', f);
}

static char *slurp(FILE *f)
{
  long n;
  char *s;
  fflush(f);
  fseek(f, 0, SEEK_END);
  n = ftell(f);
  if (n > 60000)
    n = 60000;
  rewind(f);
  s = calloc(1, n + 1);
  n = fread(s, 1, n, f);
  s[n] = 0;
  return s;
}

static uint64_t tot_states;

static int run_scenario(const char *outdir, FILE *json, int workers, double max_s)
{
  pid_t pid[MAXWORKERS];
  double t0 = now_s(), last[MAXWORKERS];
  uint64_t beat[MAXWORKERS], steps[MAXWORKERS];
  int i, st, alive, failed = -1, how = 0, capped = 0, rc = 0;
  uint64_t execs = 0, stp = 0, evals = 0, pruned = 0, redone = 0, maxlen = 0;
  char msg[24000] = "", path[4096];

  bound = thorough ? sc->t_bound : sc->q_bound;
  param = thorough ? sc->t_param : sc->q_param;
  shard_depth = sc->shard ? sc->shard : 4;
  if (sc->flags & MC_SINGLE)
    workers = 1;
  memset(ws, 0, sizeof(wshm) * (MAXWORKERS + 1));
  munmap(g, sizeof *g);
  g = mmap(NULL, sizeof *g, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g == MAP_FAILED)
  {
    perror("mmap");
    return 2;
  }
  fflush(NULL);
  for (i = 0; i < workers; i++)
  {
    pid[i] = fork();
    if (pid[i] == 0)
    {
      int fd;
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      dup2(fd, 1);
      widx = i;
      wcount = workers;
      w = &ws[i];
      explore();
      w->done = 1;
      _exit(0);
    }
    last[i] = now_s();
    beat[i] = steps[i] = ~0ull;
  }
  alive = workers;
  while (alive)
  {
    int any = 0;
    for (i = 0; i < workers; i++)
    {
      if (!pid[i])
        continue;
      if (waitpid(pid[i], &st, WNOHANG) == pid[i])
      {
        any = 1;
        alive--;
        pid[i] = 0;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && ws[i].done) && failed < 0)
        {
          failed = i;
          how = ws[i].status == 2 ? 2 : 1;
        }
        continue;
      }
      if (ws[i].beat != beat[i] || ws[i].steps != steps[i])
      {
        beat[i] = ws[i].beat;
        steps[i] = ws[i].steps;
        last[i] = now_s();
      }
      else if (now_s() - last[i] > 20 && failed < 0)
      {
        kill(pid[i], SIGKILL);
        waitpid(pid[i], &st, 0);
        pid[i] = 0;
        alive--;
        failed = i;
        how = 3;
      }
    }
    if (failed >= 0)
    {
      g->stop = 1;
      for (i = 0; i < workers; i++)
        if (pid[i])
        {
          kill(pid[i], SIGKILL);
          waitpid(pid[i], &st, 0);
          pid[i] = 0;
          alive--;
        }
      break;
    }
    if (max_s > 0 && now_s() - t0 > max_s && !g->stop)
    {
      g->stop = 1;
      capped = 1;
    }
    if (!any)
      usleep(2000);
  }
  for (i = 0; i < workers; i++)
  {
    execs += ws[i].execs;
    stp += ws[i].steps;
    evals += ws[i].evals;
    pruned += ws[i].pruned;
    redone += ws[i].redone;
    if (ws[i].maxlen > maxlen)
      maxlen = ws[i].maxlen;
  }
  if (failed >= 0)
  {
    static tr t[MAXTRACE];
    int len = ws[failed].len, r1, r2;
    char m1[8192] = "", m2[8192] = "";
    FILE *rep;

    memcpy(t, ws[failed].trace, len * sizeof *t);
    if (how == 2)
    {
      fprintf(stderr, "%s/%s: engine error: %s\n", sc->property, sc->name, ws[failed].msg);
      rep = fopen("/dev/null", "w");
      fclose(rep);
      rc = 2;
      snprintf(msg, sizeof msg, "engine error: %s", ws[failed].msg);
    }
    else
    {
      FILE *o1 = tmpfile(), *o2 = tmpfile();
      r1 = run_child(t, len, o1, m1, sizeof m1);
      if (r1 == 0 || r1 == 2)
        r1 = run_child(t, len, o1, m1, sizeof m1);
      r2 = run_child(t, len, o2, m2, sizeof m2);
      if ((r1 == 1 || r1 == 3 || r1 == 4) && (r2 == 1 || r2 == 3 || r2 == 4))
      {
        char *log = slurp(o1);
        rc = 1;
        snprintf(path, sizeof path, "%s/%s-%s.replay", outdir, sc->property, sc->name);
        rep = fopen(path, "w");
        if (rep)
        {
          write_trace(rep, m1, NULL, t, len);
          fprintf(rep, "--- execution log\n%s\n", log);
          fclose(rep);
        }
        snprintf(msg, sizeof msg, "%s", m1);
        fprintf(stderr, "%s/%s: %s\n", sc->property, sc->name, m1);
        printf("VIOLATION property=%s replay=%s\n", sc->property, path);
        fflush(stdout);
        free(log);
      }
      else
      {
        rc = 2;
        snprintf(msg, sizeof msg, "failure (%s) did not reproduce on replay (%d: %s, %d: %s)", ws[failed].msg, r1, m1, r2, m2);
        fprintf(stderr, "%s/%s: %s\n", sc->property, sc->name, msg);
      }
      fclose(o1);
      fclose(o2);
    }
  }
  tot_states += g->states;
  fprintf(json, "{\"scenario\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"evaluations\":%llu,\"states\":%llu,\"distinct_outcomes\":%llu,"
          "\"pruned\":%llu,\"replayed_for_determinism\":%llu,\"longest_choice_sequence\":%llu,\"deviation_bound\":%d,\"size_parameter\":%d,"
          "\"workers\":%d,\"capped\":%s,\"complete\":%s,\"seconds\":%.2f,\"result\":",
          sc->name, (unsigned long long) execs, (unsigned long long) stp, (unsigned long long) (execs + evals),
          (unsigned long long) g->states, (unsigned long long) g->outcomes, (unsigned long long) pruned, (unsigned long long) redone,
          (unsigned long long) maxlen, bound, param, workers, capped ? "true" : "false", !capped && !rc ? "true" : "false", now_s() - t0);
  json_str(json, rc == 0 ? "ok" : msg);
  fprintf(json, ",\"known\":[");
  for (i = 0; i < g->known; i++)
  {
    fprintf(json, "%s[", i ? "," : "");
    json_str(json, g->known_key[i]);
    fputc(',', json);
    json_str(json, g->known_msg[i]);
    fputc(']', json);
  }
  fprintf(json, "],\"samples\":[");
  if (!rc)
  {
    int k, first = 1;
    for (k = 0; k < NSAMPLES; k++)
    {
      static tr t[MAXTRACE];
      FILE *o;
      char *log, m[512];
      int len;
      if (k == 1 && ws[0].slen[1] == 0)
        continue;
      len = ws[0].slen[k];
      if (!len && k)
        continue;
      if (ws[0].execs == 0)
        break;
      if (k == 2)
        continue;
      memcpy(t, ws[0].strace[k], len * sizeof *t);
      o = tmpfile();
      (void) run_child(t, len, o, m, sizeof m);
      log = slurp(o);
      if (strlen(log) > 1500)
        strcpy(log + 1480, " ...(cut)");
      if (!first)
        fputc(',', json);
      json_str(json, log);
      first = 0;
      free(log);
      fclose(o);
    }
  }
  fprintf(json, "]}");
  fflush(json);
  return rc;
}

static int do_replay(const char *file)
{
  FILE *f = fopen(file, "r");
  char prop[64] = "", name[128] = "", tier[32] = "";
  static tr t[MAXTRACE];
  int len = 0, i, r;
  char msg[8192] = "";

  if (!f)
  {
    perror(file);
    return 2;
  }
  if (fscanf(f, "property %63s\nscenario %127s\ntier %31s\nbound %d\nparam %d\ntrace %d", prop, name, tier, &bound, &param, &len) != 6)
  {
    fprintf(stderr, "bad replay file\n");
    return 2;
  }
  for (i = 0; i < len; i++)
  {
    int c, n, ch;
    if (fscanf(f, " %d/%d", &c, &n) != 2)
      return 2;
    ch = fgetc(f);
    t[i] = (tr) {.c = c, .n = n, .dev = ch == 'd'};
    if (ch != 'd')
      ungetc(ch, f);
  }
  fclose(f);
  thorough = strcmp(tier, "thorough") == 0;
  for (sc = mc_scenarios; sc->name; sc++)
    if (strcmp(sc->name, name) == 0 && strcmp(sc->property, prop) == 0)
      break;
  if (!sc->name)
  {
    fprintf(stderr, "no scenario %s/%s\n", prop, name);
    return 2;
  }
  r = run_child(t, len, stdout, msg, sizeof msg);
  printf("%s\n", r == 0 ? "replay: no violation" : msg);
  return r == 0 ? 0 : r == 2 ? 2 : 1;
}

int main(int argc, char **argv)
{
  const char *property = NULL, *outdir = ".", *only = NULL, *skip = NULL, *jsonpath = NULL, *replay = NULL;
  int workers = sysconf(_SC_NPROCESSORS_ONLN), i, rc = 0, r, first = 1;
  double max_s = 0, total_s = 0, left;
  struct timespec start, ts;
  FILE *json;
  struct rlimit rl = {0, 0};

  for (i = 1; i < argc; i++)
  {
    if (!strcmp(argv[i], "--property")) property = argv[++i];
    else if (!strcmp(argv[i], "--tier")) thorough = !strcmp(argv[++i], "thorough");
    else if (!strcmp(argv[i], "--out")) outdir = argv[++i];
    else if (!strcmp(argv[i], "--only")) only = argv[++i];
    else if (!strcmp(argv[i], "--json")) jsonpath = argv[++i];
    else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--max-seconds")) max_s = atof(argv[++i]);
    else if (!strcmp(argv[i], "--total-seconds")) total_s = atof(argv[++i]);
    else if (!strcmp(argv[i], "--skip")) skip = argv[++i]; /* scenarios by prefix */
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--list"))
    {
      for (sc = mc_scenarios; sc->name; sc++)
        printf("%s %s\n", sc->property, sc->name);
      return 0;
    }
    else
    {
      fprintf(stderr, "usage: see engine/mc.c\n");
      return 2;
    }
  }
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &start);
  setrlimit(RLIMIT_CORE, &rl);
  if (workers > MAXWORKERS)
    workers = MAXWORKERS;
  if (workers < 1)
    workers = 1;
  hooks();
  ws = mmap(NULL, sizeof(wshm) * (MAXWORKERS + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g = mmap(NULL, sizeof *g, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  w = &ws[MAXWORKERS];
  if (replay)
    return do_replay(replay);
  json = jsonpath ? fopen(jsonpath, "w") : fopen("/dev/null", "w");
  fprintf(json, "[");
  for (sc = mc_scenarios; sc->name; sc++)
  {
    if (property && strcmp(property, sc->property))
      continue;
    if (only && strcmp(only, sc->name))
      continue;
    if (skip && !strncmp(skip, sc->name, strlen(skip)))
      continue;
    if ((sc->flags & MC_THOROUGH_ONLY) && !thorough)
      continue;
    if (!first)
      fprintf(json, ",\n");
    first = 0;
    left = max_s;
    if (total_s > 0)
    {
      syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
      left = total_s - (ts.tv_sec - start.tv_sec) - (ts.tv_nsec - start.tv_nsec) / 1e9;
      if (left < 3)
        left = 3;
      if (max_s > 0 && max_s < left)
        left = max_s;
    }
    r = run_scenario(outdir, json, workers, left);
    if (r == 1)
      rc = 1;
    else if (r == 2 && rc == 0)
      rc = 2;
  }
  fprintf(json, "]\n");
  fclose(json);
  return rc;
}
