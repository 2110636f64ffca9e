/* Stateless bounded-exhaustive explorer.  See engine/mc.c. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>

typedef struct mc_scenario
{
  const char *property;   /* property id this scenario belongs to */
  const char *name;       /* scenario name, used in replay files */
  void      (*run)(void); /* one complete execution; makes its choices through mc_choose()/mc_dev() */
  int         q_bound;    /* deviation bound, quick tier */
  int         t_bound;    /* deviation bound, thorough tier */
  int         q_param;    /* scenario size parameter, quick tier (mc_param()) */
  int         t_param;    /* scenario size parameter, thorough tier */
  int         shard;      /* number of leading choices that determine the worker (0: default 4) */
  int         flags;
} mc_scenario;

#define MC_THOROUGH_ONLY 1
#define MC_SINGLE        2 /* run in one worker only (uses its own parallelism or is tiny) */

extern const mc_scenario mc_scenarios[]; /* terminated by .name == NULL */

int      mc_choose(int n, const char *label); /* all n alternatives explored */
int      mc_dev(int n, const char *label);    /* alternatives > 0 cost one deviation each */
int      mc_param(void);
int      mc_thorough(void);
int      mc_verbose(void);
void     mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void     mc_prune(void) __attribute__((noreturn)); /* abandon this path, not an error */
void     mc_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2))); /* harness error */
void     mc_known(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3))); /* a defect listed in known-findings.json by this key: end this path; unlisted keys are violations */
void     mc_step(void);                       /* one transition executed */
void     mc_steps(uint64_t);                  /* n transitions executed */
void     mc_evals(uint64_t);                  /* extra evaluations inside one execution */
int      mc_state(uint64_t h);                /* record a state; 1 if new (across all workers) */
void     mc_outcome(uint64_t h);              /* mix into this execution's observation hash */
void     mc_note_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define  mc_note(...) do { if (mc_verbose()) mc_note_(__VA_ARGS__); } while (0)
#define  MC_CHECK(c, ...) do { if (__builtin_expect(!(c), 0)) mc_fail(__VA_ARGS__); } while (0)
void     mc_worker(int *index, int *count);   /* for harnesses that split a flat range themselves */
void     mc_no_longjmp(int on);               /* while on, mc_prune may not be used (several threads run) */

/* allocation accounting (AddressSanitizer hooks) */
long     mc_mem_live(void);                   /* live heap blocks */
long     mc_mem_bytes(void);

static inline uint64_t mc_mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32;
  return h;
}
static inline uint64_t mc_mixs(uint64_t h, const void *p, size_t n)
{
  const unsigned char *s = p;
  h = mc_mix(h, n);
  while (n--) h = (h ^ *s++) * 0x100000001b3ULL;
  return mc_mix(h, 1);
}
#endif
