/*
 * A small stateless model-checking engine: exhaustive depth first
 * enumeration of the choice sequences of a harness body, with an optional
 * bound on the number of deviations from the default answers.
 */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>

#ifdef __cplusplus
extern "C" {
#endif

/* One of 0..n-1; every value is explored. */
int mc_choose(int n, const char *label);
/* As mc_choose, but a value != 0 costs `cost' units of the deviation bound. */
int mc_dev(int n, const char *label);
/* Number of deviations still available in this execution. */
int mc_dev_left(void);
/* mark an operation of the system under test that was executed */
void mc_step(void);
/*
 * Records a (canonical) state hash; returns 1 if that state was already seen
 * (by this process), 0 if new.
 */
int mc_state(uint64_t h);
/* Records what was observed in this execution (distinct outcomes counter). */
void mc_outcome(uint64_t h);
/* Stop this execution: used with mc_state() for pruning. No-op marker. */
/* Violation of the property. Does not return. */
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
/* Harness (not property) error. Does not return. */
void mc_die(const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
/* A violation that is a known finding if its key is listed: reported and
   counted only; if it is not, fails. Returns 0. */
int mc_known(const char *key, const char *fmt, ...)
  __attribute__((format(printf,2,3)));
/* Free-form notes about the execution, shown with a violation */
void mc_note(const char *fmt, ...) __attribute__((format(printf,1,2)));
int mc_replaying(void);
/* tier: 0 quick, 1 thorough */
extern int mc_tier;
extern const char *mc_arg;	/* --part */
extern const char *mc_scratch;	/* private scratch directory */
int mc_bound_get(void);
void mc_bound_set(int b);

uint64_t mc_hash(uint64_t h, const void *p, size_t n);
uint64_t mc_hashi(uint64_t h, uint64_t v);
uint64_t mc_hashs(uint64_t h, const char *s);
#define MC_H0 1469598103934665603ULL

/* Harness entry points */
struct mc_opts {
  int bound;		/* deviation bound (default 0: mc_dev never deviates)*/
  int hang_s;		/* an execution longer than this is a hang */
  int fork_each;	/* run each execution in its own process */
  int fork_batch;	/* fork_each: executions per child process */
};
int mc_main(int argc, char **argv, struct mc_opts *o,
	    void (*init)(void), void (*body)(void));

#define MC_ASSERT(c, ...) do{ if(!(c)) mc_fail(__VA_ARGS__); }while(0)
#ifdef __cplusplus
}
#endif
#endif
