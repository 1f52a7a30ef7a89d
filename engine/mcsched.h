/*
 * Controlled scheduler: the pthread functions of the code under test are
 * replaced (ld --wrap) by fibers which run one at a time, and every choice
 * of who runs next is an engine choice. Time is virtual.
 */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
#include <time.h>
#include <pthread.h>

/*
 * Run fn as the first fiber until it returns. Other fibers still alive then
 * are abandoned.
 */
void sched_run(void (*fn)(void *), void *arg);
int sched_active(void);
int sched_self(void);		/* index of the running fiber */
int sched_spawn(void *(*fn)(void *), void *arg, const char *name);
void sched_join(int id);
int sched_done(int id);
void *sched_ret(int id);
int sched_nlive(void);		/* fibers not finished */
int sched_nattached(void);	/* of those, the ones not detached */
/* returns who must run next, or -1; called at each scheduling point */
extern int (*sched_force)(const char *label);
/* returns > 0 to make pthread_create() fail with it, < 0 to do nothing */
extern int (*sched_create_hook)(void *(*fn)(void *), void *arg);
/* a scheduling point: another enabled fiber may be chosen (a deviation) */
void sched_point(const char *label);
/* let the others run until none is enabled without time passing */
void sched_settle(void);
/* block until pred(arg) is true; deadline_ns < 0: none. 1 if timed out */
int sched_wait(int (*pred)(void *), void *arg, int64_t deadline_ns,
	       const char *label);
/* is fiber id blocked (in anything but being preempted) */
int sched_blocked(int id);
const char *sched_blocked_on(int id);
/* called when there is nothing left to run; default mc_fail("deadlock") */
extern void (*sched_on_deadlock)(const char *descr);
/* pthread_cancel() works (otherwise it has no effect) */
extern int sched_cancel;
void sched_testcancel(void);
/* unlocking a mutex that is not held unlocks it, as in glibc */
/* the order of threads is a deviation, not a free choice */
extern int sched_delay;
extern int sched_lenient;
extern int sched_spurious;	/* cond waits may wake up spuriously */
extern int sched_early_timeouts; /* timed waits may expire at any point */
extern int sched_sync_points;	/* scheduling points at lock/unlock/signal */
extern int sched_mem_points;	/* in mem mode: points at memory accesses */
extern uint64_t sched_switches, sched_points_seen;
/* only addresses in this range (if set) are memory points */
void sched_mem_range(const void *p, size_t n);
void sched_mem_ranges_clear(void);

extern int64_t vclock_ns;	/* virtual time */
extern int64_t vclock_step_ns;	/* added after each clock reading */
extern int (*vclock_hook)(int64_t *ns); /* may set the time to be read */
void vclock_reset(void);
/* the code called exit()/_exit() or so is left alone */
#define SCHED_WRAPS /* see SCHED in bin/checks.py */
#endif
