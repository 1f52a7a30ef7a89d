#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/time.h>
#include <sys/mman.h>
#include "mc.h"
#include "mcsched.h"

#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
void __sanitizer_start_switch_fiber(void **, const void *, size_t);
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
void __asan_unpoison_memory_region(void const volatile *, size_t);
#endif

#define MAXF 24
#define STK (512*1024)
enum { F_FREE, F_RUN, F_MUTEX, F_COND, F_SLEEP, F_JOIN, F_PRED, F_DONE };
struct fiber {
  ucontext_t uc;
  int state;
  char *stack;
  void *(*fn)(void *);
  void *arg, *ret;
  void *obj;			/* mutex or cond */
  void *mutex;			/* mutex to reacquire (cond) */
  int64_t deadline;		/* -1 none */
  int timedout;
  int target;			/* join */
  int (*pred)(void *);
  void *predarg;
  int err;
  int detached;
  int cancel;			/* asked */
  int cancelling;		/* the cleanup handlers are running */
  int cancel_disabled;
  void *bufs[16];		/* cleanup handlers */
  int nbufs;
  const char *label;
  const char *name;
  void *fake;
};
static struct fiber F[MAXF];
static int nf = 0, cur = -1, active = 0;
static ucontext_t uc_home;
static void *home_fake;
static const void *home_bottom; static size_t home_size;
void (*sched_on_deadlock)(const char *) = NULL;
int sched_spurious = 0, sched_early_timeouts = 0, sched_sync_points = 1;
int sched_mem_points = 0;
int sched_cancel = 0, sched_lenient = 0, sched_delay = 0;
uint64_t sched_switches, sched_points_seen;
int (*sched_force)(const char *) = NULL;	/* who must run next, or -1 */
int64_t vclock_ns, vclock_step_ns = 1000;
int (*vclock_hook)(int64_t *ns) = NULL;
#define VCLOCK0 1700000000000000000LL
void vclock_reset(void){ vclock_ns = VCLOCK0 + 123456789; }

/* mutex table */
#define MT 1024
static struct mtx { void *p; int owner; int count; int dead; } M[MT];
static int nm;
static struct mtx *mget(void *p){
  unsigned i = ((uintptr_t)p >> 3) * 2654435761u % MT;
  while(M[i].p && M[i].p != p) i = (i + 1) % MT;
  if(M[i].p == NULL){
    if(++nm > MT - 2) mc_die("too many mutexes");
    M[i].p = p; M[i].owner = -1; M[i].count = 0; M[i].dead = 0;
  }
  return(&M[i]);
}
static void touch(void *p){ (void)*(volatile char *)p; }

int sched_active(void){ return(active); }
int sched_self(void){ return(cur); }

static int enabled(struct fiber *f){
  switch(f->state){
  case F_RUN: return(1);
  case F_MUTEX: return(mget(f->obj)->owner < 0);
  case F_JOIN: return(F[f->target].state == F_DONE);
  case F_PRED: return(f->pred && f->pred(f->predarg));
  }
  return(0);
}

static void describe(char *b, size_t n){
  int i, k = 0;
  static const char *nm_[] = {"free","runnable","mutex","cond","sleep","join",
			      "wait","done"};
  for(i = 0; i < nf; ++i)
    k += snprintf(b + k, k < (int)n ? n - k : 0, "%s#%d:%s(%s) ",
		  F[i].name ? F[i].name : "t", i, nm_[F[i].state],
		  F[i].label ? F[i].label : "");
}

static void switch_to(int to){
  int from = cur;
  if(to == from) return;
  ++sched_switches;
  F[from].err = errno;
  cur = to;
#ifdef ASAN
  __sanitizer_start_switch_fiber(F[from].state == F_DONE ? NULL :
				 &F[from].fake, F[to].stack, STK);
#endif
  swapcontext(&F[from].uc, &F[to].uc);
#ifdef ASAN
  __sanitizer_finish_switch_fiber(F[from].fake, NULL, NULL);
#endif
  errno = F[from].err;
}
static void go_home(void){
#ifdef ASAN
  __sanitizer_start_switch_fiber(NULL, home_bottom, home_size);
#endif
  swapcontext(&F[cur].uc, &uc_home);
}

static void wake(int i, int timedout){
  struct fiber *f = &F[i];
  f->timedout = timedout;
  if(f->state == F_COND){ f->state = F_MUTEX; f->obj = f->mutex; }
  else f->state = F_RUN;
  f->deadline = -1;
}

/* with sched_delay, times this close count as simultaneous */
#define SLACK 2000000LL
/* Selects who runs next. The current fiber may or may not be enabled. */
static void pick(const char *label){
  int e[MAXF], t[MAXF], ne, nt, i, c;
  int64_t best;

 again:
  ++sched_points_seen;
  ne = nt = 0;
  if(F[cur].state != F_DONE && enabled(&F[cur])) e[ne++] = cur;
  for(i = 0; i < nf; ++i){
    if(i == cur) continue;
    if(F[i].state != F_FREE && F[i].state != F_DONE && enabled(&F[i]))
      e[ne++] = i;
  }
  for(i = 0; i < nf; ++i)
    if(F[i].state != F_DONE && F[i].deadline >= 0 && !enabled(&F[i]))
      t[nt++] = i;
  if(sched_force && (c = sched_force(label)) >= 0 && c != cur &&
     F[c].state != F_DONE && enabled(&F[c])){
    i = c;
    goto run;
  }
  if(ne > 0){
    int curok = (e[0] == cur);
    int extra = sched_early_timeouts ? nt : 0;
    if(sched_delay && !sched_early_timeouts){
      /* those whose time has come already */
      for(i = 0; i < nt; ++i)
	if(F[t[i]].deadline <= vclock_ns + SLACK){
	  int x = t[i]; t[i] = t[extra]; t[extra] = x; ++extra;
	}
    }
    if(curok){
      c = mc_dev(ne + extra, label);
    }else{
      c = 0;
      if(extra && !sched_delay) c = mc_dev(1 + extra, "timeout?");
      if(c > 0) c = ne + c - 1;
      else if(sched_delay) c = mc_dev(ne + extra, label);
      else c = mc_choose(ne, label);
    }
    if(c >= ne){
      i = t[c - ne];
      if(F[i].deadline > vclock_ns) vclock_ns = F[i].deadline;
      wake(i, 1);
      if(!sched_delay || !enabled(&F[i])) goto again;
    }else i = e[c];
  }else{
    if(nt == 0){
      char b[2048];
      describe(b, sizeof(b));
      if(sched_on_deadlock) sched_on_deadlock(b);
      mc_fail("deadlock: no thread can ever run again: %s", b);
    }
    best = F[t[0]].deadline;
    for(i = 1; i < nt; ++i) if(F[t[i]].deadline < best) best=F[t[i]].deadline;
    ne = 0;
    for(i = 0; i < nt; ++i) if(F[t[i]].deadline <= best + (sched_delay ? SLACK : 0)) e[ne++] = t[i];
    /* the earliest first */
    for(i = 1; i < ne; ++i)
      if(F[e[i]].deadline < F[e[0]].deadline){
	int x = e[0]; e[0] = e[i]; e[i] = x;
      }
    c = ne <= 1 ? 0 : sched_delay ? mc_dev(ne, "expire") :
      mc_choose(ne, "expire");
    best = F[e[c]].deadline;
    if(best > vclock_ns) vclock_ns = best;
    wake(e[c], 1);
    goto again;
  }
  /* i runs */
 run:
  {
    struct fiber *f = &F[i];
    if(f->state == F_MUTEX){
      struct mtx *m = mget(f->obj);
      m->owner = i; m->count = 1;
    }
    f->state = F_RUN;
    f->deadline = -1;
    switch_to(i);
  }
}

void sched_point(const char *label){
  if(!active) return;
  mc_step();
  pick(label);
}
void sched_settle(void){
  /* run others until they all block; the caller resumes last */
  int i, any, n = 0;
  if(!active) return;
  do{
    any = 0;
    for(i = 0; i < nf; ++i)
      if(i != cur && F[i].state != F_DONE && enabled(&F[i])){ any = 1; break; }
    if(any){
      int me = cur;
      struct fiber *f;
      if(++n > 100000) mc_fail("livelock: threads never become quiet");
      f = &F[i];
      if(f->state == F_MUTEX){
	struct mtx *m = mget(f->obj);
	m->owner = i; m->count = 1;
      }
      f->state = F_RUN; f->deadline = -1;
      F[me].state = F_PRED; F[me].pred = NULL; F[me].deadline = vclock_ns;
      F[me].label = "settle";
      switch_to(i);
      F[me].state = F_RUN;
    }
  }while(any);
}
int sched_blocked(int id){
  return(F[id].state != F_DONE && !enabled(&F[id]));
}
const char *sched_blocked_on(int id){ return(F[id].label ? F[id].label : ""); }
int sched_done(int id){ return(F[id].state == F_DONE); }
void *sched_ret(int id){ return(F[id].ret); }
int sched_nlive(void){
  int i, n = 0;
  for(i = 0; i < nf; ++i) if(F[i].state != F_DONE) ++n;
  return(n);
}

int sched_nattached(void){
  int i, n = 0;
  for(i = 0; i < nf; ++i) if(F[i].state != F_DONE && !F[i].detached) ++n;
  return(n);
}

static void block(int state, const char *label){
  F[cur].state = state;
  F[cur].label = label;
  F[cur].timedout = 0;
  pick(label);
}
int sched_wait(int (*pred)(void *), void *arg, int64_t deadline,
	       const char *label){
  if(!active){
    if(pred && pred(arg)) return(0);
    if(deadline < 0) mc_fail("blocks forever in %s", label);
    if(deadline > vclock_ns) vclock_ns = deadline;
    return(1);
  }
  F[cur].pred = pred; F[cur].predarg = arg; F[cur].deadline = deadline;
  sched_testcancel();
  if(pred && pred(arg)){ F[cur].deadline = -1; sched_point(label); return(0);}
  block(F_PRED, label);
  sched_testcancel();
  return(F[cur].timedout);
}

/*
 * Cancellation as glibc does it: the handlers of the C functions are called
 * by jumping to the buffer that pthread_cleanup_push() has set.
 */
__attribute__((naked, no_stack_protector, no_sanitize_address)) int __wrap___sigsetjmp(void *e, int s);
__attribute__((naked, no_stack_protector, no_sanitize_address)) int __wrap___sigsetjmp(void *e, int s){
  __asm__("movq %rbx, 0(%rdi)\n movq %rbp, 8(%rdi)\n movq %r12, 16(%rdi)\n"
	  "movq %r13, 24(%rdi)\n movq %r14, 32(%rdi)\n movq %r15, 40(%rdi)\n"
	  "leaq 8(%rsp), %rax\n movq %rax, 48(%rdi)\n"
	  "movq (%rsp), %rax\n movq %rax, 56(%rdi)\n xorl %eax, %eax\n ret\n");
}
__attribute__((naked, noreturn, no_stack_protector, no_sanitize_address)) static void jump(void *e);
__attribute__((naked, noreturn, no_stack_protector, no_sanitize_address)) static void jump(void *e){
  __asm__("movq 0(%rdi), %rbx\n movq 8(%rdi), %rbp\n movq 16(%rdi), %r12\n"
	  "movq 24(%rdi), %r13\n movq 32(%rdi), %r14\n movq 40(%rdi), %r15\n"
	  "movq 48(%rdi), %rsp\n movl $1, %eax\n jmp *56(%rdi)\n");
}
void __wrap___pthread_register_cancel(void *b){
  if(!active) return;
  if(F[cur].nbufs >= 16) mc_die("too many cleanup handlers");
  F[cur].bufs[F[cur].nbufs++] = b;
}
void __wrap___pthread_unregister_cancel(void *b){
  if(!active) return;
  if(F[cur].nbufs <= 0 || F[cur].bufs[F[cur].nbufs - 1] != b)
    mc_die("unbalanced cleanup handlers");
  --F[cur].nbufs;
}
static void unwind(void){
  struct fiber *f = &F[cur];
  if(f->nbufs > 0){
    void **b = f->bufs[--f->nbufs];
#ifdef ASAN
    char *sp = __builtin_frame_address(0), *to = b[6];
    if(sp > f->stack + 4096) sp -= 4096;
    if(to > sp) __asan_unpoison_memory_region(sp, to - sp);
#endif
    jump(b);
  }
  f->ret = PTHREAD_CANCELED;
  f->state = F_DONE;
  f->deadline = -1;
  pick("exit");
  abort();
}
void __wrap___pthread_unwind_next(void *b){ (void)b; unwind(); }
void sched_testcancel(void){
  struct fiber *f = &F[cur];
  if(!active || !sched_cancel || !f->cancel || f->cancelling ||
     f->cancel_disabled) return;
  f->cancelling = 1;
  mc_note("<cancelled> ");
  unwind();
}

static void entry(int i){
#ifdef ASAN
  if(i == 0) __sanitizer_finish_switch_fiber(NULL, &home_bottom, &home_size);
  else __sanitizer_finish_switch_fiber(NULL, NULL, NULL);
#endif
  errno = 0;
  F[i].ret = F[i].fn(F[i].arg);
  F[i].state = F_DONE;
  F[i].deadline = -1;
  if(i == 0) go_home();
  pick("exit");
  abort();
}

int sched_spawn(void *(*fn)(void *), void *arg, const char *name){
  int i = nf++;
  struct fiber *f;
  char *st;
  if(i >= MAXF) mc_die("too many threads");
  f = &F[i];
  st = f->stack;
  memset(f, 0, sizeof(*f));
  f->stack = st;
  if(f->stack == NULL){
    f->stack = mmap(NULL, STK + 4096, PROT_READ|PROT_WRITE,
		    MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if(f->stack == MAP_FAILED) mc_die("mmap stack");
    mprotect(f->stack, 4096, PROT_NONE);
    f->stack += 4096;
  }
#ifdef ASAN
  __asan_unpoison_memory_region(f->stack, STK);
#endif
  f->fn = fn; f->arg = arg; f->name = name; f->deadline = -1;
  f->state = F_RUN;
  getcontext(&f->uc);
  f->uc.uc_stack.ss_sp = f->stack;
  f->uc.uc_stack.ss_size = STK;
  f->uc.uc_link = NULL;
  makecontext(&f->uc, (void (*)(void))entry, 1, i);
  return(i);
}
struct mainarg { void (*fn)(void *); void *arg; };
static void *mainfn(void *p){ struct mainarg *a = p; a->fn(a->arg); return 0;}
void sched_run(void (*fn)(void *), void *arg){
  struct mainarg a = { fn, arg };
  nf = 0;
  memset(M, 0, sizeof(M)); nm = 0;
  sched_spawn(mainfn, &a, "main");
  cur = 0;
  active = 1;
#ifdef ASAN
  __sanitizer_start_switch_fiber(&home_fake, F[0].stack, STK);
#endif
  swapcontext(&uc_home, &F[0].uc);
#ifdef ASAN
  __sanitizer_finish_switch_fiber(home_fake, NULL, NULL);
#endif
  active = 0;
  cur = -1;
}
void sched_join(int id){
  if(F[id].state == F_DONE) return;
  F[cur].target = id;
  block(F_JOIN, "join");
}

/* ---- pthread replacements ---- */
#define ID(i) ((pthread_t)(0x1000 + (i)))
#define IDX(t) ((int)((unsigned long)(t) - 0x1000))

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *a){
  (void)a;
  memset(m, 0, sizeof(*m));
  if(active){ struct mtx *x = mget(m); x->owner = -1; x->dead = 0; }
  return(0);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m){
  touch(m);
  if(active){
    struct mtx *x = mget(m);
    if(x->owner >= 0) return(EBUSY);
  }
  return(0);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m){
  struct mtx *x;
  touch(m);
  if(!active) return(0);
  if(sched_sync_points) sched_point("lock");
  x = mget(m);
  if(x->owner < 0){ x->owner = cur; x->count = 1; return(0); }
  F[cur].obj = m;
  block(F_MUTEX, x->owner == cur ? "lock(self)" : "lock");
  touch(m);
  return(0);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m){
  struct mtx *x;
  touch(m);
  if(!active) return(0);
  if(sched_sync_points) sched_point("trylock");
  x = mget(m);
  if(x->owner >= 0) return(EBUSY);
  x->owner = cur; x->count = 1;
  return(0);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m){
  struct mtx *x;
  touch(m);
  if(!active) return(0);
  x = mget(m);
  if(x->owner != cur && sched_lenient){
    x->owner = -1;		/* as glibc does */
    if(sched_sync_points) sched_point("unlock");
    return(0);
  }
  if(x->owner != cur)
    mc_fail("a thread unlocks a mutex it does not hold");
  x->owner = -1;
  if(sched_sync_points) sched_point("unlock");
  return(0);
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const void *a){
  (void)a; memset(c, 0, sizeof(*c)); return(0);
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c){ touch(c); return(0); }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline){
  struct mtx *x;
  touch(c); touch(m);
  if(!active){
    if(deadline < 0) mc_fail("waits forever on a condition");
    if(deadline > vclock_ns) vclock_ns = deadline;
    return(ETIMEDOUT);
  }
  x = mget(m);
  if(x->owner != cur) mc_fail("condition wait without holding the mutex");
  if(sched_sync_points) sched_point("cwait");
  sched_testcancel();
  x->owner = -1;
  F[cur].obj = c;
  F[cur].mutex = m;
  F[cur].deadline = deadline;
  if(sched_spurious && mc_dev(2, "spurious")){
    F[cur].state = F_MUTEX; F[cur].obj = m; F[cur].deadline = -1;
    F[cur].timedout = 0;
    F[cur].label = "cond";
    pick("cond");
    return(0);
  }
  block(F_COND, "cond");
  touch(m);
  {
    int to = F[cur].timedout;
    sched_testcancel();
    return(to ? ETIMEDOUT : 0);
  }
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m){
  return(cwait(c, m, -1));
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
				  const struct timespec *ts){
  /* as glibc does */
  if(ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return(EINVAL);
  return(cwait(c, m, (int64_t)ts->tv_sec*1000000000LL + ts->tv_nsec));
}
int __wrap_pthread_cond_signal(pthread_cond_t *c){
  int w[MAXF], n = 0, i;
  touch(c);
  if(!active) return(0);
  if(sched_sync_points) sched_point("signal");
  for(i = 0; i < nf; ++i)
    if(F[i].state == F_COND && F[i].obj == c) w[n++] = i;
  if(n > 0) wake(w[n > 1 ? mc_choose(n, "signal-who") : 0], 0);
  return(0);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c){
  int i;
  touch(c);
  if(!active) return(0);
  if(sched_sync_points) sched_point("bcast");
  for(i = 0; i < nf; ++i)
    if(F[i].state == F_COND && F[i].obj == c) wake(i, 0);
  return(0);
}
int (*sched_create_hook)(void *(*fn)(void *), void *arg) = NULL;
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a,
			  void *(*fn)(void *), void *arg){
  int i, det = 0;
  if(a) pthread_attr_getdetachstate(a, &det);
  if(sched_create_hook){
    i = sched_create_hook(fn, arg);
    if(i > 0) return(i);	/* an errno */
    if(i < 0){ *t = ID(0); return(0); } /* swallowed */
  }
  if(!active) mc_die("pthread_create outside of the scheduler");
  i = sched_spawn(fn, arg, "thread");
  F[i].detached = (det == PTHREAD_CREATE_DETACHED);
  *t = ID(i);
  sched_point("create");
  return(0);
}
int __wrap_pthread_join(pthread_t t, void **r){
  if(!active) return(0);
  if(IDX(t) < 0 || IDX(t) >= nf) mc_fail("pthread_join of an unknown thread");
  sched_join(IDX(t));
  if(r) *r = F[IDX(t)].ret;
  return(0);
}
int __wrap_pthread_detach(pthread_t t){ (void)t; return(0); }
pthread_t __wrap_pthread_self(void){ return(ID(cur < 0 ? 0 : cur)); }
int __wrap_pthread_cancel(pthread_t t){
  struct fiber *f;
  if(IDX(t) < 0 || IDX(t) >= nf) mc_fail("pthread_cancel of an unknown thread");
  f = &F[IDX(t)];
  f->cancel = 1;
  if(sched_cancel && !f->cancelling && !f->cancel_disabled &&
     (f->state == F_COND || f->state == F_SLEEP || f->state == F_PRED ||
      f->state == F_JOIN))
    wake(IDX(t), 0);
  return(0);
}
int __wrap_pthread_setcancelstate(int s, int *o){
  if(!active || !sched_cancel){ if(o) *o = 0; return(0); }
  if(o) *o = F[cur].cancel_disabled ?
    PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
  F[cur].cancel_disabled = (s == PTHREAD_CANCEL_DISABLE);
  return(0);
}
void __wrap_pthread_testcancel(void){ sched_testcancel(); }
int __wrap_pthread_sigmask(int h, const void *s, void *o){
  (void)h; (void)s; (void)o; return(0);
}

static void nap(int64_t ns, const char *label){
  if(!active){ vclock_ns += ns; return; }
  sched_testcancel();
  F[cur].deadline = vclock_ns + ns;
  F[cur].pred = NULL;
  block(F_SLEEP, label);
  sched_testcancel();
}
unsigned __wrap_sleep(unsigned s){ nap(s*1000000000LL, "sleep"); return(0); }
int __wrap_usleep(unsigned us){ nap(us*1000LL, "usleep"); return(0); }
int __wrap_nanosleep(const struct timespec *ts, struct timespec *r){
  (void)r;
  nap(ts->tv_sec*1000000000LL + ts->tv_nsec, "nanosleep");
  return(0);
}

/* ---- the clock ---- */
static int64_t readclock(void){
  int64_t v;
  if(vclock_hook) vclock_hook(&vclock_ns);
  v = vclock_ns;
  vclock_ns += vclock_step_ns;
  return(v);
}
time_t __wrap_time(time_t *t){
  time_t v = readclock()/1000000000LL;
  if(t) *t = v;
  return(v);
}
int __wrap_gettimeofday(struct timeval *tv, void *z){
  int64_t v = readclock();
  (void)z;
  tv->tv_sec = v/1000000000LL; tv->tv_usec = (v % 1000000000LL)/1000;
  return(0);
}
int __wrap_clock_gettime(int id, struct timespec *ts){
  int64_t v = readclock();
  (void)id;
  ts->tv_sec = v/1000000000LL; ts->tv_nsec = v % 1000000000LL;
  return(0);
}

/* ---- memory access instrumentation (mode "mem") ---- */
#define NR 32
static struct { uintptr_t lo, hi; } R[NR];
static int nr;
void sched_mem_range(const void *p, size_t n){
  if(nr >= NR) mc_die("too many ranges");
  R[nr].lo = (uintptr_t)p; R[nr].hi = (uintptr_t)p + n; ++nr;
}
void sched_mem_ranges_clear(void){ nr = 0; }
static inline void mem(void *p){
  int i;
  if(!sched_mem_points || !active) return;
  for(i = 0; i < nr; ++i)
    if((uintptr_t)p >= R[i].lo && (uintptr_t)p < R[i].hi){
      sched_point("mem");
      return;
    }
}
void __tsan_init(void){}
void __tsan_func_entry(void *p){ (void)p; }
void __tsan_func_exit(void){}
#define A(n) \
  void __tsan_read##n(void *p){ mem(p); } \
  void __tsan_write##n(void *p){ mem(p); } \
  void __tsan_unaligned_read##n(void *p){ mem(p); } \
  void __tsan_unaligned_write##n(void *p){ mem(p); } \
  void __tsan_volatile_read##n(void *p){ mem(p); } \
  void __tsan_volatile_write##n(void *p){ mem(p); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, size_t n){ (void)n; mem(p); }
void __tsan_write_range(void *p, size_t n){ (void)n; mem(p); }
void __tsan_vptr_update(void *p, void *v){ (void)v; mem(p); }
