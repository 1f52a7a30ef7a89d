#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include "mc.h"

#define MAXDEPTH 20000
#define LABELSZ 24

/*
 * Everything the supervisor needs to know about the current execution is in
 * a shared mapping (backed by the --state file), so that a crash loses
 * nothing.
 */
struct shared_st {
  int depth;			/* choices made in the current execution */
  int plen;			/* prefix to replay */
  int failed;			/* 1 fail, 2 harness error */
  int capped;
  int done;
  int devs;			/* deviations spent in this execution */
  uint64_t execs, steps, choices, states, outcomes, hits;
  uint64_t maxdepth;
  int maxdevs;
  char msg[4096];
  char note[16384];
  int notelen;
  int nknown;
  char known[32][256];
  uint64_t known_n[32];
  int nsamples;
  char samples[8][1024];
  unsigned short val[MAXDEPTH];
  unsigned short n[MAXDEPTH];
  unsigned char isdev[MAXDEPTH];
  char label[MAXDEPTH][LABELSZ];
  int heartbeat;
};
static struct shared_st *S;
static int replay_mode = 0;
static int bound = 0;
static int nshards = 1, shard = 0;
static double budget_s = 1e9;
static double t0;
static int hang_s = 30;
int mc_tier = 0;
const char *mc_arg = "";
const char *mc_scratch = "/nonexistent";
static const char *state_path, *replay_path;

static double now(void){
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);	/* may be wrapped */
  return(ts.tv_sec + ts.tv_nsec*1e-9);
}

int mc_bound_get(void){ return(bound); }
void mc_bound_set(int b){ bound = b; }
int mc_replaying(void){ return(replay_mode); }

uint64_t mc_hash(uint64_t h, const void *p, size_t n){
  const unsigned char *s = p;
  while(n--){ h ^= *s++; h *= 1099511628211ULL; h ^= h >> 29; }
  return(h);
}
uint64_t mc_hashi(uint64_t h, uint64_t v){ return(mc_hash(h, &v, sizeof(v))); }
uint64_t mc_hashs(uint64_t h, const char *s){
  return(mc_hash(h, s, strlen(s) + 1));
}

/* open addressing hash set; in fork mode it lives in shared memory */
struct set_st { uint64_t *t; uint64_t cap, n; };
static struct set_st states, outcomes;
static int use_shm_sets = 0;
#define SHMCAP (1ULL<<22)
/* not from malloc(): harnesses count what the code under test allocates */
static uint64_t *set_mem(uint64_t cap){
  void *p = mmap(NULL, cap*8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  if(p == MAP_FAILED) mc_die("no memory");
  return(p);
}
static void set_init(struct set_st *s){
  if(use_shm_sets){
    s->cap = SHMCAP;
    s->t = mmap(NULL, s->cap*8, PROT_READ|PROT_WRITE,
		MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  }else{
    s->cap = 1024;
    s->t = set_mem(s->cap);
  }
  s->n = 0;
}
static int set_add(struct set_st *s, uint64_t h){
  uint64_t i;
  if(h == 0) h = 1;
  if(!use_shm_sets && (s->n*2 >= s->cap)){
    struct set_st o = *s;
    s->cap *= 4; s->t = set_mem(s->cap); s->n = 0;
    for(i = 0; i < o.cap; ++i) if(o.t[i]) set_add(s, o.t[i]);
    munmap(o.t, o.cap*8);
  }
  for(i = h % s->cap; s->t[i]; i = (i+1) % s->cap)
    if(s->t[i] == h) return(0);
  if(use_shm_sets && s->n*10 >= s->cap*9) return(0);
  s->t[i] = h; ++s->n;
  return(1);
}
int mc_state(uint64_t h){
  if(set_add(&states, h)){ ++S->states; return(0); }
  ++S->hits;
  return(1);
}
void mc_outcome(uint64_t h){ if(set_add(&outcomes, h)) ++S->outcomes; }
void mc_step(void){ ++S->steps; }

void mc_note(const char *fmt, ...){
  va_list ap;
  int n;
  int left = (int)sizeof(S->note) - S->notelen;
  if(left < 2) return;
  va_start(ap, fmt);
  n = vsnprintf(S->note + S->notelen, left, fmt, ap);
  va_end(ap);
  if(n >= left) n = left - 1;
  S->notelen += n;
}

void mc_fail(const char *fmt, ...){
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
  va_end(ap);
  S->failed = 1;
  fprintf(stderr, "MC-FAIL: %s\n", S->msg);
  fflush(NULL);
  _exit(10);
}
void mc_die(const char *fmt, ...){
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
  va_end(ap);
  S->failed = 2;
  fprintf(stderr, "MC-ERROR: %s\n", S->msg);
  fflush(NULL);
  _exit(11);
}
int mc_known(const char *key, const char *fmt, ...){
  va_list ap;
  int i;
  {
    /* MC_KNOWN: the keys listed for this property in known-findings.txt */
    const char *e = getenv("MC_KNOWN"), *p = e;
    size_t l = strlen(key);
    int ok = 0;
    while(p && *p){
      if(strncmp(p, key, l) == 0 && (p[l] == ',' || p[l] == 0)) ok = 1;
      p = strchr(p, ',');
      if(p) ++p;
    }
    if(!ok){
      char b[2048];
      va_start(ap, fmt);
      vsnprintf(b, sizeof(b), fmt, ap);
      va_end(ap);
      mc_fail("%s: %s", key, b);
    }
  }
  for(i = 0; i < S->nknown; ++i)
    if(strncmp(S->known[i], key, strlen(key)) == 0){
      ++S->known_n[i];
      return(0);
    }
  if(S->nknown >= 32) return(0);
  va_start(ap, fmt);
  i = snprintf(S->known[S->nknown], 256, "%s: ", key);
  vsnprintf(S->known[S->nknown] + i, 256 - i, fmt, ap);
  va_end(ap);
  S->known_n[S->nknown] = 1;
  ++S->nknown;
  return(0);
}

static int choose(int n, const char *label, int isdev){
  int d = S->depth;
  int v;

  if(n <= 0) mc_die("mc_choose(%d) at %s", n, label);
  if(isdev && (S->devs >= bound)) return(0);
  if(n == 1) return(0);
  if(d >= MAXDEPTH) mc_die("execution too deep at %s", label);
  if(n > 65535) mc_die("too many alternatives at %s", label);
  if(d < S->plen){
    if(S->n[d] != n)
      mc_die("divergence while replaying choice %d (%s): %d alternatives, "
	     "was %d (%s)", d, label, n, S->n[d], S->label[d]);
    v = S->val[d];
    if(v >= n) mc_die("bad replay value %d of %d at %s", v, n, label);
  }else{
    v = 0;
    if((d == 0) && (nshards > 1)){
      v = shard;
      if(v >= n) v = 65535;	/* nothing to do in this shard */
    }
    S->n[d] = n;
    S->val[d] = v;
    if(v == 65535){ S->capped = 0; S->done = 1; _exit(12); }
  }
  S->isdev[d] = isdev;
  strncpy(S->label[d], label, LABELSZ - 1);
  ++S->depth;
  ++S->choices;
  if(isdev && v != 0) ++S->devs;
  return(v);
}
int mc_choose(int n, const char *label){ return(choose(n, label, 0)); }
int mc_dev(int n, const char *label){ return(choose(n, label, 1)); }
int mc_dev_left(void){ return(bound - S->devs); }

/* next prefix in depth first order; 0 when the space is exhausted */
static int advance(void){
  int d = S->depth - 1;
  while(d >= 0){
    int inc = 1, next;
    if((d == 0) && (nshards > 1)) inc = nshards;
    next = S->val[d] + inc;
    if(next < S->n[d]){
      /*
       * A deviation is always affordable here: choose() recorded the
       * point only when the bound had not been spent before it.
       */
      S->val[d] = next;
      S->plen = d + 1;
      return(1);
    }
    --d;
  }
  return(0);
}

static void sample(void){
  int k, d, len = 0;
  char *b;
  /* keep the first, and then each time the count is a power of 16 */
  uint64_t e = S->execs;
  if(S->nsamples >= 8) return;
  if(!(e == 0 || e == 7 || e == 100 || e == 1000 || e == 10000 || e == 100000))
    return;
  b = S->samples[S->nsamples++];
  for(d = 0; d < S->depth && len < 900; ++d){
    k = snprintf(b + len, 1024 - len, "%s%s=%d", d ? " " : "", S->label[d],
		 S->val[d]);
    len += k;
  }
  if(d < S->depth) strcat(b, " ...");
}

static void reset_exec(void){
  S->depth = 0;
  S->devs = 0;
  S->notelen = 0;
  S->note[0] = 0;
}

static void on_alarm(int sig){
  static int last = -1;
  (void)sig;
  if(S->heartbeat == last){
    static const char m[] = "MC-HANG\n";
    ssize_t r = write(2, m, sizeof(m) - 1); (void)r;
    snprintf(S->msg, sizeof(S->msg), "no progress for %d s (hang)", hang_s);
    S->failed = 3;
    _exit(13);
  }
  last = S->heartbeat;
}
static void watchdog(void){
  struct sigaction sa;
  struct itimerval it;
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = on_alarm;
  sigaction(SIGVTALRM, &sa, NULL);
  (void)it;
  /* wall clock, by a timer signal that the code under test does not use */
  {
    timer_t tm; struct sigevent ev; struct itimerspec its;
    memset(&ev, 0, sizeof(ev));
    ev.sigev_notify = SIGEV_SIGNAL;
    ev.sigev_signo = SIGVTALRM;
    timer_create(CLOCK_MONOTONIC, &ev, &tm);
    memset(&its, 0, sizeof(its));
    its.it_value.tv_sec = its.it_interval.tv_sec = hang_s;
    timer_settime(tm, 0, &its, NULL);
  }
}

static void one(void (*body)(void)){
  reset_exec();
  body();
  if(S->depth < S->plen)
    mc_die("divergence: execution ended after %d of %d replayed choices, "
	   "before %s", S->depth, S->plen, S->label[S->depth]);
}
static void account(void){
  sample();
  ++S->execs;
  ++S->heartbeat;
  if((uint64_t)S->depth > S->maxdepth) S->maxdepth = S->depth;
  if(S->devs > S->maxdevs) S->maxdevs = S->devs;
}

static void jstr(const char *p, size_t max){
  size_t i;
  putchar('"');
  for(i = 0; i < max && p[i]; ++i){
    unsigned char c = p[i];
    if(c == '"' || c == '\\') printf("\\%c", c);
    else if(c < 32 || c > 126) printf("\\u%04x", c);
    else putchar(c);
  }
  putchar('"');
}
static int dump(const char *path){
  int i, fd = open(path, O_RDONLY);
  if(fd < 0) return(2);
  S = mmap(NULL, sizeof(*S), PROT_READ, MAP_SHARED, fd, 0);
  if(S == MAP_FAILED) return(2);
  printf("{\"execs\":%llu,\"steps\":%llu,\"choices\":%llu,\"states\":%llu,"
	 "\"outcomes\":%llu,\"hits\":%llu,\"maxdepth\":%llu,\"maxdevs\":%d,"
	 "\"failed\":%d,\"capped\":%d,\"done\":%d,",
	 (unsigned long long)S->execs, (unsigned long long)S->steps,
	 (unsigned long long)S->choices, (unsigned long long)S->states,
	 (unsigned long long)S->outcomes, (unsigned long long)S->hits,
	 (unsigned long long)S->maxdepth, S->maxdevs,
	 S->failed, S->capped, S->done);
  printf("\"msg\":"); jstr(S->msg, sizeof(S->msg));
  printf(",\"note\":"); jstr(S->note, sizeof(S->note));
  printf(",\"known\":{");
  for(i = 0; i < S->nknown; ++i){
    if(i) putchar(',');
    jstr(S->known[i], 256);
    printf(":%llu", (unsigned long long)S->known_n[i]);
  }
  printf("},\"samples\":[");
  for(i = 0; i < S->nsamples; ++i){ if(i) putchar(','); jstr(S->samples[i],1024);}
  printf("],\"trace\":[");
  if(S->failed || !S->done)
    for(i = 0; i < S->depth; ++i){
      printf("%s[%d,%d,%d,", i ? "," : "", S->val[i], S->n[i], S->isdev[i]);
      jstr(S->label[i], LABELSZ); putchar(']');
    }
  printf("]}\n");
  return(0);
}

int mc_main(int argc, char **argv, struct mc_opts *o,
	    void (*init)(void), void (*body)(void)){
  int i, fd;

  if(argc == 3 && !strcmp(argv[1], "--dump")) return(dump(argv[2]));

  bound = o->bound;
  if(o->hang_s) hang_s = o->hang_s;
  for(i = 1; i < argc; ++i){
    char *a = argv[i];
    if(!strcmp(a, "--part")) mc_arg = argv[++i];
    else if(!strcmp(a, "--tier")) mc_tier = !strcmp(argv[++i], "thorough");
    else if(!strcmp(a, "--scratch")) mc_scratch = argv[++i];
    else if(!strcmp(a, "--state")) state_path = argv[++i];
    else if(!strcmp(a, "--replay")){ replay_path = argv[++i]; replay_mode = 1;}
    else if(!strcmp(a, "--budget")) budget_s = atof(argv[++i]);
    else if(!strcmp(a, "--bound")) bound = atoi(argv[++i]);
    else if(!strcmp(a, "--hang")) hang_s = atoi(argv[++i]);
    else if(!strcmp(a, "--shard")){ sscanf(argv[++i], "%d/%d",&shard,&nshards);}
    else { fprintf(stderr, "bad arg %s\n", a); return(2); }
  }
  fd = state_path ? open(state_path, O_RDWR|O_CREAT|O_TRUNC, 0644) : -1;
  if(fd >= 0){
    if(ftruncate(fd, sizeof(*S)) != 0) return(2);
    S = mmap(NULL, sizeof(*S), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }else
    S = mmap(NULL, sizeof(*S), PROT_READ|PROT_WRITE,
	     MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if(S == MAP_FAILED) return(2);
  use_shm_sets = o->fork_each;
  set_init(&states);
  set_init(&outcomes);
  t0 = now();

  if(replay_mode){
    FILE *f = fopen(replay_path, "r");
    char lab[256];
    int v, n, d;
    if(f == NULL){ perror(replay_path); return(2); }
    nshards = 1;
    while(fscanf(f, "%d/%d/%d %255s", &v, &n, &d, lab) == 4){
      if(S->plen >= MAXDEPTH) return(2);
      S->val[S->plen] = v; S->n[S->plen] = n;
      strncpy(S->label[S->plen], lab, LABELSZ - 1);
      ++S->plen;
    }
    fclose(f);
  }
  if(!replay_mode || !o->fork_each) watchdog();
  if(init) init();
  if(replay_mode){
    one(body);
    S->execs = 1;
    S->done = 1;
    for(i = 0; i < S->nknown; ++i)
      fprintf(stderr, "KNOWN: %s\n", S->known[i]);
    fprintf(stderr, "replayed %d choices: no violation\n", S->depth);
    return(0);
  }
  for(;;){
    if(o->fork_each){
      pid_t pid;
      int st;
      int batch = o->fork_batch > 0 ? o->fork_batch : 1;
      fflush(NULL);
      pid = fork();
      if(pid == 0){
	watchdog();
	while(batch-- > 0){
	  one(body);
	  account();
	  if(!advance()){ S->done = 1; break; }
	  if(now() - t0 > budget_s) break;
	}
	_exit(0);
      }
      if(pid < 0) mc_die("fork: %s", strerror(errno));
      while(waitpid(pid, &st, 0) != pid) ;
      if(WIFEXITED(st) && WEXITSTATUS(st) == 12) break;
      if(!WIFEXITED(st) || WEXITSTATUS(st) != 0){
	if(!S->failed){
	  S->failed = 4;
	  if(WIFSIGNALED(st))
	    snprintf(S->msg, sizeof(S->msg), "killed by signal %d (%s)",
		     WTERMSIG(st), strsignal(WTERMSIG(st)));
	  else
	    snprintf(S->msg, sizeof(S->msg), "exited with status %d",
		     WEXITSTATUS(st));
	}
	return(10);
      }
      if(S->done) break;
    }else{
      one(body);
      account();
      if(!advance()){ S->done = 1; break; }
    }
    if(now() - t0 > budget_s){ S->capped = 1; break; }
  }
  return(0);
}
