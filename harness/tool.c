#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <getopt.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include "mc.h"
#include "mcsched.h"
#include <stdint.h>
#include "iox.h"
#include "tool.h"

FILE *tool_err, *tool_out, *tool_in;
#define NI 16
static struct inst {
  int on, code, killed;
  void *j[5];
  char *base;
  void (*at[16])(void); int nat;
} I[NI];
#if defined(__SANITIZE_ADDRESS__)
void __asan_unpoison_memory_region(void const volatile *, size_t);
#else
#define __asan_unpoison_memory_region(a, b) ((void)0)
#endif
static struct inst *me(void){
  int i = sched_active() ? sched_self() : 0;
  if(i < 0 || i >= NI) mc_die("too many fibers");
  return(&I[i]);
}
int tool_running(void){ return(me()->on); }
static void __attribute__((noreturn,noinline)) leave(struct inst *p){
  char here;
  __asan_unpoison_memory_region(&here, p->base - &here);
  __builtin_longjmp(p->j, 1);
}
int tool_atexit(void (*f)(void)){
  struct inst *p = me();
  if(p->nat >= 16) mc_die("too many exit handlers");
  p->at[p->nat++] = f;
  return(0);
}
static struct tool_prog *progs;
static int nprogs;
__attribute__((no_sanitize("address"), optimize("no-tree-loop-distribute-patterns")))
static void cp(char *d, const char *s, long n){
  volatile char *x = d;
  const volatile char *y = s;
  long i = 0;
  for(; i + 8 <= n; i += 8)
    *(volatile uint64_t *)(x + i) = *(const volatile uint64_t *)(y + i);
  for(; i < n; ++i) x[i] = y[i];
}
void tool_reg(struct tool_prog *p, int n){
  int i;
  progs = p; nprogs = n;
  for(i = 0; i < n; ++i)
    if(p[i].a){
      p[i].save = malloc(p[i].b - p[i].a + 1);
      cp(p[i].save, p[i].a, p[i].b - p[i].a);
    }
}
static const char *fin; static int fn_, fpos, fchunk;
static FILE *fed, *real_in;
static ssize_t fget(void *c, char *b, size_t n){
  int l = fn_ - fpos;
  (void)c;
  if((size_t)l > n) l = (int)n;
  if(fchunk && l > fchunk) l = fchunk;
  memcpy(b, fin + fpos, l);
  fpos += l;
  return(l);
}
static ssize_t fdget(int fd, void *b, size_t n){
  if(fd != 0 || fed == NULL) return(-9);
  return(fget(NULL, b, n));
}
void tool_feed(const void *b, int n, int chunk){
  cookie_io_functions_t io = { fget, NULL, NULL, NULL };
  tool_nofeed();
  /* the last program may have closed it */
  if(fcntl(0, F_GETFD) == -1 && open("/dev/null", O_RDONLY) != 0) mc_die("null");
  fin = b; fn_ = n; fpos = 0; fchunk = chunk;
  if((fed = fopencookie(NULL, "r", io)) == NULL) mc_die("fopencookie");
  tool_in = fed;
  iox_read_hook = fdget;
}
void tool_nofeed(void){
  if(fed) fclose(fed);
  fed = NULL; tool_in = real_in = stdin;
}
int tool_fileno(FILE *f){ return(f == fed && f ? 0 : fileno(f)); }
static FILE *capt;
void tool_capture(const char *path){
  if(capt) fclose(capt);
  if((capt = fopen(path, "w+")) == NULL) mc_die("%s", path);
  tool_out = capt;
}
int tool_output(void *b, int max){
  int n;
  fflush(capt);
  rewind(capt);
  n = (int)fread(b, 1, max, capt);
  fclose(capt); capt = NULL; tool_out = NULL;
  return(n);
}
static int fdbase, nrun, alone;
static char fdused[16];
void tool_exit(int c){
  struct inst *p = me();
  if(!p->on) mc_die("exit outside of a program");
  p->code = c & 0xff;
  while(p->nat > 0) p->at[--p->nat]();
  if(progs && alone){
    int i;
    void (*b)(const char *, const char *) = iox_before;
    int (*h)(const char *, const char *) = iox_hook;
    fflush(NULL);
    iox_before = NULL; iox_hook = NULL;
    for(i = 0; i < 16; ++i) if(!fdused[i]) close(fdbase + i);
    iox_before = b; iox_hook = h;
  }
  leave(p);
}
void tool_kill(void){
  struct inst *p = me();
  if(!p->on) mc_die("kill outside of a program");
  p->code = TOOL_KILLED;
  leave(p);
}
static void __attribute__((noinline)) run(struct inst *p, tool_main_fn fn, int c, char **a){
  if(__builtin_setjmp(p->j) == 0)
    tool_exit(fn(c, a));
}
int tool_run(tool_main_fn fn, char **argv){
  struct inst *p = me();
  char base[1];
  int argc = 0;
  while(argv[argc]) ++argc;
  if(tool_err == NULL && mc_replaying() && getenv("MC_LOGS")) tool_err = stderr;
  if(tool_err == NULL && (tool_err = fopen("/dev/null", "w")) == NULL) mc_die("null");
  if(tool_out == NULL) tool_out = tool_err;
  if(tool_in == NULL) tool_in = stdin;
  memset(p, 0, sizeof(*p));
  p->on = 1; p->base = base;
  alone = nrun++ == 0;
  optind = 0;
  {
    int i;
    for(i = 0; i < nprogs; ++i)
      if(progs[i].fn == fn && progs[i].save)
	cp(progs[i].a, progs[i].save, progs[i].b - progs[i].a);
    if(progs && (fdbase = dup(1)) != -1){
      syscall(SYS_close, fdbase);
      for(i = 0; i < 16; ++i) fdused[i] = fcntl(fdbase + i, F_GETFD) != -1;
    }
  }
  run(p, fn, argc, argv);
  p->on = 0;
  --nrun;
  return(p->code);
}
