/* for the harnesses of the programs that decode */
#include "flt.h"
#include <math.h>
#include <time.h>
#include <dirent.h>
#define TOOL_NOREG
#define RAD 0.017453292519943295
/* ----------------------------------------------------------------- memory */
#ifndef MAXALLOC
#define MAXALLOC (96*1024*1024)
#endif
static int fill_ = 0x7e, faults, nfails, toobig;
static int flt(const char *w){
  if(!faults || !tool_running()) return(0);
  if(!mc_dev(2, w)) return(0);
  ++nfails;
  mc_note("<%s fails> ", w);
  return(1);
}
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n){
  void *p;
  if(!tool_running()) return(__real_malloc(n));
  if(n > MAXALLOC){ toobig = 1; errno = ENOMEM; return(NULL); }
  if(flt("malloc")){ errno = ENOMEM; return(NULL); }
  p = __real_malloc(n);
  if(p) memset(p, fill_, n < 300000 ? n : 300000);
  return(p);
}
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t n, size_t m){
  if(!tool_running()) return(__real_calloc(n, m));
  if(n*m > MAXALLOC){ toobig = 1; errno = ENOMEM; return(NULL); }
  if(flt("calloc")){ errno = ENOMEM; return(NULL); }
  return(__real_calloc(n, m));
}
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *q, size_t n){
  if(!tool_running()) return(__real_realloc(q, n));
  if(n > MAXALLOC){ toobig = 1; errno = ENOMEM; return(NULL); }
  if(flt("realloc")){ errno = ENOMEM; return(NULL); }
  return(__real_realloc(q, n));
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m){
  if(flt("fopen")){ errno = EMFILE; return(NULL); }
  return(__real_fopen(p, m));
}
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f){
  if(flt("fclose")){ __real_fclose(f); errno = ENOSPC; return(EOF); }
  return(__real_fclose(f));
}
__attribute__((noinline, no_sanitize("address")))
static void stackfill(void){
  volatile char b[64*1024];
  unsigned i;
  for(i = 0; i < sizeof(b); ++i) b[i] = (char)fill_;
}
static const int FILL[2] = { 0x7e, 0xff };

/* -------------------------------------------------------- running a program */
static const unsigned char *data_; static int ndata;	/* the input */
static int chunk_;		/* >= 0: from a pipe, in pieces of that size */
static char *saved_; static int nsaved;
/* expected: the output want_[nwant] and status want, or a failure if want < 0 */
static void twice(tool_main_fn fn, const char *what, int want){
  int i, c[2], n0 = 0, big = 0;
  for(i = 0; i < 2; ++i){
    fill_ = FILL[i];
    if(chunk_ >= 0) tool_feed(data_, ndata, chunk_);
    stackfill();
    toobig = 0;
    c[i] = runprog(fn, 1);
    big |= toobig;
    tool_nofeed();
    if(i == 0){
      n0 = nout; nsaved = nout;
      memcpy(saved_, out_, nout);
    }
  }
  if(c[0] != c[1]) mc_fail("%s ends with %d or %d, as the memory it has not "
			   "written happens to be", what, c[0], c[1]);
  if(n0 != nout || memcmp(saved_, out_, n0))
    mc_fail("the output of %s depends on memory that it has not written", what);
  if(want < 0){
    if(c[0] == 0) mc_fail("%s accepts a damaged product: \"%.*s\"", what, nout, out_);
    if(nout) mc_fail("%s fails but has output \"%.*s\"", what, nout, out_);
  }else if(want < 1000){
    if(big && c[0] == 1) return;
    if(c[0] != want) mc_fail("%s ends with %d, should be %d", what, c[0], want);
    if(nout != nwant || memcmp(out_, want_, nout))
      mc_fail("%s: \"%.*s\", should be \"%.*s\"", what, nout, out_, nwant, want_);
  }
  oh = mc_hash(mc_hashi(oh, c[0]), out_, nout);
}
static void wprint(const char *f, ...){
  va_list ap;
  char b[2000];
  va_start(ap, f);
  wput(b, vsnprintf(b, sizeof(b), f, ap));
  va_end(ap);
}
static void input(int how){	/* 0 a file; else stdin */
  data_ = in_; ndata = nin;
  chunk_ = -1;
  if(how == 0){ nenv_writefile(P_("in"), in_, nin); arg("%s", P_("in")); }
  else chunk_ = (int[]){ 0, 0, 1, 7 }[how];
}
static unsigned be(const unsigned char *p, int n){
  unsigned v = 0;
  while(n-- > 0) v = (v << 8) | *p++;
  return(v);
}
static void put(unsigned v, int n){
  unsigned char b[4];
  int i;
  for(i = 0; i < n; ++i) b[i] = (unsigned char)(v >> 8*(n - 1 - i));
  iput(b, n);
}
/* ------------------------------------------------------------------- damage */
static const unsigned char DV[] = { 0x00, 0x01, 0x7f, 0x80, 0xff, '/', 0x10, 0x05 };
/* one byte changed, removed or inserted, or cut short; 0: as it is */
static void damage(int from){
  int how = mc_choose(5, "damage"), i;
  if(how == 0) return;
  i = from + mc_choose(nin - from, "at");
  if(how == 1){
    int k = mc_choose((int)sizeof(DV) + 2, "value");
    unsigned char v = k < (int)sizeof(DV) ? DV[k] : k == (int)sizeof(DV) ?
      in_[i] ^ 0x80 : (unsigned char)(in_[i] + 1);
    mc_note("<byte %d: %02x %02x> ", i, in_[i], v);
    in_[i] = v;
  }else if(how == 2){ mc_note("<%d bytes> ", i); nin = i; }
  else if(how == 3){ mc_note("<no byte %d> ", i); memmove(in_ + i, in_ + i + 1, --nin - i); }
  else{
    memmove(in_ + i + 1, in_ + i, nin++ - i);
    in_[i] = DV[mc_choose((int)sizeof(DV), "value")];
    mc_note("<byte at %d> ", i);
  }
}

static double ld(const unsigned char *p){ double v; memcpy(&v, p, 8); return(v); }
static unsigned le(const unsigned char *p, int n){
  unsigned v = 0;
  while(n-- > 0) v = (v << 8) | p[n];
  return(v);
}
static void near_(double a, double b, double tol, const char *w, int i){
  if(isnan(a) && isnan(b)) return;
  if(!(fabs(a - b) <= tol) && !(a == b)) mc_fail("%s of cell %d: %.9g, should be %.9g", w, i, a, b);
}
static void rmdir_(const char *p){
  DIR *d = opendir(p);
  struct dirent *e;
  if(d == NULL) return;
  while((e = readdir(d)) != NULL){
    char b[900];
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    snprintf(b, sizeof(b), "%s/%s", p, e->d_name);
    unlink(b);
  }
  closedir(d);
}
static int nfiles(const char *p){
  DIR *d = opendir(p);
  struct dirent *e;
  int n = 0;
  if(d == NULL) return(-1);
  while((e = readdir(d)) != NULL) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) ++n;
  closedir(d);
  return(n);
}
static int ioh(const char *op, const char *path){
  (void)path;
  if(strcmp(op, "close") == 0) return(0);
  return(flt(op));
}
static char home[600];
