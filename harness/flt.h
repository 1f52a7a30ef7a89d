/* for the harnesses of the programs of the filters */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <zlib.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "iox.h"
#include "tool.h"

#define BIG (9*1024*1024)
static unsigned char *in_, *want_, *out_;
static int nin, nwant, nout;
static uint64_t oh;
static char *av[40]; static int ac;
static char argbuf[8000]; static int argn;
static void begin(const char *prog){ ac = argn = 0; av[ac++] = (char *)prog; av[ac] = NULL; }
static void arg(const char *f, ...){
  va_list ap;
  va_start(ap, f);
  av[ac++] = argbuf + argn;
  argn += vsnprintf(argbuf + argn, sizeof(argbuf) - argn, f, ap) + 1;
  va_end(ap);
  av[ac] = NULL;
}
static char path_[600];
static const char *P_(const char *f){
  static char b[4][600]; static int k;
  k = (k + 1) % 4;
  snprintf(b[k], 600, "%s/%s", mc_scratch, f);
  return(b[k]);
}
static void wput(const void *b, int n){
  if(nwant + n > BIG) mc_die("too big");
  memcpy(want_ + nwant, b, n); nwant += n;
}
static void iput(const void *b, int n){
  if(nin + n > BIG) mc_die("too big");
  memcpy(in_ + nin, b, n); nin += n;
}
static void same(const char *what){
  int i;
  if(nout == nwant && memcmp(out_, want_, nwant) == 0) return;
  for(i = 0; i < nout && i < nwant && out_[i] == want_[i]; ++i) ;
  mc_fail("%s: %d bytes, should be %d; the first wrong one is %d", what, nout, nwant, i);
}
static void flt_init(void){
  in_ = malloc(BIG); want_ = malloc(BIG); out_ = malloc(BIG);
}
static void flt_reset(void){
  nin = nwant = nout = 0; oh = MC_H0;
  tool_nofeed();
  iox_points = iox_faults = 0; iox_nfaults = 0; iox_last = "";
  vclock_reset();
}
static int slurp(const char *p){
  nout = nenv_slurp(p, out_, BIG);
  return(nout);
}
/* a device without space in place of the standard output */
__attribute__((unused)) static void outfull(tool_main_fn fn, const char *name){
  int c, c0, n0;
  tool_capture(P_("stdout"));
  c0 = tool_run(fn, av);
  n0 = tool_output(out_, BIG);
  if(c0 != 0 || n0 == 0) mc_die("%s: %d, %d bytes", name, c0, n0);
  tool_capture("/dev/full");
  c = tool_run(fn, av);
  tool_output(out_, BIG);
  if(c == 0) mc_fail("%s: output that could not be written is not reported", name);
  mc_outcome(mc_hashi(MC_H0, (uint64_t)n0));
}
static int runprog(tool_main_fn fn, int capture){
  int c;
  if(capture) tool_capture(P_("stdout"));
  c = tool_run(fn, av);
  if(capture) nout = tool_output(out_, BIG);
  mc_step();
  return(c);
}
