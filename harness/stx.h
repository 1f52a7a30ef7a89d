/* C25: what the statistics should be, and the comparison with what is written. */
#ifndef STX_H
#define STX_H
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include "stats.h"

enum { X_RECV, X_PROC, X_JUMP, X_BADF, X_SIZE, X_TRANS, X_COMPL, X_MISS, X_RTX,
       X_RTXC, X_RTXP, X_RTXI, X_RTXR, X_REJ, X_ABORT, X_BADP, X_N };
static const char *stx_name[] = { "frames received", "frames processed",
  "jumps of the frame number", "bad frames", "size of the data received",
  "products transmitted", "products completed", "products missed",
  "retransmissions", "retransmissions complete", "retransmissions processed",
  "retransmissions ignored", "products recovered", "products rejected",
  "products aborted", "products bad" };
static unsigned X[X_N], stx_index;

static inline void stx_reset(void){
  memset(X, 0, sizeof(X));
  stx_index = 0;
  nbspstats_init();
  unlink(g.statusfile);
}
/* the end of a period */
static inline void stx_report(void){
  unsigned long long t;
  unsigned v[X_N];
  char b[1000];
  int n, i, k = 0;
  nbspstats_update();
  n = nenv_slurp(g.statusfile, (unsigned char *)b, sizeof(b) - 1);
  if(n <= 0) mc_fail("the statistics are not written");
  b[n] = 0;
  if(b[n - 1] != '\n' || strchr(b, '\n') != b + n - 1)
    mc_fail("the statistics are not one line: %s", b);
  if(sscanf(b, "%llu %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u%n", &t,
	    &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7], &v[8], &v[9],
	    &v[10], &v[11], &v[12], &v[13], &v[14], &v[15], &k) != 17 || k != n - 1)
    mc_fail("the line of the statistics is %s", b);
  if(t != (unsigned long long)time(NULL)) mc_fail("the time of the statistics is %llu", t);
  for(i = 0; i < X_N; ++i)
    if(v[i] != X[i]) mc_fail("%s: counted %u, there were %u", stx_name[i], v[i], X[i]);
  if(X[X_TRANS]) stx_index = X[X_RTX]*1000/X[X_TRANS];
  if(nbspstats_get_rtx_index() != stx_index)
    mc_fail("the retransmission index is %u, should be %u",
	    nbspstats_get_rtx_index(), stx_index);
  memset(X, 0, sizeof(X));
  unlink(g.statusfile);
}
#endif
