/*
 * C23: the table of masters made from the configuration.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "globals.h"
#include "defaults.h"
#include "slavet.h"
#include "slave.h"
#include "npcast.h"
#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
#else
static size_t __sanitizer_get_current_allocated_bytes(void){ return(0); }
#endif

/* the k-th allocation fails */
static int failing, nalloc, failed;
static int nomem(void){
  if(!failing) return(0);
  ++nalloc;
  if(mc_dev(2, "no memory")){ ++failed; return(1); }
  return(0);
}
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n){ return(nomem() ? NULL : __real_malloc(n)); }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t a, size_t b){
  return(nomem() ? NULL : __real_calloc(a, b));
}

/* ------------------------------------------------------------- the oracle */
struct want {
  int type; char host[80], port[80]; int opt[5]; int index;
};
static struct want W[64];
static int nw;
static int integer(const char *s, int *v){
  long long x = 0;
  int neg = 0, d = 0;
  if(*s == '+' || *s == '-') neg = *s++ == '-';
  for(; *s >= '0' && *s <= '9'; ++s, ++d) if(x < 100000000000LL) x = x*10 + *s - '0';
  if(*s || !d) return(0);
  if(neg) x = -x;
  if(x > 2147483647LL || x < -2147483648LL) return(0);
  *v = (int)x;
  return(1);
}
/* 1 if the whole string is right */
static int oracle(const char *s){
  nw = 0;
  while(*s){
    char f[20][80];
    int nf = 0, n = 0, i, port = 0, o;
    struct want *w;
    while(*s && strchr("| \t\n", *s)) ++s;
    if(!*s) break;
    memset(f, 0, sizeof(f));
    for(;; ++s){
      if(!*s || strchr("| \t\n", *s)) break;
      if(*s == ',' || *s == ':'){ ++nf; n = 0; if(nf == 20) return(0); continue; }
      if(n < 79) f[nf][n++] = *s;
    }
    ++nf;
    if(nw == 64) mc_die("entries");
    w = &W[nw];
    memset(w, 0, sizeof(*w));
    if(!integer(f[0], &w->type)) return(0);
    if(w->type < 1 || w->type > 3) return(0);
    if(nf < 2 || f[1][0] == 0) return(0);
    strcpy(w->host, f[1]);
    if(w->type != 3){
      if(nf > 8) return(0);
      strcpy(w->port, g.slave_masterport);
      if(nf == 3){ strcpy(w->port, f[2]); port = 1; }
      else if(nf > 3 && f[2][0]) strcpy(w->port, f[2]);
      if(port && f[2][0] == 0) return(0);
      o = 3;
    }else{
      if(nf > 7) return(0);
      o = 2;
    }
    w->opt[0] = g.slave_read_timeout_secs;
    w->opt[1] = g.slave_read_timeout_retry;
    w->opt[2] = g.slave_reopen_timeout_secs;
    w->opt[3] = g.slave_so_rcvbuf;
    w->opt[4] = g.slave_stats_logperiod_secs;
    for(i = 0; i < 5 && o + i < nf; ++i) integer(f[o + i], &w->opt[i]);
    ++nw;
  }
  if(nw == 0) return(0);
  {
    int i, k = 0;
    for(i = 0; i < nw; ++i)
      W[i].index = W[i].type != 1 ? -1 :
	k++ + ((g.feedmode & FEEDMODE_NOAAPORT) ? NPCAST_NUM_CHANNELS : 0);
  }
  return(1);
}
static const char *nn(const char *s){ return(s ? s : "(none)"); }
static size_t warm_;
static void try_(char *conf, int direct){
  struct slave_options_st d;
  struct slave_table_st *t = NULL;
  int status, ok, i, n1 = 0;
  size_t mem = __sanitizer_get_current_allocated_bytes();
  char full[900];
  memset(&d, 0, sizeof(d));
  mc_note("\"%s\" ", conf);
  if(direct){
    d.infifo_mode = g.infifo_mode; d.infifo_grp = g.infifo_grp;
    d.slavestatsfile = g.slavestatsfile;
    d.slave_masterport = g.slave_masterport;
    d.slave_read_timeout_secs = g.slave_read_timeout_secs;
    d.slave_read_timeout_retry = g.slave_read_timeout_retry;
    d.slave_reopen_timeout_secs = g.slave_reopen_timeout_secs;
    d.slave_so_rcvbuf = g.slave_so_rcvbuf;
    d.slave_stats_logperiod_secs = g.slave_stats_logperiod_secs;
    failing = direct == 2;
    status = slave_table_create(&t, conf, &d);
    failing = 0;
    snprintf(full, sizeof(full), "%s", conf);
  }else{
    g.masterservers = conf;
    g.slavet = NULL;
    failing = 0;
    status = init_slavet();
    t = g.slavet;
    full[0] = 0;
    if(g.feedmode & FEEDMODE_INPUTFIFO) sprintf(full, "3,%s\n", g.infifo);
    if(g.feedmode & FEEDMODE_MASTERSERVERS) strcat(full, conf);
  }
  mc_step();
  ok = oracle(full);
  if(!direct && (g.feedmode & FEEDMODE_MASTERSERVERS) && conf[0] == 0)
    ok = 0;			/* must be set in that mode */
  if(failed){
    if(status == 0) mc_fail("the table is accepted although memory failed");
    ok = 0;
  }
  if(ok != (status == 0))
    mc_fail("the list of masters \"%s\" is %s and should %sbe", full,
	    status == 0 ? "accepted" : "refused", ok ? "not " : "not ");
  if(!ok){
    if(t != NULL) mc_fail("a table is left by a wrong list");
  }else{
    uint64_t h = MC_H0;
    if(t == NULL) mc_fail("no table");
    if(t->numslaves != nw) mc_fail("\"%s\": %d masters and not %d", full,
				   t->numslaves, nw);
    for(i = 0; i < nw; ++i){
      struct slave_element_st *e = &t->slave[i];
      struct slave_options_st *o = &e->options;
      struct want *w = &W[i];
      int net = w->type != 3, v[5], j;
      if(e->slavetype != w->type)
	mc_fail("\"%s\": master %d has type %d", full, i, e->slavetype);
      if(net ? (e->mastername == NULL || strcmp(e->mastername, w->host) ||
		e->masterport == NULL || strcmp(e->masterport, w->port) ||
		e->infifo != NULL)
	 : (e->infifo == NULL || strcmp(e->infifo, w->host) ||
	    e->mastername != NULL || e->masterport != NULL))
	mc_fail("\"%s\": master %d is %s port %s fifo %s", full, i,
		nn(e->mastername), nn(e->masterport), nn(e->infifo));
      v[0] = o->slave_read_timeout_secs; v[1] = o->slave_read_timeout_retry;
      v[2] = o->slave_reopen_timeout_secs; v[3] = o->slave_so_rcvbuf;
      v[4] = o->slave_stats_logperiod_secs;
      for(j = 0; j < 5; ++j)
	if(v[j] != w->opt[j])
	  mc_fail("\"%s\": option %d of master %d is %d and should be %d",
		  full, j + 1, i, v[j], w->opt[j]);
      if(o->infifo_mode != g.infifo_mode || strcmp(nn(o->infifo_grp),
	 g.infifo_grp) || strcmp(nn(o->slavestatsfile), g.slavestatsfile))
	mc_fail("\"%s\": the other options of master %d", full, i);
      if(e->slavenbs_reader_index != w->index)
	mc_fail("\"%s\": master %d uses channel %d and not %d", full, i,
		e->slavenbs_reader_index, w->index);
      if(e->slave_fd != -1 || e->f_slave_thread_created)
	mc_fail("\"%s\": master %d is not initialized", full, i);
      n1 += w->type == 1;
      h = mc_hashi(h, w->type); h = mc_hashs(h, w->host);
      h = mc_hashs(h, w->port); h = mc_hash(h, w->opt, sizeof(w->opt));
    }
    if(t->num_slavenbs_readers != n1)
      mc_fail("\"%s\": %d readers of files", full, t->num_slavenbs_readers);
    mc_outcome(h);
    if(direct) slave_table_destroy(t);
    else{
      cleanup_slavet();
      if(g.slavet != NULL) mc_fail("the table is left");
    }
  }
  if(__sanitizer_get_current_allocated_bytes() != mem && warm_)
    mc_fail("\"%s\": memory is left", full);
  warm_ = 1;
}

static void body(void){
  char s[900], *o = s;
  int i;
  mc_bound_set(0);
  failed = nalloc = 0; failing = 0;
  g.feedmode = FEEDMODE_MASTERSERVERS;
  if(strcmp(mc_arg, "chars") == 0){
    static const char AL[] = "1h,:|3 -x2";
    int n = 1 + mc_choose(mc_tier ? 7 : 6, "length");
    for(i = 0; i < n; ++i) *o++ = AL[mc_choose(i < 2 ? 10 : 8, "char")];
    *o = 0;
    try_(s, 1);
  }else if(strcmp(mc_arg, "fields") == 0){
    static const char *T[] = { "1", "2", "3", "0", "4", "", "x", "+1", "1x",
      "4294967297", "-1", "99999999999999999999", "01" };
    static const char *H[] = { "h", "", "a.b.c" };
    static const char *P[] = { NULL, "", "2210", "x" };
    static const char *O[] = { "", "7", "x", "-1", "10z", "4294967296", "0" };
    int t = mc_choose(13, "type"), h = mc_choose(4, "host"),
      p = mc_choose(4, "port"), no, c;
    o += sprintf(o, "%s", T[t]);
    if(h < 3){
      c = mc_choose(2, "separator") ? ':' : ',';
      o += sprintf(o, "%c%s", c, H[h]);
      if(P[p]){
	o += sprintf(o, "%c%s", c, P[p]);
	no = mc_choose(8, "options");
	for(i = 0; i < no; ++i)
	  o += sprintf(o, "%c%s", c, i < (mc_tier ? 5 : 4) ?
		       O[mc_choose(7, "option")] : O[i % 7]);
      }
    }
    try_(s, 1);
  }else if(strcmp(mc_arg, "pairs") == 0 || strcmp(mc_arg, "nomem") == 0){
    static const char *E[] = { "1,m0", "1,m1,2211", "2,m2", "2,m3,,1,,3",
      "1,m4:9:,,,,5", "3,/tmp/f", "3,/tmp/g,1,2,3,4,5", "1,", "3,", "3",
      "2,m5,,,,,,,", "3,/f,1,2,3,4,5,6", "x", "1,m6,2210,5" };
    static const char *S[] = { "|", " ", "\n", "\t", " |\n  " };
    int fail = mc_arg[0] == 'n', n = fail ? 2 : 3, k;
    for(i = 0; i < n; ++i){
      k = mc_choose(15, "entry");
      if(k == 14) break;
      if(i == 0 && !fail && mc_choose(2, "lead")) o += sprintf(o, "\n ");
      o += sprintf(o, "%s%s", E[k], S[fail ? 0 : i == 0 ?
				      mc_choose(5, "separator") : 2]);
    }
    if(o > s && (fail || mc_choose(2, "trail"))) --o;
    *o = 0;
    if(fail) mc_bound_set(1);
    else g.feedmode = 1 + mc_choose(7, "feedmode");
    if(!fail && (g.feedmode & 6) == 0) return;
    if(s[0] == 0 && fail) return;
    try_(s, fail ? 2 : 0);
  }
}
static void init(void){
  nenv_init();
  if(!getenv("MC_LOGS")) nenv_log_format = 0;
  nenv_log_format = 1;		/* the messages are made, too */
  g.infifo_grp = "nobody"; g.infifo_mode = 0640;
  g.slavestatsfile = "/nonexistent/slave"; g.slave_masterport = "2210";
  g.infifo = "/nonexistent/infeed";
  g.slave_read_timeout_secs = 101; g.slave_read_timeout_retry = 102;
  g.slave_reopen_timeout_secs = 103; g.slave_so_rcvbuf = 104;
  g.slave_stats_logperiod_secs = 105;
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 30, 0, 0 };
  return(mc_main(argc, argv, &o, init, body));
}
