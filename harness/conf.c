/*
 * C10: the configuration file and the options of the command line: each
 * variable sets its own parameter and no other, what is not set has its
 * default, and values that cannot be are refused.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <stddef.h>
#include <limits.h>
#include <fcntl.h>
#include <signal.h>
#include "mc.h"
#include "nenv.h"
#include "const.h"
#include "globals.h"
#include "init.h"
#include "conf.h"

int nbspd_main(int argc, char **argv);
#define MN INT_MIN
#define MX INT_MAX
enum { T_S, T_I, T_U, T_M, T_T };
#define S(name, f, ne) { #name, T_S, offsetof(struct nbsp_globals, f), sizeof(g.f), ne, 0 },
#define I(name, f, lo, hi) { #name, T_I, offsetof(struct nbsp_globals, f), sizeof(g.f), lo, hi },
#define U(name, f, lo, hi) { #name, T_U, offsetof(struct nbsp_globals, f), sizeof(g.f), lo, hi },
#define M(name, f, lo, hi) { #name, T_M, offsetof(struct nbsp_globals, f), sizeof(g.f), lo, hi },
#define T(name, f, lo, hi) { #name, T_T, offsetof(struct nbsp_globals, f), sizeof(g.f), lo, hi },
/*
 * The variables of nbspd.conf, what they set, and the values that they can
 * have (for strings, whether they cannot be empty).
 */
static const struct var { const char *name; int type; size_t off, size; int lo, hi; } V[] = {
  S(user, user, 0)
  S(group, group, 0)
  S(home, home, 0)
  M(umask, umask, MN, MX)
  S(multicastip, multicastip, 1)
  S(multicastport, multicastport, 1)
  S(ifname, ifname, 0)
  S(ifip, ifip, 0)
  I(udprcvsize, udprcvsize, -1, MX)
  S(startscript, startscript, 0)
  S(stopscript, stopscript, 0)
  S(scheduler, scheduler, 1)
  I(spooltype, spooltype, 1, 3)
  S(spooldir, spooldir, 1)
  U(spooldb_slots, spooldb_slots, 0, MX)
  S(spooldb_fname, spooldb_fname, 1)
  S(cspoolbdb_dir, cspoolbdb_dir, 1)
  S(cspoolbdb_name, cspoolbdb_name, 1)
  M(cspoolbdb_mode, cspoolbdb_mode, MN, MX)
  U(cspoolbdb_dbcache_mb, cspoolbdb_dbcache_mb, 1, MX)
  U(cspoolbdb_ndb, cspoolbdb_ndb, 1, MX)
  I(cspoolbdb_nslots, cspoolbdb_nslots, 1, MX)
  U(cspoolbdb_maxsize_per128, cspoolbdb_maxsize_per128, 0, 128)
  U(mspoolbdb_dbcache_mb, mspoolbdb_dbcache_mb, 1, MX)
  U(mspoolbdb_ndb, mspoolbdb_ndb, 1, MX)
  I(mspoolbdb_nslots, mspoolbdb_nslots, 1, MX)
  U(mspoolbdb_maxsize_per128, mspoolbdb_maxsize_per128, 0, 128)
  S(mspoolbdb_dbstats_logfile, mspoolbdb_dbstats_logfile, 1)
  T(mspoolbdb_dbstats_logperiod_secs, mspoolbdb_dbstats_logperiod_secs, 0, MX)
  S(mspoolbdb_panicfile, mspoolbdb_panicfile, 1)
  M(mspoolbdb_panicfile_mode, mspoolbdb_panicfile_mode, MN, MX)
  S(devdir, filterdevdir, 1)
  I(filterserver_enable, filterserver_enable, 0, 1)
  S(filterlist, sysfilterlist, 0)
  S(emwinfilter, emwinfilter, 0)
  S(emwinfilter_fifo, emwinfilter_fifo, 0)
  I(emwinfilter_read_timeout_secs, emwinfilter_read_timeout_secs, 0, MX)
  I(emwinfilter_always, emwinfilter_always, 0, 1)
  I(netfilter_enable, netfilter_enable, 0, 1)
  S(netfilter, netfilter, 0)
  I(httpd_enable, httpd_enable, 0, 1)
  S(httpd, httpd, 1)
  S(pidfile, pidfile, 1)
  M(pidfilemode, pidfile_mode, MN, MX)
  S(qstatefifo, qstatefifo, 1)
  M(qstatefifomode, qstatefifo_mode, MN, MX)
  S(statusfile, statusfile, 1)
  S(missinglogfile, missinglogfile, 1)
  S(rtxlogfile, rtxlogfile, 1)
  S(qstatelogfile, qstatelogfile, 1)
  S(qdbstatslogfile, qdbstatslogfile, 1)
  S(serverstatefile, serverstatefile, 1)
  S(serveractivefile, serveractivefile, 1)
  S(serverthreadsfile, serverthreadsfile, 1)
  S(filterserver_statefile, filterserver_statefile, 1)
  S(slavestatsfile, slavestatsfile, 1)
  M(productmode, product_mode, MN, MX)
  M(subdirmode, subdir_product_mode, MN, MX)
  I(spoolsavefmt, spoolsavefmt, 0, MX)
  T(nbspstats_logperiod_secs, nbspstats_logperiod_secs, 0, MX)
  T(qstate_logperiod_secs, qstate_logperiod_secs, 0, MX)
  T(serverstate_logperiod_secs, serverstate_logperiod_secs, 0, MX)
  I(serverthreads_logperiod_packets, serverthreads_logperiod_packets, -1, MX)
  T(serverthreads_logperiod_secs, serverthreads_logperiod_secs, 0, MX)
  I(servertype, servertype, 0, BUILTIN_SERVER_ALL)
  S(servername, servername, 0)
  S(serverport, serverport, 1)
  I(server_maxclients, server_maxclients, -1, MX)
  I(server_so_sndbuf, server_so_sndbuf, -1, MX)
  I(server_clientid_timeout_secs, server_clientid_timeout_secs, 1, MX)
  I(server_clientqlimit_logperiod_secs, server_clientqlimit_logperiod_secs, 1, MX)
  I(broadcast_read_timeout_secs, broadcast_read_timeout_secs, 0, MX)
  I(fifo_write_timeout_ms, fifo_write_timeout_ms, 0, MX)
  I(client_write_timeout_ms, client_write_timeout_ms, 0, MX)
  I(client_write_timeout_retry, client_write_timeout_retry, 0, MX)
  I(client_reconnect_wait_sleep_secs, client_reconnect_wait_sleep_secs, 0, MX)
  I(client_reconnect_wait_sleep_retry, client_reconnect_wait_sleep_retry, 0, MX)
  S(clientoptions, clientoptions, 0)
  I(memfileblocksize, memfile_blocksize, 512, MX)
  I(memfileminsize, memfile_minsize, 1024, MX)
  S(dbhome, dbhome, 1)
  I(dbcachemb, dbcache_mb, 1, MX)
  I(dbextent, dbextent_size, 1, MX)
  M(dbfilemode, dbfile_mode, MN, MX)
  S(qdbfname, qdb_dbfname, 0)
  S(pctldbfname, pctl_dbfname, 0)
  S(pctlmfdbfname, pctlmf_dbfname, 0)
  I(queuemaxsoft, queue_maxsize_soft, 0, MX)
  I(queuemaxhard, queue_maxsize_hard, 0, MX)
  I(queue_read_timeout_ms, queue_read_timeout_ms, 0, MX)
  I(queue_quota_logperiod_secs, queue_quota_logperiod_secs, 0, MX)
  I(pctlmaxsoft, pctl_maxsize_soft, 0, MX)
  I(pctlmaxhard, pctl_maxsize_hard, 0, MX)
  I(pctlmaxmemsoft, pctl_maxmem_soft, 0, MX)
  I(pctlmaxmemhard, pctl_maxmem_hard, 0, MX)
  I(pctl_read_timeout_ms, pctl_read_timeout_ms, 0, MX)
  I(clientqueuedbcachemb, client_queue_dbcache_mb, 0, MX)
  I(clientqueuemaxsoft, client_queue_maxsize_soft, 0, MX)
  I(clientqueuemaxhard, client_queue_maxsize_hard, 0, MX)
  I(client_queue_read_timeout_ms, client_queue_read_timeout_ms, 0, MX)
  S(rtxdb_dbfname, rtxdb_dbfname, 0)
  U(rtxdb_slots, rtxdb_slots, 0, MX)
  U(rtxdb_truncate_minutes, rtxdb_truncate_minutes, 1, MX)
  I(rtxdb_default_process, rtxdb_default_process, 0, MX)
  I(loadave_max_hard, loadave_max_hard, 0, MX)
  I(loadave_max_soft, loadave_max_soft, 0, MX)
  I(loadave_max_sleep_secs, loadave_max_sleep_secs, 0, MX)
  I(loadave_checkperiod_secs, loadave_checkperiod_secs, 0, MX)
  I(loadave_max_rtx_index, loadave_max_rtx_index, 0, MX)
  I(feedmode, feedmode, 1, MX)
  S(masterservers, masterservers, 0)
  S(slave_masterport, slave_masterport, 1)
  I(slave_read_timeout_secs, slave_read_timeout_secs, 0, MX)
  I(slave_read_timeout_retry, slave_read_timeout_retry, 0, MX)
  I(slave_reopen_timeout_secs, slave_reopen_timeout_secs, 0, MX)
  I(slave_so_rcvbuf, slave_so_rcvbuf, -1, MX)
  I(slave_stats_logperiod_secs, slave_stats_logperiod_secs, 0, MX)
  I(slave_reject_duplicates, slave_reject_duplicates, 0, MX)
  S(infeedfifo, infifo, 1)
  M(infeedfifomode, infifo_mode, MN, MX)
  S(infeedfifogrp, infifo_grp, 1)
  S(acceptpatt, patt_accept, 0)
  S(filterqacceptpatt, filterq_patt_accept, 0)
  S(serverqacceptpatt, serverq_patt_accept, 0)
  S(nbs1acceptpatt, nbs1_patt_accept, 0)
  S(nbs2acceptpatt, nbs2_patt_accept, 0)
  S(emwinacceptpatt, emwin_patt_accept, 0)
  S(savezacceptpatt, savez_patt_accept, 0)
  S(rtxdbacceptpatt, rtxdb_patt_accept, 0)
};
#define NV ((int)(sizeof(V)/sizeof(V[0])))

static char *file1, *file2;
static int out_, err_, null_;
static void quiet(int q){
  fflush(stdout); fflush(stderr);
  if(q){ dup2(null_, 1); dup2(null_, 2); }
  else{ dup2(out_, 1); dup2(err_, 2); }
}
static void init(void){
  nenv_init();
  if(!getenv("MC_LOGS")) nenv_log_format = 0;
  out_ = dup(1); err_ = dup(2); null_ = open("/dev/null", O_RDWR);
  file1 = nenv_path("def.conf"); file2 = nenv_path("other.conf");
}
/* ------------------------------------------------- the command line, main() */
static void *J[5];
static int nerrx, nprivs, natexit;
void __wrap_errx(int s, const char *f, ...){ (void)f; (void)s; ++nerrx; __builtin_longjmp(J, 1); }
static struct nbsp_globals seen;
int __wrap_drop_privs(void){ ++nprivs; seen = g; return(1); }
int __wrap_atexit(void (*f)(void)){ (void)f; ++natexit; return(0); }
void __real_init_globals(void);
void __wrap_init_globals(void){ __real_init_globals(); g.defconfigfile = file1; }

static const char *SV[] = { "x y", "", "1" };
static const char *IV[] = { "0", "1", "2", "-1", "-2", "3", "4", "7", "8", "128",
  "129", "511", "512", "1023", "1024", "2147483647", "-2147483648", "0777", "abc",
  "1.5", "1 2" };
#define NSV 3
#define NIV 21
static int nval(const struct var *v){ return(v->type == T_S ? NSV : NIV); }
/* the number a value is, 0 if none */
static int num(const char *s, int *n){
  char *e;
  if(s[0] == '0' && s[1]){ *n = (int)strtol(s, &e, 8); return(*e == 0); }
  *n = (int)strtol(s, &e, 10);
  return(*e == 0);
}
static const char *val(const struct var *v, int k){ return(v->type == T_S ? SV[k] : IV[k]); }
static void put(const char *f, const char *fmt, ...){
  static char b[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof(b), fmt, ap);
  va_end(ap);
  nenv_writefile(f, b, strlen(b));
}
/* whether the value may be used (it is a number, if it has to be) */
static int syntax(const struct var *v, const char *s){
  int n;
  return(v->type == T_S || num(s, &n));
}
static int allowed(const struct var *v, const char *s){
  int n;
  if(v->type == T_S) return(!v->lo || s[0]);
  return(num(s, &n) && n >= v->lo && n <= v->hi);
}
static struct nbsp_globals before;
/* what the parameter is has to be as the value; and it is made as it was */
static void expect(const struct var *v, const char *s){
  char *p = (char *)&g + v->off;
  int n;
  if(v->type == T_S){
    char *q;
    memcpy(&q, p, sizeof(q));
    if(q == NULL || strcmp(q, s) != 0)
      mc_fail("after \"set %s {%s}\" it is \"%s\"", v->name, s, q ? q : "(null)");
  }else{
    long long x = 0;
    num(s, &n);
    if(v->size == 4){ int y; memcpy(&y, p, 4); x = y; }
    else{ memcpy(&x, p, 8); if(x > INT_MAX) x = (int)x; }
    if(x != n) mc_fail("after \"set %s %s\" it is %lld", v->name, s, x);
  }
  memcpy(p, (char *)&before + v->off, v->size);
}
static void same(const char *what){
  int i;
  if(memcmp(&g, &before, sizeof(g)) == 0) return;
  for(i = 0; i < NV; ++i)
    if(memcmp((char *)&g + V[i].off, (char *)&before + V[i].off, V[i].size))
      mc_fail("%s changes %s", what, V[i].name);
  mc_fail("%s changes something else", what);
}
static void start(void){
  __wrap_init_globals();
  /* times are different */
  memset(&g.nbspstats, 0, sizeof(g.nbspstats));
  before = g;
}
static void one_body(void){
  int i = mc_choose(NV, "variable"), k, how, st, ok;
  const struct var *v = &V[i];
  const char *s, *s0 = NULL;
  struct nbsp_globals x;
  k = mc_choose(nval(v), "value");
  how = mc_choose(4, "how");
  s = val(v, k);
  mc_note("%s {%s} %d ", v->name, s, how);
  unlink(file1); unlink(file2);
  start();
  /* in the file that is read always; in another; in both; among other things */
  if(how == 0) put(file1, "set %s {%s}\n", v->name, s);
  if(how == 1){ put(file2, "# a comment\nset %s {%s}", v->name, s); }
  if(how == 2){
    s0 = v->type == T_S ? "first" : "1027";
    put(file1, "set %s {%s}\n", v->name, s0);
    put(file2, "set %s {%s}\n", v->name, s);
  }
  if(how == 3)
    put(file1, "### set %s 5\nset notours 3\nif {1} {\n  set %s {%s}; set x 1\n}\n"
	"if {0} {set %s 6}\n", v->name, v->name, s, v->name);
  quiet(1);
  st = configure();
  if(how == 1 || how == 2){
    quiet(0);
    if(st != 0) mc_fail("the first file is refused");
    quiet(1);
    g.configfile = before.configfile = file2;
    st = configure();
  }
  quiet(0);
  mc_step();
  ok = syntax(v, s);
  if(!ok){
    if(st == 0) mc_fail("\"set %s {%s}\" is accepted", v->name, s);
    mc_outcome(1);
    return;
  }
  if(st != 0) mc_fail("\"set %s {%s}\" is refused", v->name, s);
  x = g;
  expect(v, s);
  same(v->name);
  g = x;
  quiet(1);
  st = validate_configuration();
  quiet(0);
  if(memcmp(&x, &g, sizeof(g))) mc_fail("the validation changes something");
  if(allowed(v, s) != (st == 0))
    mc_fail("the value {%s} of %s is %s", s, v->name, st == 0 ? "accepted" : "refused");
  mc_outcome(mc_hashi(mc_hashi(MC_H0, i), k*2 + (st == 0)));
}
static const char *typical(const struct var *v, int w){
  static char b[40];
  if(v->type == T_S) snprintf(b, sizeof(b), "%s-%d", v->name, w);
  else if(v->hi < 2000) snprintf(b, sizeof(b), "%d", v->hi - w % (v->hi - v->lo > 1 ? 2 : 1));
  else snprintf(b, sizeof(b), "%d", 1030 + w);
  return(b);
}
static void pairs_body(void){
  int i = mc_choose(NV, "variable"), j = mc_choose(NV, "other"), st;
  char a[60], b[60];
  strcpy(a, typical(&V[i], 3)); strcpy(b, typical(&V[j], 8));
  unlink(file2);
  start();
  put(file1, "set %s {%s}\nset %s {%s}\n", V[i].name, a, V[j].name, b);
  mc_note("%s %s ", V[i].name, V[j].name);
  quiet(1);
  st = configure();
  if(st == 0) st = validate_configuration();
  quiet(0);
  mc_step();
  if(st != 0) mc_fail("%s {%s} and %s {%s} are refused", V[i].name, a, V[j].name, b);
  if(i != j) expect(&V[i], a);
  expect(&V[j], b);
  same("the pair");
  mc_outcome(mc_hashi(mc_hashi(MC_H0, i), j));
}
/* all of them at once; no file; a file that is not there or not Tcl */
static void files_body(void){
  static char b[20000];
  int k = mc_choose(8, "case"), st, i, n = 0;
  unlink(file1); unlink(file2);
  start();
  if(k <= 1){
    for(i = 0; i < NV; ++i)
      n += sprintf(b + n, "set %s {%s}\n", V[i].name, typical(&V[i], i));
    nenv_writefile(file1, b, n);
    if(k){ rename(file1, file2); g.configfile = before.configfile = file2; }
  }
  if(k == 2) put(file1, "");
  if(k == 3) put(file1, "set umask 7\nnosuchcommand\n");
  if(k == 4) put(file1, "set umask {\n");
  if(k == 6) g.configfile = file2;		/* and it is not there */
  if(k == 7) put(file1, "set umask 7\nerror \"no\"\n");
  quiet(1);
  st = configure();
  if(st == 0) st = validate_configuration();
  quiet(0);
  mc_step();
  if(k == 3 || k == 4 || k == 6 || k == 7){
    if(st == 0) mc_fail("a configuration file that cannot be read is accepted (%d)", k);
    return;
  }
  if(st != 0) mc_fail("the configuration is refused (%d)", k);
  if(k <= 1) for(i = 0; i < NV; ++i) expect(&V[i], typical(&V[i], i));
  same("the file");
}
/* what -C prints is what the parameters are; some have there another name */
static const char *AKA[][2] = { {"devdir", "filterdevdir"}, {"filterlist", "sysfilterlist"},
  {"qstatefifomode", "qstatefifo_mode"}, {"queuemaxsoft", "queuemaxsizesoft"},
  {"queuemaxhard", "queuemaxsizehard"}, {"clientqueuemaxsoft", "clientqueuemaxsizesoft"},
  {"clientqueuemaxhard", "clientqueuemaxsizehard"},
  {"serverqacceptpatt", "serverqpacceptpatt"} };
static int printed(const char *t, const char *name, const char *v){
  char want[2000];
  snprintf(want, sizeof(want), "\n%s %s\n", name, v);
  return(strstr(t, want) != NULL || strncmp(t, want + 1, strlen(want) - 1) == 0);
}
void print_confoptions(void);
static void print_body(void){
  static char b[20000], *t;
  int k = mc_choose(2, "case"), i, n = 0, fd, a, ok;
  ssize_t m;
  unlink(file1); unlink(file2);
  start();
  if(k){
    for(i = 0; i < NV; ++i)
      n += sprintf(b + n, "set %s {%s}\n", V[i].name, typical(&V[i], i));
    nenv_writefile(file1, b, n);
  }
  quiet(1);
  if(configure() != 0){ quiet(0); mc_fail("the configuration is refused"); }
  fd = open(file2, O_RDWR|O_CREAT|O_TRUNC, 0644);
  dup2(fd, 1);
  close(fd);
  print_confoptions();
  quiet(0);
  mc_step();
  fd = open(file2, O_RDONLY);
  m = read(fd, b, sizeof(b) - 1);
  close(fd);
  b[m] = 0;
  t = b;
  for(i = 0; i < NV; ++i){
    char *p = (char *)&g + V[i].off, *q, num_[40];
    unsigned x;
    if(V[i].type == T_S) memcpy(&q, p, sizeof(q));
    else{ memcpy(&x, p, 4); sprintf(num_, V[i].type == T_M ? "%o" : "%d", x); q = num_; }
    if(q == NULL) q = "NULL";
    if(q[0] == 0) q = "\"\"";
    ok = printed(t, V[i].name, q);
    for(a = 0; a < 8; ++a)
      if(!strcmp(AKA[a][0], V[i].name)) ok |= printed(t, AKA[a][1], q);
    if(!ok) mc_fail("%s {%s} is not printed so by -C", V[i].name, q);
  }
}
/* options of the command line */
static void args_body(void){
  static const char *O[] = { "-f", "-r", "-s", "-F", "-D", "-V", "-C", "-c", "-x", "-c2",
    "-fr", "arg" };
  char *av[12], fa[400];
  int ac = 1, k, i, f = 0, r = 0, s = 0, F_ = 0, D = 0, v = 0, C_ = 0, bad = 0, c = 0;
  int st = -1, stop = 0, want;
  int n = mc_choose(mc_tier ? 5 : 4, "options");
  av[0] = "nbspd";
  put(file1, "set feedmode 2\nset dbcachemb 4\n");
  put(file2, "set feedmode 3\n");
  for(i = 0; i < n; ++i){
    k = mc_choose(12, "option");
    if(stop) continue;
    if(k == 0 || k == 10) f = 1;
    if(k == 1 || k == 10) r = 1;
    if(k == 2) s = 1;
    if(k == 3) F_ = 1;
    if(k == 4) ++D;
    if(k == 5) ++v;
    if(k == 6) C_ = 1;
    if(k == 8) bad = 1;
    if(k == 7){ av[ac++] = "-c"; av[ac++] = file2; c = 1; }
    else if(k == 9){ snprintf(fa, sizeof(fa), "-c%s", file2); av[ac++] = fa; c = 1; }
    else av[ac++] = (char *)O[k];
    mc_note("%s ", O[k]);
  }
  av[ac] = NULL;
  /* as it is: the same option may be given again, but for these three */
  {
    int q = 0;
    for(i = 1; i < ac; ++i){
      if(!strcmp(av[i], "-f") || !strcmp(av[i], "-r") || !strcmp(av[i], "-s")) ++q;
      if(!strcmp(av[i], "-fr")) q += 2;
    }
    if(q >= 3 && !(f && r && s)) return;
  }
  nprivs = nerrx = 0;
  optind = 0;
  if(__builtin_setjmp(J) == 0){
    quiet(1);
    st = nbspd_main(ac, av);
  }
  quiet(0);
  mc_step();
  want = bad || (f && r && s);
  if(want){
    if(!nerrx && st == 0) mc_fail("the options are accepted");
    if(nprivs) mc_fail("it goes on with wrong options");
    mc_outcome(1);
    return;
  }
  if(nerrx) mc_fail("the options are refused");
  if(C_){
    if(st != 0 || nprivs) mc_fail("with -C it goes on or fails");
    seen = g;
  }else if(!nprivs) mc_fail("it does not start with these options");
  if(seen.option_disable_filters != f || seen.option_disable_readers != r ||
     seen.option_disable_server != s || seen.option_F != F_ ||
     seen.f_debug != D || seen.f_verbose != v || seen.f_ndaemon != (D >= 2))
    mc_fail("the options are f%d r%d s%d F%d D%d V%d daemon %d",
	    seen.option_disable_filters, seen.option_disable_readers,
	    seen.option_disable_server, seen.option_F, seen.f_debug,
	    seen.f_verbose, !seen.f_ndaemon);
  if(seen.feedmode != (c ? 3 : 2)) mc_fail("feedmode is %d", seen.feedmode);
  if(seen.dbcache_mb != 4) mc_fail("dbcachemb is %d", seen.dbcache_mb);
  mc_outcome(mc_hashi(mc_hashi(MC_H0, f + 2*r + 4*s + 8*F_ + 16*C_), D*100 + v*10 + c));
}
static void body(void){
  if(strcmp(mc_arg, "one") == 0) one_body();
  else if(strcmp(mc_arg, "pairs") == 0) pairs_body();
  else if(strcmp(mc_arg, "files") == 0) files_body();
  else if(strcmp(mc_arg, "print") == 0) print_body();
  else if(strcmp(mc_arg, "args") == 0) args_body();
  else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { .hang_s = 20, .fork_each = 1, .fork_batch = 1 };
  return(mc_main(argc, argv, &o, init, body));
}
