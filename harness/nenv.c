#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <ftw.h>
#include <errno.h>
#include <sys/stat.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "globals.h"
#include "const.h"
#include "err.h"
#include "init.h"
#include "nbspre.h"

uint64_t nenv_logs;
int nenv_log_format = 1;
char nenv_lastlog[1024];

void __wrap_vsyslog(int pri, const char *fmt, va_list ap){
  ++nenv_logs;
  (void)pri;
  if(nenv_log_format) vsnprintf(nenv_lastlog, sizeof(nenv_lastlog), fmt, ap);
  if(mc_replaying() && getenv("MC_LOGS")) fprintf(stderr, "log %lld.%03lld: %s\n", (long long)vclock_ns/1000000000, (long long)vclock_ns/1000000%1000, nenv_lastlog);
}
void __wrap_syslog(int pri, const char *fmt, ...){
  va_list ap;
  va_start(ap, fmt);
  __wrap_vsyslog(pri, fmt, ap);
  va_end(ap);
}
void __wrap_openlog(const char *a, int b, int c){ (void)a;(void)b;(void)c; }
void __wrap_closelog(void){ }

char *nenv_path(const char *rel){
  char *p = NULL;
  if(asprintf(&p, "%s/%s", mc_scratch, rel) < 0) abort();
  return(p);
}
static int rmone(const char *p, const struct stat *sb, int f, struct FTW *w){
  (void)sb; (void)f;
  if(w->level == 0) return(0);
  if(strncmp(p, mc_scratch, strlen(mc_scratch)) != 0) abort();
  return(remove(p));
}
void nenv_rmtree_contents(const char *rel){
  char *p = nenv_path(rel);
  if(strlen(mc_scratch) < 10) mc_die("bad scratch");
  nftw(p, rmone, 16, FTW_DEPTH|FTW_PHYS);
  free(p);
}
int nenv_slurp(const char *path, void *buf, size_t max){
  int fd = open(path, O_RDONLY);
  ssize_t n; size_t t = 0;
  if(fd < 0) return(-1);
  while(t < max && (n = read(fd, (char *)buf + t, max - t)) > 0) t += n;
  close(fd);
  return((int)t);
}
void nenv_writefile(const char *path, const void *p, size_t n){
  int fd = open(path, O_WRONLY|O_CREAT|O_TRUNC, 0644);
  if(fd < 0) mc_die("cannot write %s: %s", path, strerror(errno));
  if(write(fd, p, n) != (ssize_t)n) mc_die("write %s", path);
  close(fd);
}
static char *mk(const char *rel){
  char *p = nenv_path(rel);
  mkdir(p, 0755);
  return(p);
}
void nenv_init(void){
  set_log_daemon();
  memset(&g, 0, sizeof(g));
  init_globals();
  g.user = g.group = NULL;
  g.home = NULL;
  g.spooltype = SPOOLTYPE_FS;
  g.spooldir = mk("spool");
  g.dbhome = mk("db");
  g.filterdevdir = mk("dev");
  mk("run"); mk("log");
  g.spooldb_fname = nenv_path("db/spool.dat");
  g.cspoolbdb_dir = mk("cspool");
  g.startscript = g.stopscript = NULL;
  g.pidfile = nenv_path("run/nbspd.pid");
  g.qstatefifo = nenv_path("run/qstate.fifo");
  g.statusfile = nenv_path("run/status");
  g.missinglogfile = nenv_path("log/missing.log");
  g.rtxlogfile = nenv_path("log/rtx.log");
  g.qstatelogfile = nenv_path("run/qstate");
  g.qdbstatslogfile = nenv_path("run/qdbstats");
  g.serverstatefile = nenv_path("run/servers");
  g.serveractivefile = nenv_path("run/active");
  g.serverthreadsfile = nenv_path("run/threads");
  g.filterserver_statefile = nenv_path("run/filters");
  g.slavestatsfile = nenv_path("run/slave");
  g.mspoolbdb_dbstats_logfile = nenv_path("run/mspool");
  g.mspoolbdb_panicfile = nenv_path("run/panic");
  g.infifo = nenv_path("run/infeed.fifo");
  g.emwinfilter_fifo = nenv_path("run/emwin.fifo");
  g.pctl_dbfname = NULL;
  g.pctlmf_dbfname = NULL;
  g.qdb_dbfname = NULL;
  g.rtxdb_dbfname = NULL;
  g.httpd_enable = 0;
}
