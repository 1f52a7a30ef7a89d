/*
 * C26: the life of the daemon: its start, the signals, what it does
 * periodically, and its end. The whole program runs, from main(), in fibers.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "dbx.h"
#include "iox.h"
#include "fr.h"
#include "const.h"
#include "globals.h"
#include "pctl.h"
#include "nbsp.h"
#include "nbspq.h"
#include "npcast.h"
#include "framep.h"
#include "per.h"
#include "init.h"
#include "reader.h"
#include "filters.h"
#include "server.h"
#define SEC 1000000000LL

int nbspd_main(int argc, char **argv);

static int hupsig, hup_pipes;
static int up_;			/* 1: main() runs, 2: the exit handler */
static int starting;		/* before the main loop */
static int cfg_mode, cfg_srv, cfg_spool;
static int nterm, termsig, endsig = SIGTERM, openfail = -1, quitnow;
static int ended_second;
static int64_t termtime;

/* ---------------------------------------------------------- single faults */
static int faults;		/* each operation may fail */
static unsigned nfault;
static const char *fault;
static int fault_at_start, fault_main;
static int flt(const char *what){
  if(!faults || !up_ || nfault) return(0);
  if(mc_choose(2, what) == 0) return(0);
  ++nfault; fault = what; fault_at_start = starting; fault_main = sched_self() == 0;
  mc_note("<%s fails> ", what);
  return(1);
}
static int io_hook(const char *op, const char *path){
  (void)path;
  return(flt(op));
}
static int db_hook(const char *op){
  if(flt(op)) return(ENOMEM);
  return(0);
}
static int create_hook(void *(*fn)(void *), void *arg){
  (void)fn; (void)arg;
  return(flt("pthread_create") ? EAGAIN : 0);
}
int __real_mkfifo(const char *, mode_t);
int __wrap_mkfifo(const char *p, mode_t m){
  if(flt("mkfifo")){ errno = ENOSPC; return(-1); }
  return(__real_mkfifo(p, m));
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m){
  if(strncmp(p, mc_scratch, strlen(mc_scratch)) == 0 && flt("fopen")){
    errno = ENOSPC; return(NULL);
  }
  return(__real_fopen(p, m));
}
int __wrap_daemon(int a, int b){
  (void)a; (void)b;
  if(flt("daemon")){ errno = EAGAIN; return(-1); }
  return(0);
}
static int nomem;
void *__real_malloc(size_t), *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n){
  if(nomem && flt("malloc")){ errno = ENOMEM; return(NULL); }
  return(__real_malloc(n));
}
void *__wrap_calloc(size_t a, size_t b){
  if(nomem && flt("calloc")){ errno = ENOMEM; return(NULL); }
  return(__real_calloc(a, b));
}

/* -------------------------------------------------------------- the signals */
static int sigs[32], nsigs, sigfiber = -1;
static int reloads[2], hups;	/* HUPs sent since the last reload, in all */
static int hup_at[32], nhup;
void (*__wrap_signal(int s, void (*h)(int)))(int){ (void)s; (void)h; return(SIG_DFL); }
static int sigpending_(void *a){ (void)a; return(nsigs > 0); }
int __wrap_sigwait(const sigset_t *set, int *sig){
  int i;
  sigfiber = sched_self();
  sched_wait(sigpending_, NULL, -1, "sigwait");
  /* a signal is pending once */
  *sig = sigs[0];
  for(i = 1; i < nsigs; ++i) sigs[i - 1] = sigs[i];
  --nsigs;
  if(!sigismember(set, *sig)) mc_fail("signal %d would not be waited for", *sig);
  return(0);
}
static int is_end(int s){ 
  return(s == SIGTERM || s == SIGINT || s == SIGQUIT || s == SIGABRT);
}
static void post(int s){
  int i;
  mc_note("<signal %d> ", s);
  if(is_end(s) && nterm++ == 0){ termtime = vclock_ns; termsig = s; }
  for(i = 0; i < nsigs; ++i) if(sigs[i] == s) return;
  sigs[nsigs++] = s;
}

/* ------------------------------------------------------- the configuration */
int __wrap_configure(void){
  static int one;
  int f = faults;
  if(one++) return(0);
  faults = 0;
  nenv_init();
  faults = f;
  g.dbcache_mb = 1;
  g.scheduler = "/nonexistent/scheduler";
  g.httpd = "httpd";
  g.httpd_enable = 1;
  g.multicastip = "224.0.1.1 224.0.1.2"; g.multicastport = "1201 1202";
  g.feedmode = 0;
  if(cfg_mode == 0) g.feedmode = FEEDMODE_NOAAPORT;
  if(cfg_mode == 1){ g.feedmode = FEEDMODE_MASTERSERVERS; g.masterservers = "1,m0,2210"; }
  if(cfg_mode == 2){ g.feedmode = FEEDMODE_MASTERSERVERS; g.masterservers = "2,m0,2210"; }
  if(cfg_mode == 3) g.feedmode = FEEDMODE_INPUTFIFO;
  if(cfg_mode == 4){
    g.feedmode = FEEDMODE_NOAAPORT | FEEDMODE_MASTERSERVERS | FEEDMODE_INPUTFIFO;
    g.masterservers = "1,m0,2210;2,m1,2210";
  }
  g.infifo_grp = "root";
  g.spooltype = cfg_spool;
  g.spooldb_slots = 4;
  g.mspoolbdb_dbcache_mb = 1; g.mspoolbdb_ndb = 2;
  g.cspoolbdb_dbcache_mb = 1; g.cspoolbdb_ndb = 2;
  g.servertype = cfg_srv ? SERVER_TYPE : 0;
  g.filterserver_enable = 1;
  g.netfilter_enable = 0;
  g.emwinfilter = NULL;
  if(hupsig) g.sysfilterlist = "";
  return(0);
}
void __wrap_Tcl_FindExecutable(const char *p){ (void)p; }
static int ncleanup;
int __wrap_atexit(void (*fn)(void)){
  if(fn != cleanup) mc_fail("something else is run at exit");
  ++ncleanup;
  return(0);
}

/* ----------------------------------------------------------------- the feed */
struct chan { int id, sfd, n, pos; struct sbn_frame f[8]; int err; };
static struct chan C[9];
static int nchan, sel_err, openorder;
static int ch_poll(struct vfd *v, int ev){
  struct chan *c = v->priv;
  (void)ev;
  return(c->pos < c->n || c->err ? POLLIN : 0);
}
int __wrap_mcast_rcv(char *ip, char *port, char *ifname, char *ifip, int sz,
		     void **sa, socklen_t *len, int *gai){
  struct chan *c;
  (void)ifname; (void)ifip; (void)sz;
  *gai = 0;
  if(flt("mcast_rcv")){ errno = ENODEV; return(-1); }
  if(openorder){
    char b[40];
    snprintf(b, sizeof(b), "224.0.1.%d", nchan + 1);
    if(strcmp(ip, b) != 0) mc_fail("channel %d is opened at %s", nchan, ip);
    snprintf(b, sizeof(b), "%d", 1201 + nchan);
    if(strcmp(port, b) != 0) mc_fail("channel %d is opened at port %s", nchan, port);
    if(nchan == openfail){ errno = ENODEV; return(-1); }
  }
  if(nchan == 9) mc_fail("too many channels are opened");
  c = &C[nchan];
  c->id = nchan++;
  if(ip == NULL || port == NULL) mc_fail("a channel without an address");
  mc_note("<%s:%s> ", ip, port);
  *sa = __real_malloc(sizeof(struct sockaddr_in));
  memset(*sa, 0, sizeof(struct sockaddr_in));
  *len = sizeof(struct sockaddr_in);
  c->sfd = vfd_new(c);
  vfd_get(c->sfd)->poll = ch_poll;
  return(c->sfd);
}
static struct chan *chan_of(int fd){
  struct vfd *v = vfd_get(fd);
  if(v == NULL) mc_fail("a channel is read after it was closed");
  return(v->priv);
}
static int chan_ready(void *a){
  struct chan *c = a;
  return(sel_err || c->pos < c->n || c->err);
}
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv){
  struct chan *c;
  int64_t dl = -1;
  if(n - 1 < VFD0) return(__real_select(n, r, w, e, tv));
  if(!FD_ISSET(n - 1, r)) mc_fail("select() without the channel");
  c = chan_of(n - 1);
  if(tv) dl = vclock_ns + tv->tv_sec*SEC + tv->tv_usec*1000LL;
  sched_wait(chan_ready, c, dl, "select");
  FD_ZERO(r);
  if(sel_err){ --sel_err; errno = EINTR; return(-1); }
  if(!chan_ready(c)) return(0);
  FD_SET(n - 1, r);
  return(1);
}
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a,
			socklen_t *al){
  struct chan *c;
  int k;
  if(fd < VFD0) return(__real_recvfrom(fd, b, n, fl, a, al));
  c = chan_of(fd);
  mc_step();
  if(!(fl & MSG_DONTWAIT) && !chan_ready(c)) mc_fail("recvfrom() would block");
  if(c->err){ k = c->err; c->err = 0; errno = k; return(-1); }
  if(c->pos >= c->n){ errno = EAGAIN; return(-1); }
  if(a == NULL || al == NULL || *al > sizeof(struct sockaddr_in))
    mc_fail("recvfrom() address of size %d", al ? (int)*al : 0);
  k = c->f[c->pos].rawdata_size;
  if(k > (int)n) k = (int)n;
  memcpy(b, c->f[c->pos].rawdata, k);
  ++c->pos;
  return(k);
}
/* what the readers give to the frame processor, when it is replaced */
static int rcv_mode, nrcv, rcv_st;
static struct { int ch, size; unsigned char first, last; } R[64];
int __real_sbnframeproc(struct sbn_frame *);
int __wrap_sbnframeproc(struct sbn_frame *f){
  if(!rcv_mode) return(__real_sbnframeproc(f));
  if(nrcv == 64) mc_fail("too many frames are processed");
  R[nrcv].ch = f->np_channel_index; R[nrcv].size = (int)f->rawdata_size;
  R[nrcv].first = f->rawdata[0];
  R[nrcv].last = f->rawdata_size > 0 ? f->rawdata[f->rawdata_size - 1] : 0;
  ++nrcv;
  return(rcv_st*(nrcv & 1));
}
/* frames of a complete product */
static unsigned sseq = 10;
static void feed(int ch, unsigned prod){
  struct chan *c = &C[ch];
  struct frspec s;
  char h[100];
  int n;
  memset(&s, 0, sizeof(s));
  n = sprintf(h, "SXUS%02d KWBC 010203\r\r\nABC%03d\r\r\n", 10 + prod % 50,
	      prod % 1000);
  s.channel = ch; s.cmd = 3; s.seqno = ++sseq; s.type = 7; s.prod = prod;
  s.data = h; s.data_size = n; s.ptype = 4; s.pcat = 3; s.pcode = 200;
  fr_build(&c->f[c->n++], &s);
}

/* the masters: nobody is there, or a silent one */
static int net_poll(struct vfd *v, int ev){ (void)v; return(ev & POLLOUT); }
static ssize_t net_write(struct vfd *v, const void *b, size_t n){
  (void)v; (void)b; return((ssize_t)n);
}
static int master_up;
int __wrap_tcp_client_open_conn(const char *host, const char *port, int tmo,
				int so_rcvbuf, int *gai){
  int fd;
  (void)host; (void)port; (void)tmo; (void)so_rcvbuf;
  *gai = 0;
  sched_point("connect");
  if(!master_up || flt("connect")){ errno = ECONNREFUSED; return(-1); }
  fd = vfd_new(NULL);
  vfd_get(fd)->poll = net_poll; vfd_get(fd)->write = net_write;
  return(fd);
}
static int srv_poll(struct vfd *v, int ev){ (void)v; (void)ev; return(0); }
int __wrap_tcp_server_open_conn(const char *h, const char *s, int bl, int sb,
				int rb, void *al, int *gai){
  int fd;
  (void)h; (void)s; (void)bl; (void)sb; (void)rb; (void)al;
  *gai = 0;
  if(flt("tcp_server_open_conn")){ errno = EADDRINUSE; return(-1); }
  fd = vfd_new(NULL);
  vfd_get(fd)->poll = srv_poll;
  return(fd);
}
/* programs */
static int npipe, pipes_open;
static ssize_t pr_write(void *a, const char *b, size_t n){
  (void)a; (void)b; return((ssize_t)n);
}
static FILE *PF[16];
FILE *__wrap_popen(const char *c, const char *m){
  cookie_io_functions_t io = { NULL, pr_write, NULL, NULL };
  (void)c; (void)m;
  if(flt("popen")){ errno = EMFILE; return(NULL); }
  if(npipe == 16) mc_fail("programs are started again and again");
  mc_note("<popen %s> ", c);
  ++pipes_open;
  PF[npipe] = fopencookie(NULL, "w", io);
  return(PF[npipe++]);
}
int __wrap_pclose(FILE *f){
  int i;
  for(i = 0; i < npipe; ++i) if(PF[i] == f) break;
  if(i == npipe) mc_fail("pclose() of what is not open");
  PF[i] = NULL; --pipes_open;
  fclose(f);
  return(0);
}
static int fifo_poll(struct vfd *v, int ev){ (void)v; (void)ev; return(0); }
static int fifo_open(const char *path, int flags){
  int fd;
  (void)flags;
  if(g.infifo == NULL || strcmp(path, g.infifo) != 0) return(-9);
  if(flt("open fifo")){ errno = EACCES; return(-1); }
  fd = vfd_new(NULL);
  vfd_get(fd)->poll = fifo_poll;
  return(fd);
}

/* ------------------------------------------------- what is done periodically */
enum { V_PCTL, V_QDB, V_QSTATE, V_STATS, V_SERVER, V_FILTERS, V_LOAD, V_RTX,
       V_MSPOOL, V_SCHED, V_N };
static const char *VN[] = { "the pctl report", "the queue report",
  "the log of the queues", "the statistics", "the state of the server",
  "the state of the filters", "the load check", "the rtx data base truncation",
  "the memory spool statistics", "the scheduler" };
static int count[V_N];
static int64_t last_ev[V_N];
#define EV(k, name) \
  void __real_##name(void); \
  void __wrap_##name(void){ ++count[k]; last_ev[k] = vclock_ns; if(up_) __real_##name(); }
EV(V_PCTL, rept_pctl_quota)
EV(V_QDB, e_nbspq_report_quota)
EV(V_QSTATE, log_qstate)
EV(V_STATS, nbspstats_update)
EV(V_SERVER, set_server_state_flag)
EV(V_FILTERS, set_filterserver_state_flag)
EV(V_LOAD, verify_load_ave_condition)
EV(V_RTX, set_rtxdb_truncate_flag)
EV(V_MSPOOL, nbsp_mspoolbdb_dbstats)
void __wrap_exec_scheduler(void){ ++count[V_SCHED]; last_ev[V_SCHED] = vclock_ns; }
void __real_set_reload_filters_flag(void), __real_set_reload_server_filters_flag(void);
void __wrap_set_reload_filters_flag(void){ ++reloads[0]; __real_set_reload_filters_flag(); }
void __wrap_set_reload_server_filters_flag(void){ ++reloads[1]; __real_set_reload_server_filters_flag(); }
unsigned __real_sleep(unsigned);
static void (*at_loop)(void);
static int nloop;
unsigned __wrap_sleep2(unsigned s){ return(__real_sleep(s)); }

/* -------------------------------------------------------------- the process */
static int exit_called;
void __wrap_exit(int s){
  exit_called = 1 + s;
  if(!sched_active()) _exit(s);
  cleanup();
  mc_die("exit");
}
static int exists(const char *p){ struct stat st; return(p && lstat(p, &st) == 0); }
static int nreal;
static int countfds(void){
  DIR *d = opendir("/proc/self/fd");
  int n = 0;
  if(d == NULL) return(0);
  while(readdir(d) != NULL) ++n;
  closedir(d);
  return(n);
}
static int mainstatus;
static void runmain(void){
  static char *av[] = { "nbspd", NULL };
  up_ = 1; starting = 1;
  mainstatus = nbspd_main(1, av);
  up_ = 2;
  if(ncleanup != 1) mc_fail("what is to be done at the end was not registered");
  cleanup();
  up_ = 0;
}
static int worldfiber = -1;
static void ended(void){
  int live = sched_nattached();
  if(worldfiber >= 0 && !sched_done(worldfiber)) --live;
  if(live > 0) mc_fail("the program ends with %d threads still running", live);
  if(vfd_nopen() != 0) mc_fail("%d connections are not closed", vfd_nopen());
  if(pipes_open != 0) mc_fail("%d programs are not closed", pipes_open);
  if(dbx_open_handles != 0)
    mc_fail("%d data bases are not closed", dbx_open_handles);
  if(exists(g.pidfile) && !(nfault && !fault_at_start))
    mc_fail("the pid file is left behind");
  if(exists(g.qstatefifo) && !(nfault && strcmp(fault, "unlink") == 0))
    mc_fail("the state fifo is left behind");
}

/* ------------------------------------------------------------- the scripts */
static int (*force_)(const char *);
static int mod_, res_;
static uint64_t npt;
static int term_force(const char *label){
  (void)label;
  if(!up_ || nterm || sigfiber < 0) return(-1);
  if((int)(npt++ % mod_) != res_) return(-1);
  if(mc_choose(2, "signal") == 0) return(-1);
  post(SIGTERM);
  return(sigfiber);
}
static void reset(void){
  memset(C, 0, sizeof(C));
  iox_prefix = mc_scratch;
  iox_hook = NULL; iox_faults = iox_points = 0; iox_open_hook = fifo_open;
  dbx_hook = NULL; dbx_faults = dbx_points = 0;
  sched_create_hook = NULL;
  sched_sync_points = 1; sched_delay = 1; sched_cancel = 1; sched_lenient = 0;
  vfd_poll_points = 1; vfd_strict = 1;
  nenv_rmtree_contents("spool"); nenv_rmtree_contents("log");
  nenv_rmtree_contents("run"); nenv_rmtree_contents("dev");
  nenv_rmtree_contents("db"); nenv_rmtree_contents("cspool");
  vfd_reset();
  vclock_reset();
}
static void nothing(void *a){ (void)a; }
static void init(void){
  nenv_init();
  if(!getenv("MC_LOGS")) nenv_log_format = 0;
  reset();
  sched_run(nothing, NULL);	/* what is said once is said now */
}
static int64_t t_end;
static int atterm;
static void *world(void *a){
  (void)a;
  sched_wait(NULL, NULL, vclock_ns + 7*SEC, "world");
  if(nchan > 0){ feed(0, 100); feed(0, 101); }
  sched_wait(NULL, NULL, vclock_ns + 6*SEC, "world");
  if(nchan > 1) feed(1, 102);
  sched_wait(NULL, NULL, vclock_ns + 60*SEC, "world");
  atterm = pipes_open;
  if(!nterm) post(endsig);
  return(NULL);
}
static int start_force(const char *label){
  if(strcmp(label, "sleep") == 0 && sched_self() == 0) starting = 0;
  return(force_ ? force_(label) : -1);
}
static void life(void *a){
  (void)a;
  sched_force = start_force;
  worldfiber = sched_spawn(world, NULL, "world");
  runmain();
  sched_force = NULL;
  t_end = vclock_ns;
}
static void setup(void){
  static const int modes[] = { 0, 0, 0, 1, 2, 3, 4 };
  static const int spools[] = { SPOOLTYPE_FS, SPOOLTYPE_MBDB, SPOOLTYPE_FMBDB,
    SPOOLTYPE_FS, SPOOLTYPE_FS, SPOOLTYPE_FS, SPOOLTYPE_FS };
  int k = mc_choose(7, "configuration");
  cfg_mode = modes[k]; cfg_spool = spools[k]; cfg_srv = 1;
  master_up = mc_choose(cfg_mode == 1 || cfg_mode == 2 || cfg_mode == 4 ? 2 : 1, "masters");
}
static void term_body(void){
  mod_ = 8; res_ = mc_choose(8, "moment mod 8");
  setup();
  reset();
  force_ = term_force;
  sched_run(life, NULL);
  ended();
  if(mainstatus != 0) mc_fail("the program ends with status %d", mainstatus);
  if(t_end - termtime > 12*SEC)
    mc_fail("the program ends %lld s after the signal", (long long)(t_end - termtime)/SEC);
}
static void fault_body(void){
  mod_ = 8;
  setup();
  reset();
  faults = 1;
  iox_hook = io_hook; dbx_hook = db_hook; sched_create_hook = create_hook;
  sched_run(life, NULL);
  faults = 0;
  ended();
  if(nterm == 0 && mainstatus == 0 && fault_at_start && fault_main)
    mc_fail("it could not start and ends with status 0");
  mc_note("end %d status %d %d ", nterm, mainstatus, (int)((t_end)/SEC%1000));
}
static void nomem_body(void){
  setup();
  reset();
  faults = nomem = 1;
  sched_run(life, NULL);
  faults = 0;
  ended();
}

/* ------------------------------------------------------------- a hangup */
/* at any moment; and other signals that must do nothing */
static int64_t huptime;
static void newfilter(const char *name){
  char b[64], *p;
  snprintf(b, sizeof(b), "dev/%s", name);
  p = nenv_path(b);
  nenv_writefile(p, "#!/bin/sh\n", 10);
  chmod(p, 0755);
  free(p);
}
static int hup_force(const char *label){
  (void)label;
  if(up_ != 1 || hups || nterm || sigfiber < 0) return(-1);
  if((int)(npt++ % mod_) != res_) return(-1);
  if(mc_choose(2, "signal") == 0) return(-1);
  ++hups;
  newfilter("late");
  huptime = vclock_ns; hup_pipes = npipe;
  post(hupsig);
  return(sigfiber);
}
static void hup_body(void){
  static const int sg[] = { SIGHUP, SIGALRM, SIGPIPE };
  static const int en[] = { SIGTERM, SIGINT, SIGQUIT, SIGABRT };
  int k;
  mod_ = 8; res_ = mc_choose(8, "moment mod 8");
  hupsig = sg[k = mc_choose(3, "which")];
  endsig = en[k ? mc_choose(4, "end") : 0];
  cfg_mode = 0; cfg_spool = SPOOLTYPE_FS; cfg_srv = 1;
  reset();
  newfilter("early");
  force_ = hup_force;
  sched_run(life, NULL);
  ended();
  if(mainstatus != 0) mc_fail("the program ends with status %d", mainstatus);
  if(termsig != endsig || t_end - termtime > 12*SEC)
    mc_fail("the program ends %lld s after the signal", (long long)(t_end - termtime)/SEC);
  if(!hups) return;
  if(hupsig != SIGHUP){
    if(reloads[0] || reloads[1]) mc_fail("signal %d reloads the filters", hupsig);
    return;
  }
  if(huptime > termtime - 20*SEC) return;
  if(reloads[0] != 1 || reloads[1] != 1)
    mc_fail("one hangup reloads the filters %d times and those of the server "
	    "%d times", reloads[0], reloads[1]);
  if(atterm != 3)		/* httpd, early, late */
    mc_fail("after a hangup %d programs are running and not 3", atterm);
  if(npipe > 5)	/* (the filters are started and then again) */
    mc_fail("a hangup starts %d programs", npipe - hup_pipes);
}

/* ----------------------------------------------------------- periodically */
static const int PV[] = { 0, 1, 5, 30, 60, 300, 7200 };
static void setperiod(int k, int p){
  if(k == V_PCTL || k == V_QDB) g.queue_quota_logperiod_secs = p;
  if(k == V_QSTATE) g.qstate_logperiod_secs = p;
  if(k == V_STATS) g.nbspstats_logperiod_secs = p;
  if(k == V_SERVER || k == V_FILTERS) g.serverstate_logperiod_secs = p;
  if(k == V_LOAD) g.loadave_checkperiod_secs = p;
  if(k == V_RTX) g.rtxdb_truncate_minutes = (p + 59)/60;
  if(k == V_MSPOOL) g.mspoolbdb_dbstats_logperiod_secs = p;
}
static void per_body(void){
  static const int steps[] = { 5, 1, 61, 600, 3599 };
  int per[V_N], i, n, last[V_N], k0, p0, p1;
  int64_t t0, t, min0;
  k0 = mc_choose(V_SCHED, "event");
  p0 = mc_choose(7, "period"); p1 = mc_choose(7, "period of the others");
  reset();
  memset(count, 0, sizeof(count)); memset(last, 0, sizeof(last));
  for(i = 0; i < V_SCHED; ++i) setperiod(i, PV[p1]);
  setperiod(k0, PV[p0]);
  if(g.rtxdb_truncate_minutes < 1) g.rtxdb_truncate_minutes = 1;
  for(i = 0; i < V_SCHED; ++i) per[i] = PV[p1];
  per[k0] = PV[p0];
  if(k0 == V_PCTL) per[V_QDB] = PV[p0];
  if(k0 == V_QDB) per[V_PCTL] = PV[p0];
  if(k0 == V_SERVER) per[V_FILTERS] = PV[p0];
  if(k0 == V_FILTERS) per[V_SERVER] = PV[p0];
  per[V_RTX] = g.rtxdb_truncate_minutes*60;
  vclock_ns = (1700000000LL + mc_choose(2, "phase")*59)*SEC;
  vclock_step_ns = 0;
  init_periodic();
  t0 = t = vclock_ns/SEC; min0 = t/60;
  for(n = 0; n < (mc_tier ? 5 : 4); ++n){
    t += steps[mc_choose(5, "later")];
    vclock_ns = t*SEC;
    memcpy(last, count, sizeof(last));
    mc_step();
    periodic();
    for(i = 0; i < V_SCHED; ++i){
      int64_t due = per[i] ? (t - t0)/per[i] : n + 1;
      int now_ = count[i] - last[i];
      if(count[i] > due)
	mc_fail("%s is done %d times after %lld s; its period is %d s", VN[i],
		count[i], (long long)(t - t0), per[i]);
      if(now_ > 1 || (now_ == 0 && last[i] < due))
	mc_fail("%s is done %d times now, %d before, after %lld s; its period "
		"is %d s", VN[i], now_, last[i], (long long)(t - t0), per[i]);
    }
    /* (a jump of just an hour may go unseen) */
    if((count[V_SCHED] - last[V_SCHED]) != (t/60 != min0) &&
       !(t/60 - min0 == 60 && count[V_SCHED] == last[V_SCHED]))
      mc_fail("the scheduler is run %d times when the minute %s",
	      count[V_SCHED] - last[V_SCHED],
	      t/60 != min0 ? "has changed" : "has not changed");
    min0 = t/60;
  }
  mc_outcome(mc_hash(MC_H0, count, sizeof(count)));
}

/* --------------------------------------------------- another one is running */
static void second(void *a){
  static char *av[] = { "nbspd", NULL };
  (void)a;
  up_ = 1; starting = 1;
  mainstatus = nbspd_main(1, av);
  cleanup();
  up_ = 0;
}
static void second_body(void){
  struct stat a, b;
  char buf[64], *f1, *f2;
  int n;
  setup();
  reset();
  nenv_init();
  nenv_writefile(g.pidfile, "1\n", 2);
  if(mkfifo(g.qstatefifo, 0600) != 0 || stat(g.qstatefifo, &a) != 0) mc_die("mkfifo");
  f1 = nenv_path("spool/kwbc"); mkdir(f1, 0755);
  f2 = nenv_path("spool/kwbc/a.1_2"); nenv_writefile(f2, "x", 1);
  free(f1);
  if(mc_choose(2, "what it left")) nenv_writefile(g.spooldb_fname, "y", 1);
  sched_run(second, NULL);
  if(mainstatus == 0) mc_fail("a second instance ends with status 0");
  ended_second = 1;
  n = nenv_slurp(g.pidfile, buf, sizeof(buf));
  if(n != 2 || memcmp(buf, "1\n", 2) != 0)
    mc_fail("a second instance changes the pid file");
  if(stat(g.qstatefifo, &b) != 0) mc_fail("a second instance removes the fifo");
  if(a.st_ino != b.st_ino) mc_fail("a second instance replaces the fifo");
  if(!exists(f2)) mc_fail("a second instance removes files from the spool");
  if(vfd_nopen() || nchan || npipe)
    mc_fail("a second instance opens connections or programs");
  if(sched_nattached()) mc_fail("a second instance starts threads");
  free(f2);
}

/* ------------------------------------------------------------- the channels */
static char ips[400], ports[400];
static void cfg_body(void){
  static const char *sep[] = { " ", ":", "  ", "\t", " \n" };
  int n = mc_choose(12, "addresses"), m = mc_choose(12, "ports"), i, st, k;
  int f = mc_choose(11, "which cannot be opened");
  const char *sp = sep[mc_choose(5, "separator")];
  int ends = mc_choose(2, "separators around");
  size_t fd0 = 0;
  (void)fd0;
  reset();
  memset(C, 0, sizeof(C)); nchan = 0;
  ips[0] = ports[0] = 0;
  if(ends){ strcat(ips, sp); strcat(ports, sp); }
  for(i = 0; i < n; ++i) sprintf(ips + strlen(ips), "%s224.0.1.%d", i ? sp : "", i + 1);
  for(i = 0; i < m; ++i) sprintf(ports + strlen(ports), "%s%d", i ? sp : "", 1201 + i);
  if(ends){ strcat(ips, sp); strcat(ports, sp); }
  openfail = f - 1; openorder = 1;
  st = np_open(ips, ports, NULL, NULL, 0);
  mc_step();
  openorder = 0;
  k = n == m && n >= 1 && n <= NPCAST_NUM_CHANNELS;
  if(!k){
    if(st == 0) mc_fail("%d addresses and %d ports are accepted", n, m);
    if(nchan) mc_fail("a channel is opened with %d addresses, %d ports", n, m);
  }else if(openfail >= 0 && openfail < n){
    if(st == 0) mc_fail("a channel that cannot be opened is not an error");
  }else{
    if(st != 0) mc_fail("%d channels cannot be opened: %d", n, st);
    if(nchan != n) mc_fail("%d channels are opened and not %d", nchan, n);
    if(get_npcast_numchannels() != n)
      mc_fail("the number of channels is %d and not %d", get_npcast_numchannels(), n);
    for(i = 0; i < NPCAST_NUM_CHANNELS; ++i)
      if(!get_npcast_channel_enable(i) != !(i < n))
	mc_fail("channel %d is %senabled with %d addresses", i,
		i < n ? "not " : "", n);
  }
  np_close();
  if(vfd_nopen()) mc_fail("%d channels are left open", vfd_nopen());
  np_close();
  mc_outcome(mc_hashi(mc_hashi(MC_H0, st), nchan));
}

/* -------------------------------------------------------------- the readers */
static int nact[2], want_ch[64], want_sz[64], want_a[64], want_b[64], nwant;
static int at_once, rcv_end;
static void rcv(void *a){
  static const int size[] = { 1, SBN_FRAME_SIZE, SBN_FRAME_SIZE + 60, 0 };
  int n, i, cancel_, nev = mc_tier ? 4 : 3;
  (void)a;
  if(np_open("224.0.1.1 224.0.1.2", "1201 1202", NULL, NULL, 0) != 0) mc_die("np_open");
  if(spawn_readers() != 0) mc_fail("the readers cannot be started");
  if(at_once == 0) sched_settle();
  for(n = 0; n < nev; ++n){
    int k = mc_choose(8, "event"), ch = 0;
    struct chan *c;
    if(k >= 4 && k < 6){ ch = 1; k -= 4; }
    c = &C[ch];
    if(k < 4){
      struct sbn_frame *f = &c->f[c->n];
      static unsigned char big[8][SBN_FRAME_SIZE + 100];
      int l = size[k];
      (void)big;
      f->rawdata_size = l > SBN_FRAME_SIZE ? SBN_FRAME_SIZE : l;
      memset(f->rawdata, 0x10 + n, SBN_FRAME_SIZE);
      if(f->rawdata_size) f->rawdata[f->rawdata_size - 1] = (char)(0x80 + n);
      if(f->rawdata_size){
	want_ch[nwant] = ch; want_sz[nwant] = (int)f->rawdata_size;
	want_a[nwant] = (unsigned char)f->rawdata[0];
	want_b[nwant++] = 0x80 + n;
      }
      ++c->n;
    }else if(k == 6) c->err = mc_choose(2, "error") ? EINTR : EAGAIN;
    else{
      ++sel_err;
    }
    if(mc_choose(2, "next") == 0) sched_settle();
    else if(n == 1) sched_wait(NULL, NULL, vclock_ns + (g.broadcast_read_timeout_secs + 1)*SEC, "quiet");
  }
  sched_settle();
  cancel_ = rcv_end;
  if(cancel_ == 0){ quitnow = 1; }
  kill_reader_threads();
  np_close();
  /* in order in each channel */
  for(i = 0; i < 2; ++i){
    int x = 0, y = 0;
    for(;;){
      while(x < nwant && want_ch[x] != i) ++x;
      while(y < nrcv && R[y].ch != i) ++y;
      if(x == nwant && y == nrcv) break;
      if(x == nwant) mc_fail("a frame of %d bytes is processed twice", R[y].size);
      if(y == nrcv) mc_fail("a frame of %d bytes is lost", want_sz[x]);
      if(R[y].size != want_sz[x] || R[y].last != want_b[x] ||
	 (want_sz[x] > 1 && R[y].first != want_a[x]))
	mc_fail("a frame of %d bytes is processed with %d bytes", want_sz[x], R[y].size);
      ++x; ++y;
    }
  }
  for(i = 0; i < nrcv; ++i)
    if(R[i].ch != 0 && R[i].ch != 1) mc_fail("a frame of channel %d", R[i].ch);
}
static void rcv_body(void){
  reset();
  sched_sync_points = 0;
  at_once = mc_choose(8, "how");
  rcv_end = at_once >> 1 & 1; rcv_st = (at_once >> 2) - 1;
  at_once &= 1;
  rcv_mode = 1; nrcv = nwant = 0; quitnow = 0;
  nchan = 0; sel_err = 0;
  memset(g.f_reader_thread_created, 0, sizeof(g.f_reader_thread_created));
  sched_run(rcv, NULL);
  rcv_mode = 0;
  if(sched_nattached()) mc_fail("the readers do not end");
  if(vfd_nopen()) mc_fail("the channels are not closed");
  mc_outcome(mc_hash(MC_H0, R, nrcv*sizeof(R[0])));
}
static void body(void){
  if(strcmp(mc_arg, "hup") == 0) hup_body();
  else if(strcmp(mc_arg, "per") == 0) per_body();
  else if(strcmp(mc_arg, "second") == 0) second_body();
  else if(strcmp(mc_arg, "cfg") == 0) cfg_body();
  else if(strcmp(mc_arg, "rcv") == 0) rcv_body();
  else if(strcmp(mc_arg, "nomem") == 0) nomem_body();
  else if(strcmp(mc_arg, "term") == 0) term_body();
  else if(strcmp(mc_arg, "faults") == 0) fault_body();
  else mc_die("part %s", mc_arg);
}
int __real_get_quit_flag(void);
int __wrap_get_quit_flag(void){
  return(rcv_mode ? quitnow : __real_get_quit_flag());
}
int main(int argc, char **argv){
  int i, f = 1;
  struct mc_opts o = {   .bound = 0, .hang_s = 20, .fork_each = 1, .fork_batch = 1 };
  /* those that do not run main() need no process of their own */
  for(i = 1; i + 1 < argc; ++i)
    if(strcmp(argv[i], "--part") == 0)
      f = strcmp(argv[i+1], "per") && strcmp(argv[i+1], "cfg") &&
	strcmp(argv[i+1], "rcv");
  o.fork_each = f;
  return(mc_main(argc, argv, &o, init, body));
}
