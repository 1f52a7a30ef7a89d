/*
 * C16: the local filters, pipes and fifos, from the filter queue to what each
 * of them reads.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "iox.h"
#include "const.h"
#include "globals.h"
#include "pctl.h"
#include "packfp.h"
#include "nbspq.h"
#include "dbenv.h"
#include "nbspmspoolbdb.h"
#include "filters.h"
#include "signal.h"
#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
#else
static size_t __sanitizer_get_current_allocated_bytes(void){ return(0); }
#endif
#define SEC 1000000000LL

static int quit_, quit_asked, expect_quit;
int __wrap_get_quit_flag(void){ return(quit_); }
void __wrap_set_quit_flag(void){ quit_ = 1; ++quit_asked; }

/* ------------------------------------------------------------ the filters */
enum { PA, PB, FA, FB, SA, SB, NF };	/* pipes, fifos, system pipes */
static const char *NAME[NF] = { "pa", "pb", "fa", "fb", "/usr/x/sysa",
				"/usr/x/sysb -v" };
static char *PATH[NF];
static int is_fifo(int f){ return(f == FA || f == FB); }
static int is_sys(int f){ return(f == SA || f == SB); }

struct inc {			/* one run of the program of a pipe, */
  int f, dead, closed, n;	/* or one opening of a fifo */
  FILE *fp;
  int fd;
  char b[6000];
  char want[6000];
  int nwant;
  int wclosed;
  int partial;		/* what comes last may be part of a packet */
};
static struct inc I[80];
static int ni;
/* the outside world */
static struct { int exists, reader, full, openfail; } X[NF];
/* the model */
static struct { int listed, cur; unsigned sent, err; } M[NF];
static void (*popen_hook)(void);
static int wnow;		/* closing a program takes its time */

static ssize_t ck_write(void *a, const char *b, size_t n){
  struct inc *p = a;
  mc_step();
  if(sched_active()) sched_point("pipe");
  if(p->dead){ errno = EPIPE; return(0); }
  if(p->n + n > sizeof(p->b)) mc_fail("too much is written to a filter");
  memcpy(p->b + p->n, b, n); p->n += n;
  return((ssize_t)n);
}
static int ck_close(void *a){ (void)a; return(0); }

FILE *__wrap_popen(const char *cmd, const char *mode){
  cookie_io_functions_t io = { NULL, ck_write, NULL, ck_close };
  struct inc *p;
  int f;
  if(mode[0] != 'w') mc_fail("popen mode %s", mode);
  for(f = 0; f < NF; ++f)
    if(!is_fifo(f) && strcmp(cmd, PATH[f]) == 0) break;
  if(f == NF) mc_fail("\"%s\" is run as a filter", cmd);
  if(sched_active()) sched_point("popen");
  if(X[f].openfail){ errno = EMFILE; return(NULL); }
  if(ni == 80) mc_die("incarnations");
  p = &I[ni++];
  memset(p, 0, sizeof(*p));
  p->f = f; p->fd = -1;
  p->dead = is_sys(f) ? 0 : !X[f].exists;	/* sh cannot find it */
  p->fp = fopencookie(p, "w", io);
  if(p->fp == NULL) mc_die("fopencookie");
  if(popen_hook){ void (*h)(void) = popen_hook; popen_hook = NULL; h(); }
  return(p->fp);
}
int __wrap_pclose(FILE *fp){
  int i;
  for(i = 0; i < ni; ++i) if(I[i].fp == fp) break;
  if(i == ni) mc_fail("pclose of what was not opened");
  fclose(fp);
  I[i].fp = NULL; ++I[i].closed;
  return(0);
}
/* fifos */
static ssize_t ff_write(struct vfd *v, const void *b, size_t n){
  struct inc *p = v->priv;
  size_t m = n;
  mc_step();
  if(!X[p->f].reader || p->dead){ errno = EPIPE; return(-1); }
  if(X[p->f].full == 1){ errno = EAGAIN; return(-1); }
  if(X[p->f].full == 2){ m = n/3; X[p->f].full = 1; p->partial = 1; }
  if(X[p->f].full == 3){ m = n/2; X[p->f].full = 0; }	/* in two parts */
  if(p->n + m > sizeof(p->b)) mc_fail("too much is written to a fifo");
  memcpy(p->b + p->n, b, m); p->n += m;
  return((ssize_t)m);
}
static int ff_poll(struct vfd *v, int ev){
  struct inc *p = v->priv;
  int r = 0;
  if(!X[p->f].reader || p->dead) r = POLLERR | (ev & POLLOUT);
  else if(X[p->f].full != 1) r = ev & POLLOUT;
  return(r);
}
static int ff_close(struct vfd *v){
  struct inc *p = v->priv;
  ++p->closed;
  return(0);
}
static int ff_open(const char *path, int flags){
  struct inc *p;
  int f, fd;
  for(f = 0; f < NF; ++f)
    if(is_fifo(f) && strcmp(path, PATH[f]) == 0) break;
  if(f == NF) return(-9);
  if((flags & O_ACCMODE) != O_WRONLY) mc_fail("a fifo is opened to read");
  if(!(flags & O_NONBLOCK) && !X[f].reader) mc_fail("a fifo without a reader "
     "is opened waiting for one");
  if(X[f].openfail){ errno = EMFILE; return(-1); }
  if(!X[f].exists){ errno = ENOENT; return(-1); }
  if(!X[f].reader){ errno = ENXIO; return(-1); }
  if(ni == 80) mc_die("incarnations");
  p = &I[ni++];
  memset(p, 0, sizeof(*p));
  p->f = f;
  fd = vfd_new(p);
  p->fd = fd;
  vfd_get(fd)->write = ff_write; vfd_get(fd)->poll = ff_poll;
  vfd_get(fd)->close = ff_close;
  return(fd);
}

/* the directory */
static void put(int f){
  char *p = PATH[f];
  if(is_fifo(f)){ if(mkfifo(p, 0600) != 0) mc_die("mkfifo %s", p); }
  else{ nenv_writefile(p, "#!/bin/false\n", 13); chmod(p, 0700); }
  X[f].exists = 1;
}
static void unput(int f){
  if(unlink(PATH[f]) != 0) mc_die("unlink %s", PATH[f]);
  X[f].exists = 0;
}
enum { J_NONE, J_PLAIN, J_DIR, J_LINK, J_N };
static int junk_;
static void junk(int k){
  char *p = nenv_path("dev/junk");
  if(k == J_PLAIN){ nenv_writefile(p, "x", 1); chmod(p, 0644); }
  else if(k == J_DIR){ if(mkdir(p, 0755) != 0) mc_die("mkdir"); }
  else if(k == J_LINK){ if(symlink("nowhere", p) != 0) mc_die("symlink"); }
  junk_ = k;
  free(p);
}
static void cleandir(void){
  int f;
  for(f = 0; f < NF; ++f) if(!is_sys(f)) unlink(PATH[f]);
  {
    char *p = nenv_path("dev/junk");
    if(unlink(p) != 0) rmdir(p);
    free(p);
    p = nenv_path("run/filters"); unlink(p); free(p);
  }
}

/* ------------------------------------------------------- the announcements */
struct ann {
  unsigned seq; int type, cat, code, chan; char fname[FNAME_SIZE + 1];
  char fpath[512]; int size;
  char line[900]; int nline;
  unsigned char pk[2048]; int npk;
};
static struct ann A[4];
static int mspool;
static char fill_[3000];

static int psize;
static void p4(unsigned char *p, unsigned v){
  p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v;
}
static void mkann(int k){
  static const unsigned seq[] = { 17, 4294967295u, 0, 2147483648u };
  static const int codes[][4] = { {4,3,2,1}, {255,0,128,3}, {127,255,254,0},
				  {1,2,3,255} };
  struct ann *a = &A[k];
  unsigned s = 0;
  int i, st = k != 2;		/* the third is not in the memory spool */
  memset(a, 0, sizeof(*a));
  a->seq = seq[k]; a->type = codes[k][0]; a->cat = codes[k][1];
  a->code = codes[k][2]; a->chan = codes[k][3];
  strcpy(a->fname, k == 1 ? "kwbc_sxus11-%dnns" : "kwbc_abcd01-xyz");
  snprintf(a->fpath, sizeof(a->fpath), "%s/kwbc/%s.010203_%u", g.spooldir,
	   a->fname, a->seq);
  a->size = 100 + 700*k;
  psize = const_fpath_packet_maxsize();
  if(psize > (int)sizeof(a->pk)) mc_die("packet size");
  p4(a->pk + 12, a->seq); a->pk[16] = a->type; a->pk[17] = a->cat;
  a->pk[18] = a->code; a->pk[19] = a->chan;
  strcpy((char *)a->pk + 20, a->fname);
  strcpy((char *)a->pk + 20 + FNAME_SIZE + 1, a->fpath);
  for(i = 12; i < psize; ++i) s += a->pk[i];
  p4(a->pk, 2); p4(a->pk + 4, psize - 12); p4(a->pk + 8, s);
  a->npk = psize;
  a->nline = snprintf(a->line, sizeof(a->line), "%u %d %d %d %d %s %s", a->seq,
		      a->type, a->cat, a->code, a->chan, a->fname, a->fpath);
  if(mspool)
    a->nline += sprintf(a->line + a->nline, " %d", st ? a->size : 0);
  a->nline += sprintf(a->line + a->nline, "\n");
}

/* --------------------------------------------------------------- the model */
static int running(int f){ return(M[f].cur >= 0); }
/* the code must have made a new incarnation of f by now */
static int expect_new(int f, int from, const char *why){
  int i;
  for(i = from; i < ni; ++i)
    if(I[i].f == f && I[i].want[sizeof(I[i].want) - 1] == 0){
      I[i].want[sizeof(I[i].want) - 1] = 1;
      return(i);
    }
  mc_fail("filter %s is not %s %s", NAME[f], is_fifo(f) ? "opened" : "started",
	  why);
}
static void want(int i, const void *b, int n){
  if(I[i].nwant + n > (int)sizeof(I[i].want) - 1) mc_die("want");
  memcpy(I[i].want + I[i].nwant, b, n); I[i].nwant += n;
}
static void m_close(int f, int bye){
  int i = M[f].cur;
  if(bye && !is_fifo(f) && !I[i].dead) want(i, "\n", 1);
  ++I[i].wclosed;
  M[f].cur = -1;
}
/* what the world was when the daemon acted */
static struct { int exists, reader, full, openfail; } W[NF];
static void snap(void){ memcpy(W, X, sizeof(W)); }
static int can_open(int f){
  if(W[f].openfail) return(0);
  if(is_fifo(f)) return(W[f].exists && W[f].reader);
  return(1);
}
static void m_load(int from, const char *why, int anydir){
  int f;
  for(f = 0; f < NF; ++f){
    int there = is_sys(f) ? (g.sysfilterlist != NULL &&
			     strstr(g.sysfilterlist, PATH[f]) != NULL) :
      (anydir && W[f].exists);
    if(there && !M[f].listed){
      M[f].listed = 1; M[f].sent = M[f].err = 0;
    }
    if(M[f].listed && !running(f)){
      if(can_open(f)) M[f].cur = expect_new(f, from, why);
      else M[f].listed = 0;
    }
  }
}
static void m_announce(int k, int from, int *tmo){
  int f;
  for(f = 0; f < NF; ++f){
    struct inc *p;
    if(!M[f].listed) continue;
    ++M[f].sent;
    if(!running(f)){
      if(!can_open(f)){ ++M[f].err; continue; }
      M[f].cur = expect_new(f, from, "again with the next product");
    }
    p = &I[M[f].cur];
    if(is_fifo(f)){
      if(!W[f].reader){ ++M[f].err; m_close(f, 0); continue; }
      if(W[f].full == 1){ ++*tmo; ++M[f].err; m_close(f, 0); continue; }
      if(W[f].full == 2){
	want(M[f].cur, A[k].pk, A[k].npk/3); W[f].full = 1;
	++*tmo; ++M[f].err; m_close(f, 0); continue;
      }
      if(W[f].full == 3) W[f].full = 0;
      want(M[f].cur, A[k].pk, A[k].npk);
    }else{
      if(p->dead){ ++M[f].err; m_close(f, 0); continue; }
      want(M[f].cur, A[k].line, A[k].nline);
    }
  }
}
static void verdict(const char *when){
  int i;
  for(i = 0; i < ni; ++i){
    struct inc *p = &I[i];
    if(!p->want[sizeof(p->want) - 1])
      mc_fail("%s: filter %s is %s once too often", when, NAME[p->f],
	      is_fifo(p->f) ? "opened" : "started");
    if(p->n != p->nwant || memcmp(p->b, p->want, p->n) != 0){
      int k;
      for(k = 0; k < p->n && k < p->nwant && p->b[k] == p->want[k]; ++k);
      mc_fail("%s: filter %s was written %d bytes and should have been %d; "
	      "they differ from %d: \"%.*s\" and not \"%.*s\"", when,
	      NAME[p->f], p->n, p->nwant, k, p->n - k > 80 ? 80 : p->n - k,
	      p->b + k, p->nwant - k > 80 ? 80 : p->nwant - k, p->want + k);
    }
    if(p->closed != p->wclosed)
      mc_fail("%s: filter %s was closed %d times and should have been %d",
	      when, NAME[p->f], p->closed, p->wclosed);
  }
}

/* ------------------------------------------------------- the daemon's part */
static size_t mem0;
static unsigned nexec;
static int fds0;
static int countfds(void){
  DIR *d = opendir("/proc/self/fd");
  int n = 0;
  if(d == NULL) return(0);
  while(readdir(d) != NULL) ++n;
  closedir(d);
  return(n);
}
static int never(void *a){ (void)a; return(0); }
static void pause_(int64_t ns){
  sched_wait(never, NULL, vclock_ns + ns, "pause");
}
static void up(void){
  int i;
  ++nexec;
  quit_ = quit_asked = 0; ni = 0; wnow = 0; popen_hook = NULL;
  mem0 = __sanitizer_get_current_allocated_bytes();
  g.f_filter_thread_created = 1; g.f_server_thread_created = 0;
  if(init_nbspq() != 0) mc_fail("init_nbspq fails");
  if(g.spooltype == SPOOLTYPE_MBDB){
    if(nbsp_mspoolbdb_create() != 0) mc_fail("no memory spool");
    for(i = 0; i < 4; ++i)
      if(i != 2 && nbsp_mspoolbdb_insert(A[i].fpath, fill_, A[i].size) != 0)
	mc_fail("cannot store a product");
  }
  for(i = 0; i < NF; ++i){
    M[i].listed = 0; M[i].cur = -1; M[i].sent = M[i].err = 0;
  }
  snap();
  g.f_filter_thread_created = 0;
  if(spawn_filter_server() != 0) mc_fail("the filter thread is not created");
  pause_(SEC);
  if(quit_) mc_fail("the filters cannot be loaded and the program stops");
  m_load(0, "at the start", 1);
  verdict("start");
}
static void down(void){
  int64_t t = vclock_ns;
  int f, i;
  size_t mem;
  quit_ = 1;
  kill_filter_thread();
  if(vclock_ns - t > 6*SEC)
    mc_fail("the filters take %lld s to stop", (long long)(vclock_ns - t)/SEC);
  for(f = 0; f < NF; ++f) if(running(f)) m_close(f, 1);
  verdict("stop");
  if(sched_nlive() != 1) mc_fail("%d threads are left", sched_nlive() - 1);
  if(vfd_nopen() != 0) mc_fail("%d fifos are left open", vfd_nopen());
  if(g.mspoolbdb != NULL && nbsp_mspoolbdb_destroy() != 0)
    mc_fail("the spool is not closed");
  kill_nbspq();
  i = countfds();
  if(i != fds0) mc_fail("%d files are left open", i - fds0);
  mem = __sanitizer_get_current_allocated_bytes();
  if(mem != mem0 && nexec > 1)
    mc_fail("%ld bytes of memory are left", (long)(mem - mem0));
}
static void send_(int k){
  static unsigned char pk[2048];
  memcpy(pk, A[k].pk, psize);
  if(e_nbspq_snd_filter(pk, psize) != 0) mc_fail("cannot queue a product");
}
static void announce(int k, int n){
  int from = ni, tmo = 0, j;
  snap();
  for(j = 0; j < n; ++j) send_((k + j) % 4);
  pause_(2*SEC + n*4*(int64_t)g.fifo_write_timeout_ms*1000000);
  for(j = 0; j < n; ++j) m_announce((k + j) % 4, from, &tmo);
  verdict("product");
}
static void reload(int anydir){
  int from = ni, f;
  snap();
  set_reload_filters_flag();
  pause_(8*SEC);
  for(f = 0; f < NF; ++f)
    if(M[f].listed && !is_fifo(f)){
      if(running(f)) m_close(f, 1);
      M[f].listed = 0;
    }
  m_load(from, "by the reload", anydir);
  verdict("reload");
}
/* something new appears, and a second reload is asked for, in the first */
static int again_f;
static void again(void){
  if(X[again_f].exists) unput(again_f); else put(again_f);
  set_reload_filters_flag();
}
static void reload2(int f2){
  int from = ni, f, r, mid;
  again_f = f2;
  snap();
  popen_hook = again;
  set_reload_filters_flag();
  pause_(20*SEC);
  if(popen_hook != NULL){	/* nothing was started */
    popen_hook = NULL;
    for(f = 0; f < NF; ++f)
      if(M[f].listed && !is_fifo(f)){
	if(running(f)) m_close(f, 1);
	M[f].listed = 0;
      }
    m_load(from, "by the reload", 1);
    verdict("reload");
    return;
  }
  /* the first reload started what was there when it read the directory */
  for(r = 0; r < 2; ++r){
    if(r == 1) snap();
    for(f = 0; f < NF; ++f)
      if(M[f].listed && !is_fifo(f)){
	if(running(f)) m_close(f, 1);
	M[f].listed = 0;
      }
    mid = from;
    m_load(mid, r ? "by a reload asked for during another" : "by the reload",
	   1);
  }
  verdict("second reload");
}
static void stats(void){
  char b[4000], want_[4000], *q = want_;
  char *path = nenv_path("run/filters");
  int n, f, c = 0;
  char *l, *sv;
  unlink(path);
  set_filterserver_state_flag();
  pause_(8*SEC);
  n = nenv_slurp(path, b, sizeof(b) - 1);
  free(path);
  if(n < 0) mc_fail("the report of the filters is not written");
  b[n] = 0;
  if(b[0] != '-') mc_fail("the report of the filters: \"%.60s\"", b);
  for(l = strtok_r(b, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)){
    int ok = 0;
    if(l[0] == '-') continue;
    for(f = 0; f < NF && !ok; ++f)
      if(M[f].listed){
	sprintf(q, "  %s %u %u", PATH[f], M[f].sent, M[f].err);
	if(strcmp(l, q) == 0) ok = 1;
      }
    if(!ok) mc_fail("wrong or unexpected line of the report: \"%s\"", l);
    ++c;
  }
  for(f = 0; f < NF; ++f)
    if(M[f].listed){ --c; M[f].sent = M[f].err = 0; }
  if(c != 0) mc_fail("the report has %d filters too %s", abs(c),
		     c < 0 ? "few" : "many");
  verdict("report");
}

enum { E_ANN, E_KILLA, E_RELOAD, E_TOGA, E_TOGB, E_READER, E_NOREADER, E_FULL,
       E_FULL2, E_OPENFAIL, E_ANN3, E_RELOAD2, E_TOGF, E_SPLIT, E_STATS, NEV };
static const char *EV[] = { "announce", "kill pa", "reload", "toggle pa",
  "toggle pb", "fa read", "fa not read", "fa full", "fa partly full",
  "opens fail", "announce 3", "reload in reload", "toggle fb", "fa split",
  "report" };
static int kann;
/* returns 0 if the event makes no sense now */
static int event(int e){
  int i;
  switch(e){
  case E_ANN: announce(kann++ % 4, 1); break;
  case E_ANN3: announce(kann, 3); kann += 3; break;
  case E_KILLA:
    if(!running(PA)) return(0);
    if(I[M[PA].cur].dead) return(0);
    for(i = 0; i < ni; ++i) if(I[i].f == PA) I[i].dead = 1;
    break;
  case E_RELOAD: reload(1); break;
  case E_RELOAD2: reload2(PB); break;
  case E_TOGA: if(X[PA].exists) unput(PA); else put(PA); break;
  case E_TOGB: if(X[PB].exists) unput(PB); else put(PB); break;
  case E_TOGF:
    if(X[FB].exists) unput(FB); else{ put(FB); X[FB].reader = 1; }
    break;
  case E_READER: if(X[FA].reader && !X[FA].full) return(0);
    X[FA].reader = 1; X[FA].full = 0; break;
  case E_NOREADER: if(!X[FA].reader) return(0);
    X[FA].reader = 0; break;
  case E_FULL: if(!X[FA].reader || X[FA].full == 1) return(0);
    X[FA].full = 1; break;
  case E_FULL2: if(!X[FA].reader || X[FA].full) return(0);
    X[FA].full = 2; break;
  case E_SPLIT: if(!X[FA].reader || X[FA].full) return(0);
    X[FA].full = 3; break;
  case E_OPENFAIL:
    if(X[PA].openfail) for(i = 0; i < NF; ++i) X[i].openfail = 0;
    else X[PA].openfail = X[SA].openfail = X[FB].openfail = 1;
    break;
  case E_STATS: stats(); break;
  }
  mc_note("%s; ", EV[e]);
  return(1);
}
static void reset(void){
  int f;
  vfd_reset();
  cleandir();
  memset(X, 0, sizeof(X));
  kann = 0;
  for(f = 0; f < NF; ++f) M[f].cur = -1;
}
static uint64_t outcome(void){
  uint64_t h = MC_H0;
  int i;
  for(i = 0; i < ni; ++i){
    h = mc_hashi(h, I[i].f); h = mc_hash(h, I[i].b, I[i].n);
  }
  return(h);
}
static const char *SYS[] = { NULL, "/usr/x/sysa", "/usr/x/sysa::/usr/x/sysa" };

static void hist1(void *a){
  int i, n = (mc_tier ? 5 : 4) - mspool, cfg, first;
  (void)a;
  first = mc_choose(4*NEV, "config and first event");
  cfg = first % 4; first /= 4;
  g.sysfilterlist = (char *)SYS[cfg == 3 ? 2 : cfg == 0 ? 0 : 1];
  if(cfg != 1){ put(PA); put(FA); X[FA].reader = cfg != 2; }
  if(cfg == 3){ put(PB); put(FB); X[FB].reader = 1; }
  mc_note("config %d: ", cfg);
  up();
  for(i = 0; i < n; ++i)
    if(!event(i == 0 ? first : mc_choose(NEV, "event"))) break;
  if(i == n){ X[FA].full = 0; announce(kann, 1); }
  down();
  mc_outcome(outcome());
}
/* other entries of the directory, loading and reloading */
static void dir1(void *a){
  int m = mc_choose(16, "files"), j = mc_choose(J_N, "other"),
    m2 = mc_choose(16, "files later"), j2 = mc_choose(J_N, "other later");
  int f;
  (void)a;
  g.sysfilterlist = (char *)SYS[mc_choose(3, "system filters")];
  for(f = 0; f < 4; ++f) if(m & (1 << f)){ put(f); X[f].reader = 1; }
  junk(j);
  mc_note("files %d other %d, then %d %d", m, j, m2, j2);
  up();
  announce(0, 1);
  for(f = 0; f < 4; ++f){
    if(X[f].exists) unput(f);
    if(m2 & (1 << f)){ put(f); X[f].reader = 1; }
  }
  { char *p = nenv_path("dev/junk"); if(unlink(p) != 0) rmdir(p); free(p); }
  junk(j2);
  reload(1);
  announce(1, 2);
  stats();
  down();
  mc_outcome(outcome());
}
static void body(void){
  vclock_reset();
  mc_bound_set(0);
  reset();
  mspool = strcmp(mc_arg, "mspool") == 0;
  {
    static int made = -1;
    int k;
    if(made != mspool) for(k = 0; k < 4; ++k) mkann(k);
    made = mspool;
  }
  g.spooltype = mspool ? SPOOLTYPE_MBDB : SPOOLTYPE_FS;
  if(strcmp(mc_arg, "dir") == 0) sched_run(dir1, NULL);
  else sched_run(hist1, NULL);
}
static void init(void){
  int f;
  nenv_init();
  if(!getenv("MC_LOGS")) nenv_log_format = 0;
  g.dbcache_mb = 1;
  g.queue_numchannels = 2;
  if(nbsp_open_dbenv() != 0) mc_die("dbenv: %s", nenv_lastlog);
  if(getenv("MC_LOGS")) set_log_verbose(3);
  g.mspoolbdb = NULL;
  g.mspoolbdb_dbcache_mb = 1; g.mspoolbdb_ndb = 2;
  g.mspoolbdb_maxsize_per128 = 128; g.mspoolbdb_nslots = 1;
  for(f = 0; f < NF; ++f){
    if(is_sys(f)) PATH[f] = strdup(NAME[f]);
    else if(asprintf(&PATH[f], "%s/%s", g.filterdevdir, NAME[f]) < 0) abort();
  }
  iox_open_hook = ff_open;
  fds0 = countfds();
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 30, 0, 0 };
  return(mc_main(argc, argv, &o, init, body));
}
