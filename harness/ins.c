/*
 * C20: nbspinsert. One to three instances of the real program write to a
 * model of the input fifo, which the daemon's slave (or the harness) reads.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/file.h>
#include <sys/stat.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "iox.h"
#include "tool.h"
#include "const.h"
#include "globals.h"
#include "pctl.h"
#include "nbspre.h"
#include "nbspq.h"
#include "dbenv.h"
#include "packfp.h"
#include "slave.h"
#include "slavet.h"
#include "err.h"

#define SEC 1000000000LL
int ins1_main(int, char **), ins2_main(int, char **), ins3_main(int, char **);
static tool_main_fn mains[] = { ins1_main, ins2_main, ins3_main };
static int quit_, quit_asked;
int __wrap_get_quit_flag(void){ return(quit_); }
void __wrap_set_quit_flag(void){ quit_ = 1; ++quit_asked; }

static char *fifo;
static void init(void){
  nenv_init();
  g.dbcache_mb = 1;
  if(nbsp_open_dbenv() != 0) mc_die("dbenv: %s", nenv_lastlog);
  g.slave_read_timeout_secs = 5;
  g.slave_stats_logperiod_secs = 1 << 30;
  g.infifo_grp = "root";
  iox_prefix = g.spooldir;
  fifo = g.infifo;
}
static void p4(unsigned char *p, unsigned v){
  p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v;
}
static unsigned u4(const unsigned char *p){
  return((unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]);
}

/* --------------------------------------------------------------- the records */
#define NI 3
struct inst {
  char *argv[16]; int argc;
  char seq[24], num[4][8], fname[FNAME_SIZE + 1], *path;
  int i;			/* -i */
  unsigned char *in; int nin, pos, chunk;
  unsigned char *old; int nold;	/* the file before; -1: none */
  int refuse;			/* the arguments are bad */
  unsigned char *rec; int nrec;
  int code, got, ended, fid, failed, killed;
  tool_main_fn fn;
} N[NI];
static int ni;
static struct inst *self(void){
  int i, f = sched_self();
  for(i = 0; i < ni; ++i) if(N[i].fid == f && !N[i].ended) return(&N[i]);
  return(NULL);
}
static void fill(unsigned char *b, int n, int k){
  int i;
  for(i = 0; i < n; ++i) b[i] = (unsigned char)(k*53 + i*7 + i/256*3 + 1);
}
static struct inst *newinst(int plen){
  struct inst *p = &N[ni];
  int k = ni++, l;
  memset(p, 0, sizeof(*p));
  p->fn = mains[k];
  p->fid = -1; p->nold = -1; p->chunk = 1 << 30;
  snprintf(p->seq, sizeof(p->seq), "%u", k == 2 ? 4294967295u : k*77);
  for(l = 0; l < 4; ++l) snprintf(p->num[l], 8, "%d", k == 2 ? 255 : k*9 + l);
  snprintf(p->fname, sizeof(p->fname), "tjsj_%d", k);
  if(asprintf(&p->path, "%s/kwbc", g.spooldir) < 0) mc_die("mem");
  mkdir(p->path, 0755);
  free(p->path);
  if(asprintf(&p->path, "%s/kwbc/kwbc_sxus%02d-abc%03d.010203_%u",
	      g.spooldir, k, k, k) < 0) mc_die("mem");
  l = strlen(p->path);
  if(plen > l){
    p->path = realloc(p->path, plen + 1);
    /* longer by slashes, in place of one */
    k = (int)strlen(g.spooldir);
    memmove(p->path + k + plen - l, p->path + k, l - k + 1);
    memset(p->path + k, '/', plen - l);
  }
  return(p);
}
static void data(struct inst *p, int n){
  int k = (int)(p - N);
  p->i = 1;
  p->in = malloc(n + 1); p->nin = n;
  fill(p->in, n, k);
}
static void oldfile(struct inst *p, int n){
  p->old = malloc(n + 1); p->nold = n;
  fill(p->old, n, 7);
  nenv_writefile(p->path, p->old, n);
}
static void args(struct inst *p){
  int n = 0, l;
  p->argv[n++] = "nbspinsert";
  if(p->i) p->argv[n++] = "-i";
  p->argv[n++] = "-f"; p->argv[n++] = fifo;
  p->argv[n++] = p->seq;
  for(l = 0; l < 4; ++l) p->argv[n++] = p->num[l];
  p->argv[n++] = p->fname; p->argv[n++] = p->path;
  p->argv[n] = NULL; p->argc = n;
  p->rec = malloc(strlen(p->path) + 200);
  l = sprintf((char *)p->rec + 4, "%s %s %s %s %s %s %s", p->seq, p->num[0],
	      p->num[1], p->num[2], p->num[3], p->fname, p->path);
  p4(p->rec, l);
  p->rec[4 + l] = '\n';
  p->nrec = l + 5;
}
/* the file of p has all of its contents */
static int filegood(struct inst *p){
  static unsigned char b[70000];
  int n = nenv_slurp(p->path, b, sizeof(b));
  if(!p->i) return(1);
  return(n == p->nin && memcmp(b, p->in, n) == 0);
}

/* ------------------------------------------------------------ model of a fifo */
static unsigned char *F;
static int fr, fw, cap = 65536;		/* read and written so far */
static int readers, nowriter_err, sysfail;
static struct inst *lockedby[16];
static int nlocked;
struct fend { int nb; int reader; int locked; struct inst *who; };
static int busy;
static struct fend *lockowner;
static int nshared;
static void unlock(struct fend *);
#define FBUF 400000

static int fspace(void){ return(cap - (fw - fr)); }
static void fput(const void *b, int n){
  if(fw + n > FBUF) mc_fail("too much is written to the fifo");
  memcpy(F + fw, b, n); fw += n;
}
static int sysf(const char *w){
  if(!sysfail) return(0);
  if(mc_dev(2, w)){ struct inst *p = self(); if(p) ++p->failed; mc_note("<%s fails> ", w); return(1); }
  return(0);
}
struct waitsp { int n; };
static int haspace(void *a){ return(fspace() >= ((struct waitsp *)a)->n || readers == 0); }
static void epipe(void){
  /* SIGPIPE */
  struct inst *p = self();
  if(p) p->killed = 1;
  tool_kill();
}
static ssize_t f_write(struct vfd *v, const void *b, size_t n){
  struct fend *e = v->priv;
  size_t done = 0;
  struct waitsp w;
  mc_step();
  sched_point("write to the fifo");
  if(sysf("write to the fifo")){ errno = EIO; return(-1); }
  if(readers == 0) epipe();
  if(n <= PIPE_BUF){
    if(fspace() < (int)n){
      if(v->nonblock){ errno = EAGAIN; return(-1); }
      w.n = (int)n;
      sched_wait(haspace, &w, -1, "space in the fifo");
      if(readers == 0) epipe();
    }
    fput(b, (int)n);
    return((ssize_t)n);
  }
  while(done < n){
    int k = fspace();
    if(k <= 0){
      if(v->nonblock){
	if(done) return((ssize_t)done);
	errno = EAGAIN; return(-1);
      }
      w.n = 1;
      sched_wait(haspace, &w, -1, "space in the fifo");
      if(readers == 0) epipe();
      continue;
    }
    if((size_t)k > n - done) k = (int)(n - done);
    if(k > PIPE_BUF) k = PIPE_BUF;
    fput((const char *)b + done, k); done += k;
    if(done < n) sched_point("writing to the fifo");
  }
  (void)e;
  return((ssize_t)n);
}
static int idle, chunk, splits;
static ssize_t f_read(struct vfd *v, void *b, size_t n){
  int l = fw - fr;
  (void)v;
  if(l == 0){ errno = EAGAIN; return(-1); }
  if((size_t)l > n) l = (int)n;
  if(chunk && l > chunk) l = chunk;
  memcpy(b, F + fr, l);
  fr += l;
  return(l);
}
static int f_poll(struct vfd *v, int ev){
  (void)v; (void)ev;
  if(fw > fr) return(POLLIN);
  idle = 1;
  return(0);
}
static int f_close(struct vfd *v){
  struct fend *e = v->priv;
  if(e->reader) --readers;
  unlock(e);
  free(e);
  sched_point("close the fifo");
  return(0);
}
static int nofifo;		/* 1: no reader, 2: a file, 3: nothing there */
static int opener(const char *p, int fl){
  struct fend *e;
  int fd;
  struct vfd *v;
  if(strcmp(p, fifo) != 0) return(-9);
  sched_point("open the fifo");
  if((fl & O_ACCMODE) == O_WRONLY){
    if(sysf("open the fifo")){ errno = EMFILE; return(-1); }
    if(readers == 0){
      if(fl & O_NONBLOCK){ errno = ENXIO; return(-1); }
      mc_fail("hangs: nobody has the fifo open for reading");
    }
  }
  e = calloc(1, sizeof(*e));
  fd = vfd_new(e);
  v = vfd_get(fd);
  v->read = f_read; v->write = f_write; v->poll = f_poll; v->close = f_close;
  v->nonblock = (fl & O_NONBLOCK) != 0;
  if((fl & O_ACCMODE) != O_WRONLY){ e->reader = 1; ++readers; }
  e->who = self();
  return(fd);
}
static void unlock(struct fend *e){
  if(lockowner == e) lockowner = NULL;
  if(e->locked) --nshared;
  e->locked = 0;
}
static int unlocked(void *a){ (void)a; return(lockowner == NULL && nshared == 0); }
static int unlocked_sh(void *a){ (void)a; return(lockowner == NULL); }
int __real_flock(int, int);
int __wrap_flock(int fd, int op){
  struct vfd *v = vfd_get(fd);
  struct fend *e;
  int sh = (op & LOCK_SH) != 0;
  if(v == NULL) return(__real_flock(fd, op));
  e = v->priv;
  sched_point("flock");
  mc_step();
  if(op & LOCK_UN){
    unlock(e);
    return(0);
  }
  if(sysf("flock")){ errno = ENOLCK; return(-1); }
  if(sh ? e->locked : lockowner == e) return(0);
  unlock(e);
  while(lockowner != NULL || (!sh && nshared > 0)){
    if(op & LOCK_NB){ errno = EWOULDBLOCK; return(-1); }
    sched_wait(sh ? unlocked_sh : unlocked, NULL, -1, "flock");
  }
  if(sh){ e->locked = 1; ++nshared; } else lockowner = e;
  return(0);
}
int __real_fcntl2(int, int, ...);
static ssize_t rd0(int fd, void *b, size_t n){
  struct inst *p;
  int l;
  if(fd != 0 || (p = self()) == NULL) return(-9);
  sched_point("read the input");
  if(sysf("read of the input")){ errno = EIO; return(-1); }
  l = p->nin - p->pos;
  if((size_t)l > n) l = (int)n;
  if(l > p->chunk) l = p->chunk;
  memcpy(b, p->in + p->pos, l);
  p->pos += l;
  return(l);
}
static void filefail(const char *op, const char *path){
  (void)op; (void)path;
}
static void *one(void *a){
  struct inst *p = a;
  p->fid = sched_self();
  p->code = tool_run(p->fn, p->argv);
  p->ended = 1;
  return(NULL);
}
static void runall(void){
  int i, id[NI];
  for(i = 0; i < ni; ++i) id[i] = N[i].fid = sched_spawn(one, &N[i], "nbspinsert");
  for(i = 0; i < ni; ++i) sched_join(id[i]);
}
/* after the end of all of them, of what is in the fifo from off on */
static uint64_t oh;
static void parse(int off, int upto){
  int i;
  while(off < upto){
    int n;
    if(upto - off < 5) mc_fail("the fifo ends with part of a record");
    n = (int)u4(F + off) + 5;
    if(n < 5 || n > upto - off) mc_fail("a record with a wrong size at %d", off);
    for(i = 0; i < ni; ++i)
      if(n == N[i].nrec && memcmp(F + off, N[i].rec, n) == 0) break;
    if(i == ni) mc_fail("there is a damaged record in the fifo, at %d: '%.60s'", off,
			F + off + 4);
    if(++N[i].got > 1) mc_fail("a file is announced twice");
    oh = mc_hashi(oh, i);
    off += n;
  }
}
static void verdict(void){
  int i;
  for(i = 0; i < ni; ++i){
    struct inst *p = &N[i];
    struct stat st;
    int there = stat(p->path, &st) == 0;
    static unsigned char b[70000];
    oh = mc_hashi(mc_hashi(oh, p->code), p->got);
    if(p->code != 0 && p->code != 1 && !p->killed)
      mc_fail("exit status %d", p->code);
    if(p->refuse){
      if(p->code == 0) mc_fail("bad arguments are accepted");
      if(p->got) mc_fail("a record with bad arguments is written");
      if(p->i && there) mc_fail("a file is saved with bad arguments");
      continue;
    }
    if((p->code == 0) != (p->got == 1))
      mc_fail("exit status %d, but the file was%s announced", p->code,
	      p->got ? "" : " not");
    if(!p->failed && !iox_nfaults && !nofifo && p->code != 0)
      mc_fail("fails without a reason");
    if(!p->i){
      /* the file is not touched */
      if(there != (p->nold >= 0)) mc_fail("the file was %s",
					  there ? "made" : "removed");
      if(there && (nenv_slurp(p->path, b, sizeof(b)) != p->nold ||
		   memcmp(b, p->old, p->nold) != 0))
	mc_fail("the file was changed");
    }else if(p->code == 0){
      if(!filegood(p)) mc_fail("the saved file is not what was given");
    }else if(!p->killed && there && strcmp(iox_last, "unlink") != 0){
      int n = nenv_slurp(p->path, b, sizeof(b));
      if(p->nold < 0 || n != p->nold || memcmp(b, p->old, n) != 0)
	mc_fail("part of a file is left behind");
    }
  }
}
static void reset(void){
  int i;
  for(i = 0; i < ni; ++i){ free(N[i].path); free(N[i].in); free(N[i].old); free(N[i].rec); }
  ni = 0;
  memset(N, 0, sizeof(N));
  if(F == NULL) F = malloc(FBUF);
  fr = fw = 0; cap = 65536; readers = 0; sysfail = 0; lockowner = NULL; nshared = 0;
  nofifo = 0; chunk = 0; idle = 0;
  vfd_reset();
  iox_open_hook = opener; iox_read_hook = rd0;
  iox_points = iox_faults = 0; iox_nfaults = 0; iox_last = "";
  iox_before = filefail;
  g.patt_accept = g.filterq_patt_accept = g.serverq_patt_accept = NULL;
  nenv_rmtree_contents("spool");
  unlink(fifo);
}
static void mkf(void){
  if(mkfifo(fifo, 0666) != 0) mc_die("mkfifo: %s", strerror(errno));
}
/* every file must be complete when its record can be read first */
static ssize_t (*realput)(struct vfd *, const void *, size_t);
static ssize_t ck_write(struct vfd *v, const void *b, size_t n){
  struct inst *p = self();
  if(p && !filegood(p)) mc_fail("announced before the file is complete");
  return(realput(v, b, n));
}

/* ----------------------------------------- one instance: sizes and arguments */
static void form_main(void *a){
  static const char *vals[] = { "0", "1", "255", "256", "-1", "", "abc", "1x",
    "99999999999", "4294967295", "4294967296", "65536", "1.5", "0x10" };
  static const int ins[] = { 0, 1, 1023, 1024, 1025, 2048, 5000 };
  int fam = mc_choose(3, "family"), n, k, off;
  struct inst *p;
  struct fend *e;
  (void)a;
  mkf();
  if(fam == 0){
    /* every length of the record around the limits of the buffers */
    int lo = mc_choose(3, "around");
    n = (int[]){ 985, 4060, 65500 }[lo] + mc_choose(lo == 2 ? 10 : 45, "length");
    p = newinst(n);
    if(lo == 2) cap = 300000;
  }else if(fam == 1){
    p = newinst(0);
    k = mc_choose(5, "argument"); n = mc_choose(14, "value");
    strcpy(k ? p->num[k - 1] : p->seq, "");
    snprintf(k ? p->num[k - 1] : p->seq, k ? 8 : 24, "%s", vals[n]);
    if(k && strlen(vals[n]) > 7){ mc_outcome(1); return; }
    p->refuse = n >= 4 || (n == 3 && k);
    if(k == 0 && (n == 9 || n == 11)) p->refuse = 0;
    if(mc_choose(2, "-i")) data(p, 100);
  }else{
    p = newinst(0);
    data(p, ins[mc_choose(7, "size")]);
    p->chunk = (int[]){ 1 << 30, 1024, 1000, 7 }[mc_choose(4, "chunk")];
    k = mc_choose(4, "old file");
    if(k) oldfile(p, (int[]){ 0, 1, 1024, 6000 }[k]);
  }
  args(p);
  n = mc_choose(fam == 0 ? 1 : 3, "what is there");
  if(n == 1){ /* less or more arguments */
    k = mc_choose(9, "how many");
    if(k < 7){ p->argv[p->argc - 1 - k] = NULL; p->refuse = 1; }
    else if(k == 7){ p->argv[p->argc] = "more"; p->argv[p->argc + 1] = NULL; p->refuse = 1; }
    else { /* an unknown option */
      p->argv[1] = "-X"; p->refuse = 1;
    }
    if(p->i && p->nold >= 0){ p->i = 0; }
  }else if(n == 2){
    nofifo = 1 + mc_choose(3, "no fifo");
    if(nofifo >= 2) unlink(fifo);
    if(nofifo == 2){
    iox_open_hook = NULL; nenv_writefile(fifo, "", 0); iox_open_hook = opener;
  }
  }
  if(!nofifo){
    off = opener(fifo, O_RDWR|O_NONBLOCK);
    (void)off; (void)e;
  }
  runall();
  parse(0, fw);
  verdict();
  if(vfd_nopen() != !nofifo) mc_fail("the fifo is left open");
  unlink(fifo);
  mc_outcome(oh);
}
/* ------------------------------------------------ several at the same time */
static int stop_reader;
static int canread(void *a){ (void)a; return(fw > fr || stop_reader); }
static void *reader(void *a){
  int step = *(int *)a;
  for(;;){
    sched_wait(canread, NULL, -1, "the reader");
    if(fw == fr) return(NULL);
    fr += fw - fr < step ? fw - fr : step;
    sched_point("the reader");
  }
}
static void many_main(void *a){
  int mode = mc_choose(4, "mode"), k, off, step, nn, id = -1;
  (void)a;
  mkf();
  off = opener(fifo, O_RDWR|O_NONBLOCK);
  step = 4096;
  nn = mc_tier ? 3 : 2;
  if(mode == 3) nn = 3;
  if(!mc_tier && (mode == 1 || mode == 3)) mc_bound_set(1);
  for(k = 0; k < nn; ++k){
    struct inst *p = newinst(mode == 0 || mode == 3 ? 0 : (mode == 1 ? 4200 : 1200));
    if(mode == 0 && k != 1) data(p, 1500);
    args(p);
  }
  if(mode == 1 || mode == 2){
    /* the fifo is almost full */
    cap = 8192;
    fw = fr = 0;
    fw += cap - (mode == 1 ? 100 : 1300);
    memset(F, 0, fw);
    off = fw;
    id = sched_spawn(reader, &step, "reader");
  }else off = 0;
  stop_reader = 0;
  runall();
  stop_reader = 1;
  if(id >= 0) sched_join(id);
  parse(off, fw);
  verdict();
  unlink(fifo);
  mc_outcome(oh);
}
/* -------------------------------------------------- something fails in one */
static void fault_main(void *a){
  struct inst *p;
  int k;
  (void)a;
  mkf();
  opener(fifo, O_RDWR|O_NONBLOCK);
  p = newinst(0);
  k = mc_choose(3, "form");
  if(k) data(p, 2500);
  if(k == 2) oldfile(p, 4000);
  args(p);
  p = newinst(mc_choose(2, "length") ? 1200 : 0);
  data(p, 10);
  args(p);
  ni = 1;
  sysfail = 1; iox_faults = 1;
  runall();
  sysfail = iox_faults = 0;
  parse(0, fw);
  verdict();
  if(iox_nfaults && N[0].code == 0 && strcmp(iox_last, "unlink") != 0)
    mc_fail("success, but %s failed", iox_last);
  /* and the next one */
  {
    int off = fw;
    N[0].ended = 1; N[0].fid = -2;
    ni = 2; iox_nfaults = 0; iox_last = "";
    N[1].fid = sched_spawn(one, &N[1], "nbspinsert");
    sched_join(N[1].fid);
    parse(off, fw);
    if(N[1].code != 0 || N[1].got != 1 || !filegood(&N[1]))
      mc_fail("the next insertion fails: %d", N[1].code);
    N[0].failed = 1;
  }
  unlink(fifo);
  mc_outcome(oh);
}
/* ----------------------------------------------- into the daemon's input fifo */
static int drained(void *a){
  (void)a;
  return(quit_asked || (fw == fr && idle && readers == 1));
}
static void drain(void){
  int q, i, k;
  for(q = 0; q < 2; ++q)
    for(;;){
      void *b = NULL; size_t n = 0;
      unsigned char *d;
      struct inst *p;
      g.queue_read_timeout_ms = 0;
      i = q ? e_nbspq_rcv_server(&b, &n) : e_nbspq_rcv_filter(&b, &n);
      if(i == 1) break;
      if(i != 0) mc_fail("queue %d cannot be read", q);
      d = (unsigned char *)b + 12;
      for(k = 0; k < ni; ++k)
	if((unsigned)strtoul(N[k].seq, NULL, 10) == u4(d)) break;
      if(k == ni) mc_fail("an unknown product %u is announced", u4(d));
      p = &N[k];
      if(p->got & 1 << q) mc_fail("announced twice");
      p->got |= 1 << q;
      oh = mc_hashi(oh, q*10 + k);
      for(i = 0; i < 4; ++i)
	if(d[4 + i] != atoi(p->num[i])) mc_fail("announced with other codes");
      if(strcmp((char *)d + 8, p->fname) != 0 ||
	 strcmp((char *)d + 8 + FNAME_SIZE + 1, p->path) != 0)
	mc_fail("announced as %s %s", d + 8, d + 8 + FNAME_SIZE + 1);
      if(!filegood(p)) mc_fail("announced before the file is complete");
      free(b);
    }
}
static void daemon_main(void *a){
  int nn = mc_tier ? 3 : 2, k;
  (void)a;
  quit_ = quit_asked = 0;
  g.feedmode = FEEDMODE_INPUTFIFO;
  g.masterservers = NULL;
  if(init_nbsp_regex() != 0) mc_die("regex");
  if(init_slavet() != 0) mc_fail("init_slavet fails");
  if(init_pctl() != 0) mc_fail("init_pctl fails");
  g.f_filter_thread_created = g.f_server_thread_created = 1;
  if(init_nbspq() != 0) mc_fail("init_nbspq fails");
  if(spawn_slave_threads() != 0) mc_fail("no slave threads");
  sched_wait(drained, NULL, vclock_ns + 100*SEC, "start");
  idle = 0;
  chunk = (int[]){ 0, 3 }[mc_choose(2, "chunk")];
  for(k = 0; k < nn; ++k){
    struct inst *p = newinst(0);
    if(mc_choose(2, "-i")) data(p, 1500);
    if(k == 0 && mc_choose(2, "numbers")){
      strcpy(p->seq, "4294967290");
      strcpy(p->num[0], "255"); strcpy(p->num[3], "255");
    }
    args(p);
  }
  runall();
  if(sched_wait(drained, NULL, vclock_ns + 100*SEC, "the fifo"))
    mc_fail("the daemon does not read the fifo");
  drain();
  for(k = 0; k < nn; ++k){
    if(N[k].code != 0) mc_fail("instance %d fails", k);
    if(N[k].got != 3) mc_fail("the daemon did not announce %s", N[k].fname);
  }
  if(quit_asked) mc_fail("the daemon quits");
  mc_outcome(oh);
  quit_ = 1;
  kill_slave_threads();
  kill_nbspq();
  kill_pctl();
  cleanup_slavet();
  free_nbsp_regex();
}
static struct { const char *n; void (*f)(void *); } parts[] = {
  { "form", form_main }, { "many", many_main }, { "fault", fault_main },
  { "daemon", daemon_main },
};
static void body(void){
  unsigned i;
  reset();
  oh = MC_H0;
  vclock_reset();
  sched_sync_points = 0;
  for(i = 0; i < sizeof(parts)/sizeof(parts[0]); ++i)
    if(strcmp(mc_arg, parts[i].n) == 0){
      sched_run(parts[i].f, NULL);
      return;
    }
  mc_die("unknown part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 1, 0 };
  (void)realput; (void)ck_write; (void)busy; (void)nlocked; (void)lockedby;
  (void)nowriter_err; (void)splits;
  return(mc_main(argc, argv, &o, init, body));
}
