/*
 * C06, C07, C08: the processor of the daemon, from the frames received to
 * the files in the spool and the announcements in the queues.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include <zlib.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "dbx.h"
#include "iox.h"
#include "fr.h"
#include "const.h"
#include "globals.h"
#include "pctl.h"
#include "nbspre.h"
#include "framep.h"
#include "nbsp.h"
#include "nbspq.h"
#include "dbenv.h"
#include "rtxdb.h"
#include "packfp.h"
#include "nbspmspoolbdb.h"
#include "spooldb.h"
#include "file.h"
#include "signal.h"
#include "load.h"
#include "reader.h"
#include "npcast.h"
#include "stx.h"

static int quit_, quit_asked;
int __wrap_get_quit_flag(void){ return(quit_); }
void __wrap_set_quit_flag(void){ quit_ = 1; ++quit_asked; }

static struct sbn_frame F;
static unsigned sbnseq;

static void init(void){
  nenv_init();
  if(!getenv("MC_LOGS")) nenv_log_format = 0;
  g.dbcache_mb = 1;
  g.feedmode = FEEDMODE_NOAAPORT;
  if(nbsp_open_dbenv() != 0) mc_die("dbenv: %s", nenv_lastlog);
  iox_prefix = mc_scratch;
}

/* ------------------------------------------------------------ products */
/* kinds of products */
enum { K_PLAIN, K_CCB, K_CCB2, K_CTRL, K_CTRLZ, K_UNZ, K_UNZBAD, K_ZNOCTRL,
       K_FORMS };
struct prod {
  unsigned seq, orig;
  int kind, id;			/* id: decides its name and contents */
  int incomplete;
  int unz;			/* K_CTRLZ: to be saved uncompressed */
  char name[128], path[600], fname[64];
  int has_ccb;
  int bad;			/* cannot be decompressed */
  unsigned char b[8000], z[8000];
  int n, nz;
  int faulty;			/* something failed while it was processed */
  int ann[2];			/* times announced to filter, server */
};
static struct prod P[64];
static int np;

static void frame(struct prod *p, int block, int nb, int comp, int last,
		  const void *ctrl, int nc, const void *d, int n){
  struct frspec s;
  memset(&s, 0, sizeof(s));
  s.channel = 0; s.cmd = 3; s.seqno = ++sbnseq; s.prod = p->seq;
  s.type = 2 | (block == 0) | (last ? 4 : 0) | (comp ? 16 : 0);
  s.block = block; s.nfrag = nb == 1 ? 0 : nb;
  s.ctrl = ctrl; s.ctrl_size = nc; s.data = d; s.data_size = n;
  s.ptype = 4; s.pcat = 3; s.pcode = 200 + p->id % 50;
  if(p->orig){ s.status_flag = 16; s.orig = p->orig; }
  fr_build(&F, &s);
  ++X[X_RECV]; ++X[X_PROC]; X[X_SIZE] += F.rawdata_size;
  sbnframeproc(&F);
  mc_step();
}
static int wmo(struct prod *p, char *b, int ccb){
  int n = 0;
  if(ccb){
    memset(b, 7, CCB_SIZE); b[0] = '@'; b[CCB_SIZE - 1] = 'c'; n = CCB_SIZE;
  }
  n += sprintf(b + n, "%s%02d KWBC 010203\r\r\nABC%03d\r\r\n",
	       p->kind == K_UNZ || p->kind == K_UNZBAD ? "SDUS" :
	       (p->id & 1 ? "TIUS" : "SXUS"), 30 + p->kind, p->id % 1000);
  return(n);
}
static int zip_(const void *p, int n, unsigned char *out){
  uLongf l = 8000;
  if(compress2(out, &l, p, n, 6) != Z_OK) mc_die("compress2");
  return((int)l);
}
static void add(struct prod *p, const void *d, int n){
  memcpy(p->b + p->n, d, n); p->n += n;
}
/* sends the frames; what should be in the spool is left in p->b */
static void sendprod(struct prod *p, int size){
  char h[100], w[16];
  static unsigned char d[6000], z[8000], e[6000];
  int hn, n, i, nz, nf = p->incomplete ? 3 : 2;
  int ccb = p->kind == K_CCB || p->kind == K_CCB2 || p->kind == K_CTRLZ ||
    p->kind == K_UNZ || p->kind == K_UNZBAD;
  hn = wmo(p, h, ccb);
  p->has_ccb = ccb; p->n = 0; p->bad = 0;
  memcpy(w, h + (ccb ? CCB_SIZE : 0), 6); w[6] = 0;
  for(i = 0; i < 4; ++i) w[i] += 32;
  snprintf(p->fname, 64, "kwbc_%s-abc%03d", w, p->id % 1000);
  snprintf(p->name, 128, "%s.010203_%u", p->fname, p->seq);
  snprintf(p->path, 600, "%s/kwbc/%s", g.spooldir, p->name);
  memcpy(d, h, hn); n = hn;
  for(i = 0; i < size; ++i) d[n++] = (unsigned char)(p->id*31 + i*7 + i/200);
  for(i = 0; i < 300; ++i) e[i] = (unsigned char)(p->id*17 + i*3);
  if(p->incomplete){
    frame(p, 0, nf, 0, 0, NULL, 0, d, n);
    frame(p, 2, nf, 0, 1, NULL, 0, e, 300);	/* one is missing */
    return;
  }
  switch(p->kind){
  case K_PLAIN: case K_CCB:
    frame(p, 0, 1, 0, 1, NULL, 0, d, n); add(p, d, n);
    break;
  case K_CCB2:
    frame(p, 0, 2, 0, 0, NULL, 0, d, n); add(p, d, n);
    frame(p, 1, 2, 0, 1, NULL, 0, e, 300); add(p, e, 300);
    break;
  case K_CTRL:
    /* control header and uncompressed frames */
    frame(p, 0, 2, 0, 0, h, hn, d, n); add(p, h, hn); add(p, d, n);
    frame(p, 1, 2, 0, 1, NULL, 0, e, 300); add(p, e, 300);
    break;
  case K_CTRLZ:
    nz = zip_(d, n, z);
    if(p->unz) add(p, d, n); else{ add(p, h, hn); add(p, z, nz); }
    frame(p, 0, 2, 1, 0, h, hn, z, nz);
    nz = zip_(e, 300, z);
    if(p->unz) add(p, e, 300); else add(p, z, nz);
    frame(p, 1, 2, 1, 1, NULL, 0, z, nz);
    break;
  case K_UNZ: case K_UNZBAD:
    nz = zip_(d, n, z);
    frame(p, 0, 3, 1, 0, h, hn, z, nz); add(p, d, n);
    frame(p, 1, 3, 0, 0, NULL, 0, e, 100); add(p, e, 100);
    nz = zip_(e, 300, z);
    if(p->kind == K_UNZBAD){ z[nz/2] ^= 0x55; z[nz - 1] ^= 1; p->bad = 1; }
    frame(p, 2, 3, 1, 1, NULL, 0, z, nz); add(p, e, 300);
    break;
  case K_ZNOCTRL:
    nz = zip_(d, n, z);
    frame(p, 0, 1, 1, 1, NULL, 0, z, nz); add(p, z, nz);
    break;
  }
}

/* ------------------------------------------------------- daemon up and down */
static void up(void){
  quit_ = quit_asked = 0;
  if(init_nbsp_regex() != 0) mc_die("regex");
  if(init_pctl() != 0) mc_fail("init_pctl fails");
  if(e_nbsp_rtxdb_open() != 0) mc_fail("the rtx data base cannot be opened");
  g.f_filter_thread_created = g.f_server_thread_created = 1;
  if(init_nbspq() != 0) mc_fail("init_nbspq fails");
  if(g.spooltype == SPOOLTYPE_MBDB || g.spooltype == SPOOLTYPE_FMBDB)
    if(nbsp_mspoolbdb_create() != 0) mc_fail("no memory spool");
  g.f_processor_thread_created = 0;
  if(spawn_nbsproc() != 0) mc_fail("no processor");
}
static void down(void){
  quit_ = 1;
  kill_processor_thread();
  if(g.mspoolbdb != NULL && nbsp_mspoolbdb_destroy() != 0)
    mc_fail("the memory spool cannot be closed");
  kill_nbspq();
  kill_pctl();
  e_nbsp_rtxdb_close();
  free(g.rtxdb); g.rtxdb = NULL;
  free_nbsp_regex();
}
static unsigned u4(const unsigned char *p){
  return((unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]);
}
static int in_spool(struct prod *p, int full){
  static unsigned char b[9000];
  int n, skip = 0, want;
  if(g.spoolsavefmt == SAVEFORMAT_NO_CCB && p->has_ccb) skip = CCB_SIZE;
  want = p->n - skip;
  if(g.spooltype == SPOOLTYPE_FS){
    n = nenv_slurp(p->path, b, sizeof(b));
    if(n < 0) return(0);
  }else{
    int sd = nbsp_mspoolbdb_open(p->path);
    struct stat st;
    if(stat(p->path, &st) == 0) mc_fail("a file with a memory spool");
    if(sd == -2) return(0);
    if(sd < 0) mc_fail("the product cannot be opened in the memory spool");
    n = (int)nbsp_mspoolbdb_datasize(sd);
    if(n > 9000) mc_fail("size %d of the product in the memory spool", n);
    if((int)nbsp_mspoolbdb_read(sd, b, n) != n) mc_fail("short read");
    nbsp_mspoolbdb_close(sd);
  }
  if(full){
    if(n != want)
      mc_fail("product %s (kind %d) has %d bytes in the spool, should be %d",
	      p->name, p->kind, n, want);
    if(memcmp(b, p->b + skip, n) != 0)
      mc_fail("product %s (kind %d) has wrong contents in the spool",
	      p->name, p->kind);
  }
  return(1);
}
/* an announcement */
static struct prod *announced(int q, const unsigned char *b, size_t n){
  struct prod *p = NULL;
  int i;
  unsigned seq;
  if(n < NBS_ENVELOPE_SIZE + 8) mc_fail("short announcement");
  seq = u4(b + NBS_ENVELOPE_SIZE);
  for(i = 0; i < np; ++i) if(P[i].seq == seq) p = &P[i];
  if(p == NULL) mc_fail("announcement of an unknown product %u", seq);
  b += NBS_ENVELOPE_SIZE;
  if(b[4] != 4 || b[5] != 3 || b[6] != 200 + p->id % 50 || b[7] != 0)
    mc_fail("announcement of %s with wrong codes", p->name);
  if(strcmp((char *)b + 8, p->fname) != 0)
    mc_fail("announcement of %s with the name %s", p->name, b + 8);
  if(strcmp((char *)b + 8 + FNAME_SIZE + 1, p->path) != 0)
    mc_fail("announcement of %s with the path %s", p->name,
	    b + 8 + FNAME_SIZE + 1);
  if(++p->ann[q] > 1) mc_fail("%s is announced twice", p->name);
  if(p->incomplete) mc_fail("an incomplete product is announced");
  if(!in_spool(p, 1))
    mc_fail("%s is announced and is not in the spool", p->name);
  return(p);
}
static int annorder[2][64], nann[2];
static void drain(void){
  int q; void *b; size_t n; struct prod *p;
  for(q = 0; q < 2; ++q){
    for(;;){
      int f = dbx_faults, st;
      b = NULL; n = 0;
      dbx_faults = 0;
      g.queue_read_timeout_ms = 0;
      st = q ? e_nbspq_rcv_server(&b, &n) : e_nbspq_rcv_filter(&b, &n);
      dbx_faults = f;
      if(st != 0){ if(st != 1) mc_fail("queue %d cannot be read: %d", q, st);
	break; }
      p = announced(q, b, n);
      annorder[q][nann[q]++] = (int)(p - P);
      free(b);
    }
  }
}
static struct prod *newprod(int kind, int id){
  struct prod *p = &P[np++];
  if(np > 60) mc_die("too many products");
  memset(p, 0, offsetof(struct prod, name));
  p->ann[0] = p->ann[1] = p->faulty = p->unz = 0;
  p->seq = 1000 + np*3; p->kind = kind; p->id = id;
  return(p);
}
static void reset(void){
  np = 0; nann[0] = nann[1] = 0; sbnseq = 100;
  iox_faults = iox_points = dbx_faults = dbx_points = 0; iox_hook = NULL;
  g.spooltype = SPOOLTYPE_FS; g.spoolsavefmt = SAVEFORMAT_WITH_CCB;
  g.filterq_patt_accept = g.serverq_patt_accept = g.savez_patt_accept = NULL;
  g.rtxdb_patt_accept = g.patt_accept = NULL; g.spooldb_slots = 0;
  g.f_loadave_max = g.f_loadave_max_rtx = 0; g.rtxdb_slots = 1;
  g.rtxdb_default_process = 1;
  g.savez_patt_accept = "!_sdus,.";
  g.savez_patt_accept = "_(sx|ti)us";
  g.mspoolbdb_dbcache_mb = 1; g.mspoolbdb_ndb = 2;
  g.pctl_read_timeout_ms = 1000;
  sched_early_timeouts = sched_spurious = 0; sched_sync_points = 0;
  nenv_rmtree_contents("spool"); nenv_rmtree_contents("log");
  nenv_rmtree_contents("cspool");
}
static int count_files(const char *dir){
  DIR *d = opendir(dir);
  struct dirent *e;
  int n = 0;
  char b[800];
  if(d == NULL) return(0);
  while((e = readdir(d)) != NULL){
    struct stat st;
    if(e->d_name[0] == '.') continue;
    snprintf(b, sizeof(b), "%s/%s", dir, e->d_name);
    if(lstat(b, &st) == 0 && S_ISDIR(st.st_mode)) n += count_files(b);
    else ++n;
  }
  closedir(d);
  return(n);
}
static int nlines(const char *p){
  static char b[20000];
  int n = nenv_slurp(p, b, sizeof(b)), i, k = 0;
  for(i = 0; i < n; ++i) k += b[i] == '\n';
  return(k);
}

/* ------------------------------------------------ C07: forms and queues */
static void forms_main(void *a){
  int kind = mc_choose(K_FORMS, "kind"), i, n = 0, f, s;
  static const int sizes[] = { 0, 1, 150, 4900 };
  int size, fail = 0;
  (void)a;
  g.spooltype = 1 + mc_choose(3, "spool type");
  g.spoolsavefmt = mc_choose(2, "format");
  f = mc_choose(3, "filter pattern"); s = mc_choose(3, "server pattern");
  size = sizes[mc_choose(4, "size")];
  g.filterq_patt_accept = f == 0 ? NULL : f == 1 ? "_tius" : "";
  g.serverq_patt_accept = s == 0 ? NULL : s == 1 ? "!_tius,_" : "";
  if(s == 1) g.serverq_patt_accept = "_[^t]";
  up();
  for(i = 0; i < 3; ++i){
    struct prod *p;
    /* one of the kind between two others */
    if(i == 1) p = newprod(kind, 4 + size % 2);
    else p = newprod(i ? K_CTRLZ : K_PLAIN, 10 + i);
    sendprod(p, i == 1 ? size : 40);
    sched_settle();
  }
  drain();
  for(i = 0; i < np; ++i){
    struct prod *p = &P[i];
    int t = strstr(p->fname, "_tius") != NULL;
    if(p->bad){
      ++fail;
      if(in_spool(p, 0)) mc_fail("a product which is damaged is in the spool");
      if(p->ann[0] || p->ann[1]) mc_fail("a damaged product is announced");
      continue;
    }
    if(!in_spool(p, 1)) mc_fail("%s is not in the spool", p->name);
    if(p->ann[0] != (f == 0 ? 1 : f == 1 ? t : 0))
      mc_fail("%s is announced %d times to the filters", p->name, p->ann[0]);
    if(p->ann[1] != (s == 0 ? 1 : s == 1 ? !t : 0))
      mc_fail("%s is announced %d times to the server", p->name, p->ann[1]);
    ++n;
  }
  if(g.spooltype == SPOOLTYPE_FS && count_files(g.spooldir) != n)
    mc_fail("there are %d files in the spool, should be %d",
	    count_files(g.spooldir), n);
  if(nlines(g.missinglogfile) != 0) mc_fail("good products logged missing");
  down();
  {
    uint64_t h = mc_hashi(mc_hashi(MC_H0, kind), n*100 + nann[0]*10 + nann[1]);
    h = mc_hashi(mc_hashi(h, g.spooltype*2 + g.spoolsavefmt), size);
    mc_state(h); mc_outcome(h);
  }
}

/* -------------------------------------------- C07: faults while processing */
static int fault_cur(void){ return(iox_nfaults + dbx_nfaults); }
static void faults_main(void *a){
  static const int ks[] = { K_PLAIN, K_CCB2, K_UNZ };
  int i, n = 0, both = 0;
  int db = mc_choose(2, "data base faults");
  (void)a;
  g.spoolsavefmt = mc_choose(2, "format");
  g.spooldb_slots = mc_choose(2, "ring")*1024;
  up();
  sched_settle();
  for(i = 0; i < 3; ++i){
    struct prod *p = newprod(ks[(i + both) % 3], 20 + 2*i);
    int f0 = fault_cur();
    /* the frames arrive undisturbed, the processor may fail */
    sendprod(p, 60);
    iox_faults = !db; dbx_faults = db;
    sched_settle();
    iox_faults = dbx_faults = 0;
    p->faulty = fault_cur() - f0;
  }
  /* whatever was left waiting by a fault is retried in time */
  sleep(3);
  drain();
  for(i = 0; i < np; ++i){
    struct prod *p = &P[i];
    if(!p->faulty){
      if(!in_spool(p, 1)) mc_fail("%s is not in the spool", p->name);
      if(p->ann[0] != 1 || p->ann[1] != 1)
	mc_fail("%s is announced %d, %d times", p->name, p->ann[0], p->ann[1]);
      ++n;
    }else if(!db){
      if(p->ann[0] || p->ann[1])
	mc_fail("%s could not be written and is announced", p->name);
      if(in_spool(p, 0))
	mc_fail("%s could not be written and part of it is left in the spool",
		p->name);
    }else if((p->ann[0] || p->ann[1]) && !in_spool(p, 1)) mc_fail("no file");
  }
  down();
  mc_state(mc_hashi(mc_hashi(mc_hashs(MC_H0, iox_last), n), nann[0]*8+nann[1]));
  mc_outcome(mc_hashi(mc_hashs(MC_H0, iox_last), n));
}

/* ---------------------------------- C07: consumers as fast as they can be */
static int cstop;
static void *consumer(void *a){
  int q = a != NULL, st;
  void *b; size_t n;
  while(!cstop){
    b = NULL; n = 0;
    st = q ? e_nbspq_rcv_server(&b, &n) : e_nbspq_rcv_filter(&b, &n);
    if(st == 0){
      struct prod *p;
      int pts = iox_points;
      iox_points = 0;
      p = announced(q, b, n);
      iox_points = pts;
      annorder[q][nann[q]++] = (int)(p - P);
      free(b);
    }else if(st != 1) mc_fail("queue %d: %d", q, st);
  }
  return(NULL);
}
static void order_main(void *a){
  int i, c[2], k;
  static const int ks[] = { K_CCB2, K_UNZ, K_CTRLZ };
  (void)a;
  g.queue_read_timeout_ms = 500;
  g.spooltype = 1 + mc_choose(2, "spool type");
  k = mc_choose(2, "kind");
  up();
  cstop = 0;
  c[0] = sched_spawn(consumer, NULL, "filter");
  c[1] = sched_spawn(consumer, &c, "server");
  sched_settle();
  iox_points = 1; dbx_points = 1;
  for(i = 0; i < 2; ++i) sendprod(newprod(ks[k + i], 31 + i), 30);
  sched_settle();
  sched_settle();
  iox_points = dbx_points = 0;
  sleep(3);
  cstop = 1;
  sched_join(c[0]); sched_join(c[1]);
  for(i = 0; i < np; ++i)
    if(P[i].ann[0] != 1 || P[i].ann[1] != 1)
      mc_fail("%s is announced %d, %d times", P[i].name, P[i].ann[0],
	      P[i].ann[1]);
  for(i = 0; i < 2; ++i)
    if(annorder[i][0] != 0 || annorder[i][1] != 1)
      mc_fail("the announcements are out of order");
  down();
  mc_state(mc_hashi(MC_H0, sched_switches));
  mc_outcome(MC_H0);
}

/* ------------------------------------------------------ C06: retransmissions */
struct rec { unsigned seq; int st; };
static struct rec R[2][64];	/* current, old */
static int nr[2];
static int rget(unsigned seq){
  int g_, i;
  for(g_ = 0; g_ < 2; ++g_)
    for(i = nr[g_] - 1; i >= 0; --i)
      if(R[g_][i].seq == seq) return(R[g_][i].st);
  return(-1);
}
static void rput(unsigned seq, int st){
  R[0][nr[0]].seq = seq; R[0][nr[0]++].st = st;
}
static int failing;
static int hook_fail(const char *op, const char *path){
  (void)path;
  return(failing && !strcmp(op, "write"));
}
static int stm;			/* the statistics are checked (C25) */
static void sendsync(void){
  struct frspec s;
  memset(&s, 0, sizeof(s));
  s.cmd = 5; s.seqno = ++sbnseq;
  fr_build(&F, &s);
  sbnframeproc(&F);
}
static void rtx_main(void *a){
  int cfg = mc_choose(4, "config"), d, depth = mc_tier ? 5 : 4, i;
  uint64_t h = mc_hashi(MC_H0, cfg);
  int nmiss = 0, nrtx = 0;
  (void)a;
  g.rtxdb_slots = cfg == 0 || cfg == 1;
  g.rtxdb_default_process = cfg != 3;
  g.rtxdb_patt_accept = cfg == 1 ? "_sxus" : NULL;
  nr[0] = nr[1] = 0;
  iox_hook = hook_fail; failing = 0;
  up();
  if(stm){ sbnseq += 1; sendsync(); stx_reset(); }
  for(d = 0; d < depth; ++d){
    /* 0 good, 1 incomplete, 2 cannot be written, 3 time passes,
       4... again the k-th product (or one not seen), good or incomplete,
       or good and cannot be written */
    int op = mc_choose(4 + 3*(np + 1), "op");
    struct prod *p;
    if(op == 3){
      set_rtxdb_truncate_flag();
      sleep(3);
      if(stm) stx_report();
      memcpy(R[1], R[0], sizeof(R[0])); nr[1] = nr[0]; nr[0] = 0;
      if(!g.rtxdb_slots) nr[1] = 0;
      mc_step();
      h = mc_hashi(h, 999);
      continue;
    }
    p = newprod(np & 1 ? K_PLAIN : K_CCB2, np);
    failing = 0;
    if(op == 1) p->incomplete = 1;
    else if(op == 2) failing = 1;
    else if(op >= 4){
      int k = (op - 4)/3, m = (op - 4) % 3;
      if(k < np - 1){
	p->orig = P[k].seq; p->id = P[k].id; p->kind = P[k].kind;
      }else p->orig = 77;
      if(m == 1) p->incomplete = 1;
      if(m == 2) failing = 1;
    }
    sendprod(p, 50);
    sched_settle();
    drain();
    {
      int flag = cfg == 0 || (cfg == 1 && !(p->id & 1)) || cfg >= 2;
      int db = g.rtxdb_slots, want = 1, o = -9, try = 0;
      if(p->incomplete){
	want = 0; ++nmiss;
	if(flag && db) rput(p->seq, 1);
      }else{
	if(p->orig){
	  ++nrtx;
	  o = !flag ? -1 : !db ? -2 : rget(p->orig);
	  if(o == 0){ want = 0; if(flag && db) rput(p->seq, 0); }
	  else if(o == -2 && !g.rtxdb_default_process) want = 0;
	}
	try = want;
	if(want && failing) want = 0;
	else if(want && flag && db) rput(p->seq, 0);
      }
      ++X[X_TRANS];
      ++X[p->incomplete ? X_MISS : X_COMPL];
      if(p->orig){
	++X[X_RTX];
	if(!p->incomplete){
	  ++X[X_RTXC];
	  ++X[o == 0 || (o == -2 && !g.rtxdb_default_process) ? X_RTXI : X_RTXP];
	  if(o == 1) ++X[X_RTXR];
	}
      }
      if(try && failing) ++X[X_BADP];
      if(p->ann[0] != want || p->ann[1] != want)
	mc_fail("product %u (retransmission of %u, status of that one %d) is "
		"announced %d/%d times", p->seq, p->orig, o, p->ann[0],
		p->ann[1]);
      if(!failing && in_spool(p, want) != want)
	mc_fail("product %u (retransmission of %u, status of that one %d) is "
		"%sin the spool", p->seq, p->orig, o, want ? "not " : "");
      h = mc_hashi(h, want*100 + o + 20);
      for(i = 0; i < 2; ++i){
	int j;
	for(j = 0; j < nr[i]; ++j) h = mc_hashi(h, R[i][j].seq*2 + R[i][j].st);
      }
      mc_state(h);
    }
  }
  if(nlines(g.missinglogfile) != nmiss)
    mc_fail("%d incomplete products logged, there were %d",
	    nlines(g.missinglogfile), nmiss);
  if(nlines(g.rtxlogfile) != nrtx)
    mc_fail("%d retransmissions logged, there were %d", nlines(g.rtxlogfile),
	    nrtx);
  mc_outcome(h);
  if(stm){ stx_report(); stx_report(); }
  down();
}

/* ------------------------------------ C13: each pattern for its own purpose */
static int accepts(const char *pat, struct prod *p){
  if(pat == NULL) return(1);
  if(pat[0] == 0) return(0);
  if(strcmp(pat, "_sxus") == 0) return(!(p->id & 1));
  return(p->id & 1);		/* "_,!_sxus" */
}
static void use_main(void *a){
  static char *pats[] = { NULL, "_sxus", "_,!_sxus", "" };
  char *pt[5];
  int i, round, n = 0;
  uint64_t h = MC_H0;
  (void)a;
  for(i = 0; i < 5; ++i){
    pt[i] = pats[mc_choose(i == 0 && !mc_tier ? 3 : 4, "pattern")];
    h = mc_hashi(h, pt[i] ? (int)strlen(pt[i]) : -1);
  }
  g.patt_accept = pt[0]; g.filterq_patt_accept = pt[1];
  g.serverq_patt_accept = pt[2]; g.savez_patt_accept = pt[3];
  g.rtxdb_patt_accept = pt[4];
  g.spooltype = SPOOLTYPE_FS;
  up();
  for(round = 0; round < 2; ++round)
    for(i = 0; i < 4; ++i){
      int in;
      struct prod *p = newprod(i < 2 ? K_CTRLZ : K_PLAIN, 40 + i);
      if(round){ p->orig = P[i].seq; }
      p->unz = p->kind == K_CTRLZ && !accepts(pt[3], p);
      sendprod(p, 30);
      sched_settle();
      drain();
      in = accepts(pt[0], p);
      /* received already: only if it is remembered */
      if(round && accepts(pt[4], p)) in = 0;
      n += in;
      if(in_spool(p, in) != in)
	mc_fail("%s (%s) is %sin the spool", p->name, round ? "retransmission" :
		"first time", in ? "not " : "");
      if(p->ann[0] != (in && accepts(pt[1], p)))
	mc_fail("%s is announced %d times to the filters", p->name, p->ann[0]);
      if(p->ann[1] != (in && accepts(pt[2], p)))
	mc_fail("%s is announced %d times to the server", p->name, p->ann[1]);
      h = mc_hashi(h, in*4 + p->ann[0]*2 + p->ann[1]);
      mc_state(h);
    }
  if(count_files(g.spooldir) != n)
    mc_fail("%d files in the spool, should be %d", count_files(g.spooldir), n);
  down();
  mc_outcome(h);
}

/* --------------------------------------------------- C28: the load is high */
static double load_ = -1;
static int load_fails;
int __wrap_getloadavg(double *v, int n){
  int i;
  if(load_fails) return(-1);
  for(i = 0; i < n; ++i) v[i] = i ? 1000 - load_ : load_;
  return(n);
}
#define NCH NPCAST_NUM_CHANNELS
static long chan_reads[NCH]; static double chan_last[NCH], chan_gap[NCH];
ssize_t __wrap_recvfrom_channel_timed(int c, void *b, size_t n, unsigned int secs);
static int feeding, feedch;
int __wrap_get_npcast_channel_enable(int c){ return(c == feedch); }
ssize_t __wrap_recvfrom_channel_timed(int c, void *b, size_t n, unsigned int secs){
  double t = vclock_ns/1e9;
  (void)b; (void)n; (void)secs;
  if(!feeding) mc_fail("a reader reads");
  if(chan_reads[c]) chan_gap[c] = t - chan_last[c];
  ++chan_reads[c];
  usleep(1003000);
  chan_last[c] = vclock_ns/1e9;
  return(0);
}
static void ldr_main(void *a){
  /* the readers and the load */
  static const int lim[] = { 0, 3 };
  int cfg = mc_choose(4*NCH, "limits, channel");
  int soft = lim[cfg & 1], hard = lim[cfg >> 1 & 1]*2, i = cfg >> 2, d;
  int secs = 5 + 4*mc_choose(2, "seconds"), state = 0;
  uint64_t h = mc_hashi(MC_H0, soft*100 + hard*10 + secs);
  (void)a;
  g.loadave_max_soft = soft; g.loadave_max_hard = hard;
  g.loadave_max_sleep_secs = secs; g.loadave_max_rtx_index = 0;
  memset(chan_reads, 0, sizeof(chan_reads));
  feeding = 1; quit_ = 0; feedch = i;
  if(spawn_readers() != 0) mc_fail("no readers");
  for(d = 0; d < (mc_tier ? 6 : 4); ++d){
    int k = mc_choose(6, "load");
    static const double ld[] = { 0.9, 2.99, 3.0, 5.99, 6.2, 0 };
    load_ = ld[k];
    load_fails = k == 5;
    verify_load_ave_condition();
    load_fails = 0;
    state = hard && (int)load_ >= hard ? 2 : soft && (int)load_ >= soft ? 1 : 0;
    sleep(60);
    mc_step();
    {
      double want = state == 2 ? secs : 0;
      if(chan_reads[i] < 3) mc_fail("reader %d does not read", i);
      if(chan_gap[i] < want - 0.01 || chan_gap[i] > want + 0.01)
	mc_fail("with a load of %g (limits %d, %d, sleep %d) reader %d waits %g "
		"between frames", load_, soft, hard, secs, i, chan_gap[i]);
      chan_reads[i] = 0;
    }
    h = mc_hashi(h, state);
    mc_state(h);
  }
  quit_ = 1;
  kill_reader_threads();
  feeding = 0;
  for(i = 0; i < NCH; ++i) g.f_reader_thread_created[i] = 0;
  mc_outcome(h);
}
static void ld_main(void *a){
  /* the retransmissions and the load */
  static const double ld[] = { 2.99, 3.0, 5.99, 6.2 };
  static const int idx[] = { 0, 250, 500, 501 };
  int cfg = mc_choose(16, "limits, index");
  int soft = (cfg & 1)*3, hard = (cfg >> 1 & 1)*6, ix = idx[cfg >> 2], d, n0, cur = 0, nt = 0, nr_ = 0, shed = 0;
  uint64_t h = mc_hashi(MC_H0, soft*100 + hard*10 + ix);
  (void)a;
  g.loadave_max_soft = soft; g.loadave_max_hard = hard;
  g.loadave_max_rtx_index = ix; g.loadave_max_sleep_secs = 30;
  load_fails = 0;
  up();
  nbspstats_init();
  /* with or without retransmissions in the last period */
  n0 = ix ? mc_choose(2, "period before") : 0;
  for(d = 0; d < (mc_tier ? 5 : 4) + n0; ++d){
    int op = n0 && d < 2 ? 1 + d : mc_choose(4 + 4, "op");
    struct prod *p;
    if(op == 2){
      /* the statistics are written */
      nbspstats_update();
      if(nt) cur = nr_*1000/nt;
      nt = nr_ = 0;
      unlink(g.statusfile);
    }else if(op == 3){
      load_fails = 1;
      verify_load_ave_condition();
      load_fails = 0;
      shed = 0;
    }else if(op >= 4){
      int hi;
      load_ = ld[op - 4];
      verify_load_ave_condition();
      hi = (soft && (int)load_ >= soft) || (hard && (int)load_ >= hard);
      shed = hi && ix && cur >= ix;
    }else{
      /* a product, a retransmission of one that was not received */
      int in;
      p = newprod(op ? K_PLAIN : K_CTRLZ, d);
      if(op){ p->orig = 33; ++nr_; }
      ++nt;
      sendprod(p, 30);
      sched_settle();
      drain();
      in = !(op && shed);
      if(in_spool(p, in) != in || p->ann[0] != in || p->ann[1] != in)
	mc_fail("a %s with index %d of %d, load %g of %d, %d: announced %d",
		op ? "retransmission" : "product", cur, ix, load_, soft, hard,
		p->ann[0]);
    }
    mc_step();
    h = mc_hashi(mc_hashi(h, op), cur*2 + shed);
    mc_state(mc_hashi(mc_hashi(MC_H0, cur*2 + shed), nt*10 + nr_));
  }
  down();
  mc_outcome(h);
}

/* --------------------------------------------------------- C08: the ring */
static void sched(void (*f)(void *)){
  reset();
  sched_run(f, NULL);
  iox_hook = NULL; iox_faults = iox_points = dbx_faults = dbx_points = 0;
}
/* the library, with small rings */
static int delfail, delcalls;
static int destroy_key(char *key){
  ++delcalls;
  if(key[0] == '\0') return(0);
  if(delfail){ errno = EACCES; return(-1); }
  return(file_delete(key));
}
static void fpath(char *b, int i){
  snprintf(b, 600, "%s/f%d%.*s", g.spooldir, i, i % 3*40,
	   "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
	   "xxxxxxxxxxxxxxxxxxxxxxxxx");
}
static int isthere(int i){
  char b[600]; struct stat st;
  fpath(b, i);
  return(stat(b, &st) == 0);
}
static void body_ring(void){
  struct spooldb_st *s;
  char b[600], db[600];
  int op0 = mc_choose(20, "slots, first op"), slots = 1 + op0/5;
  int depth = mc_tier ? 8 : 6, d, i, k;
  int keep = slots, grown = 0;	/* how many must be there */
  int n = 0, gone[32], stuck[32], dup[32];
  int ks = 800;
  uint64_t h = mc_hashi(MC_H0, slots);
  reset();
  memset(gone, 0, sizeof(gone)); memset(stuck, 0, sizeof(stuck));
  memset(dup, 0, sizeof(dup));
  snprintf(db, 600, "%s/db/ring", mc_scratch);
  unlink(db);
  s = spooldb_init(slots, ks, destroy_key);
  if(s == NULL) mc_fail("spooldb_init");
  for(d = 0; d < depth + 2; ++d){
    int op = d == depth ? 5 : d == depth + 1 ? 6 :
      d == 0 ? op0 % 5 : mc_choose(5, "op"), st;
    delfail = 0;
    switch(op){
    case 0: case 1: case 2:
      /* a new file; 1: the old one cannot be deleted; 2: it was deleted
	 already by someone else */
      if(op == 2){
	for(i = 0; i < n; ++i)
	  if(isthere(i)){ fpath(b, i); unlink(b); gone[i] = 1; break; }
      }
      fpath(b, n);
      nenv_writefile(b, "x", 1);
      if(op == 1){
	int there = 0;
	delfail = 1;
	for(i = 0; i < n; ++i) there += isthere(i) && !stuck[i];
	st = spooldb_insert(s, b);
	if(there >= slots && st == 0)
	  mc_fail("a file that cannot be deleted is not reported");
	if(st != 0)
	  for(i = 0; i < n; ++i) if(isthere(i) && !stuck[i]){ stuck[i]=1; break; }
      }else{
	st = spooldb_insert(s, b);
	if(st != 0) mc_fail("insertion gives %d", st);
      }
      ++n;
      if(grown && ++grown > slots){ keep = slots; grown = 0; }
      break;
    case 3: case 4:
      /* saved and read again; 4: with one more slot */
      if(spooldb_write(s, db, 0600) != 0) mc_fail("cannot be saved");
      spooldb_destroy(s);
      if(op == 4){ ++slots; grown = 1; }
      s = spooldb_init(slots, ks, destroy_key);
      st = spooldb_read(s, db);
      if(st != 0) mc_fail("what was saved cannot be read: %d", st);
      break;
    case 5:
      /* with fewer slots, or another key size, it is not accepted */
      if(spooldb_write(s, db, 0600) != 0) mc_fail("cannot be saved");
      {
	struct spooldb_st *t;
	delcalls = 0;
	if(slots > 1){
	  t = spooldb_init(slots - 1, ks, destroy_key);
	  if(spooldb_read(t, db) != 1) mc_fail("a smaller ring is accepted");
	  spooldb_destroy(t);
	}
	t = spooldb_init(slots, ks + 1, destroy_key);
	if(spooldb_read(t, db) != 1) mc_fail("another key size is accepted");
	spooldb_destroy(t);
	if(delcalls) mc_fail("files are deleted when reading the ring");
      }
      break;
    case 6:
      /* the file that was being saved is cut anywhere: refused */
      if(spooldb_write(s, db, 0600) != 0) mc_fail("cannot be saved");
      {
	struct spooldb_st *t;
	struct stat sb;
	static const int per[] = { 99, 90, 70, 40, 1, 0 };
	stat(db, &sb);
	for(i = 0; i < 6; ++i){
	  if(truncate(db, sb.st_size*per[i]/100) != 0) mc_die("truncate");
	  t = spooldb_init(slots, ks, destroy_key);
	  if(spooldb_read(t, db) == 0) mc_fail("a cut file is accepted");
	  spooldb_destroy(t);
	}
      }
      break;
    }
    mc_step();
    /* the newest are there, and no more than the slots */
    for(i = n - 1, k = 0; i >= 0; --i){
      if(gone[i]) { if(isthere(i)) mc_fail("?"); if(n - i <= keep) ++k;
	continue; }
      if(n - i <= keep){
	if(!isthere(i))
	  mc_fail("file %d of %d was deleted, the last %d should be kept",
		  i + 1, n, keep);
      }
    }
    for(i = 0, k = 0; i < n; ++i) k += isthere(i) && !stuck[i];
    if(k > slots) mc_fail("there are %d files, more than the %d slots", k,
			  slots);
    for(i = 0; i < n; ++i) h = mc_hashi(h, isthere(i));
    h = mc_hashi(h, slots*100 + spooldb_get_slot(s));
    mc_state(h);
  }
  spooldb_destroy(s);
  mc_outcome(h);
}
/* the same path twice */
static void body_dup(void){
  struct spooldb_st *s;
  char b[600];
  int slots = 2 + mc_choose(3, "slots"), first, second, i;
  reset();
  first = mc_choose(slots, "first");
  second = first + 1 + mc_choose(slots, "second");
  s = spooldb_init(slots, 800, destroy_key);
  delfail = 0;
  for(i = 0; i < second + slots; ++i){
    fpath(b, i == second ? first : i);
    nenv_writefile(b, "x", 1);
    if(spooldb_insert(s, b) != 0) mc_fail("insertion fails");
    if(i >= second && i < second + slots && !isthere(first)){
      if(second - first <= slots){
	mc_known("dup-path", "a product spooled again under the same path is "
		 "deleted with its first copy");
	break;
      }
      mc_fail("the file spooled last but %d is deleted, with %d slots",
	      i - second, slots);
    }
  }
  spooldb_destroy(s);
  mc_state(mc_hashi(mc_hashi(MC_H0, slots), first*100 + second));
  mc_outcome(mc_hashi(MC_H0, second - first < slots));
}
/* the daemon: ring of 1024 files, restarted */
static int ring_restart, ring_grow, ring_n;
static void ringd_main(void *a){
  int i, k;
  static char st[1100][700];
  (void)a;
  g.spooldb_slots = 5;
  up();
  for(i = 0; i < ring_n; ++i){
    struct prod *p;
    np = 0;
    p = newprod(K_PLAIN, i % 900);
    p->seq = 5000 + i;
    sendprod(p, 20);
    sched_settle();
    if(i % 100 == 0) drain();
    else{ void *b = NULL; size_t n; g.queue_read_timeout_ms = 0;
      if(e_nbspq_rcv_filter(&b, &n) == 0) free(b);
      b = NULL;
      if(e_nbspq_rcv_server(&b, &n) == 0) free(b);
    }
    strcpy(st[i], p->path);
    if(i == ring_restart){
      down();
      if(ring_grow) g.spooldb_slots = 1026;
      up();
      if(quit_asked) mc_fail("the saved ring is not accepted");
    }
  }
  for(i = ring_n - 1, k = 0; i >= 0; --i, ++k){
    int there = access(st[i], F_OK) == 0;
    if(k < 1024 && !there) mc_fail("%d-th last file is gone", k);
    if(k >= (ring_grow ? 1026 : 1024) && there)
      mc_fail("%d-th last file is still there", k);
  }
  down();
  mc_state(mc_hashi(MC_H0, ring_restart*2 + ring_grow));
  mc_outcome(mc_hashi(MC_H0, ring_restart*2 + ring_grow));
}
static void run(void){
  vclock_reset();
  iox_nfaults = dbx_nfaults = 0; iox_last = dbx_last = "";
  sched_switches = 0;
  unlink(g.spooldb_fname);
  if(!strcmp(mc_arg, "forms")) sched(forms_main);
  else if(!strcmp(mc_arg, "faults")) sched(faults_main);
  else if(!strcmp(mc_arg, "order")) sched(order_main);
  else if(!strcmp(mc_arg, "rtx")) sched(rtx_main);
  else if(!strcmp(mc_arg, "st-rtx")){ stm = 1; sched(rtx_main); }
  else if(!strcmp(mc_arg, "pt-use")) sched(use_main);
  else if(!strcmp(mc_arg, "ld-rtx")) sched(ld_main);
  else if(!strcmp(mc_arg, "ld-read")) sched(ldr_main);
  else if(!strcmp(mc_arg, "ring")) body_ring();
  else if(!strcmp(mc_arg, "dup")) body_dup();
  else if(!strcmp(mc_arg, "ringd")){
    static const int at[] = { -1, 0, 500, 1023, 1024, 1027 };
    ring_restart = at[mc_choose(6, "restart")];
    ring_grow = mc_choose(2, "grow");
    ring_n = 1030;
    sched(ringd_main);
  }else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 0, 0 };
  return(mc_main(argc, argv, &o, init, run));
}
