/*
 * C11, C12, C14, C19: what one server receives from another (files: NBS1,
 * announcements: NBS2) and from its input fifo. The real slave threads run
 * against virtual masters.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <netdb.h>
#include <sys/stat.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "iox.h"
#include "const.h"
#include "globals.h"
#include "pctl.h"
#include "nbspre.h"
#include "nbsp.h"
#include "nbspq.h"
#include "dbenv.h"
#include "nbs1.h"
#include "packfp.h"
#include "packfpu.h"
#include "nbspmspoolbdb.h"
#include "slave.h"
#include "slavet.h"
#include "signal.h"
#include "file.h"
#include "err.h"

static int quit_, quit_asked;
int __wrap_get_quit_flag(void){ return(quit_); }
void __wrap_set_quit_flag(void){ quit_ = 1; ++quit_asked; }

#define SEC 1000000000LL
#define TMO 5			/* slave_read_timeout_secs */
#define RETRY 1
#define REOPEN 7

static void init(void){
  nenv_init();
  g.dbcache_mb = 1;
  if(nbsp_open_dbenv() != 0) mc_die("dbenv: %s", nenv_lastlog);
  g.slave_read_timeout_secs = TMO;
  g.slave_read_timeout_retry = RETRY;
  g.slave_reopen_timeout_secs = REOPEN;
  g.slave_stats_logperiod_secs = 1 << 30;
  g.infifo_grp = "root";
  iox_prefix = mc_scratch;
}

/* --------------------------------------------------------- virtual masters */
enum { END_IDLE, END_EOF, END_ERR };
enum { K_OK, K_REFUSED, K_GAI, K_HELLOERR, K_HELLOTMO, K_HELLOPART };
struct conn {
  int kind, end;
  unsigned char *s;
  int n, pos, avail;		/* avail: how much has been sent so far */
  int gap_at, gap2_at;		/* pauses */
  int64_t gap_ns, gap_until;
  int chunk;			/* at most so many bytes are read at once */
  int cut[4], ncut;		/* reads stop there */
  int ended;			/* the end was seen by the slave */
  int idle;			/* polled with nothing to read */
  int closefail;
  char hello[16]; int nhello;
  int master;
};
#define NM 3
static struct {
  struct conn *c[24];
  int nc, next;
  struct conn *cur;
  int fd;
  int64_t closed_at;
  int opened;
} M[NM];
static struct conn pool[80];
static int npool;
static int splits;		/* reads may return less (deviations) */

static struct conn *newconn(int m, int kind){
  struct conn *c = &pool[npool++];
  if(npool >= 80) mc_die("too many connections");
  memset(c, 0, sizeof(*c));
  c->kind = kind; c->gap_at = c->gap2_at = -1; c->end = END_IDLE;
  c->master = m; c->avail = 1 << 30;
  M[m].c[M[m].nc++] = c;
  return(c);
}
static int cn_gap(struct conn *c){
  if(c->pos != c->gap_at && c->pos != c->gap2_at) return(0);
  if(c->gap_until == 0) c->gap_until = vclock_ns + c->gap_ns;
  if(vclock_ns < c->gap_until) return(1);
  return(0);
}
static int cn_limit(struct conn *c){
  int l = c->avail < c->n ? c->avail : c->n, i;
  if(c->gap_at > c->pos && c->gap_at < l) l = c->gap_at;
  if(c->gap2_at > c->pos && c->gap2_at < l) l = c->gap2_at;
  for(i = 0; i < c->ncut; ++i) if(c->cut[i] > c->pos && c->cut[i] < l) l = c->cut[i];
  return(l);
}
static int cn_poll(struct vfd *v, int ev){
  struct conn *c = v->priv;
  int r = 0;
  if(ev & POLLOUT){
    if(c->kind == K_HELLOTMO) return(0);
    if(c->kind == K_HELLOPART && c->nhello >= 2) return(0);
    r |= POLLOUT;
  }
  if(ev & POLLIN){
    if(c->kind == K_HELLOTMO || c->kind == K_HELLOPART || c->kind == K_HELLOERR)
      mc_fail("waits for data from a master that was not told the protocol");
    if(cn_gap(c)) return(r);
    if(c->pos < cn_limit(c)) r |= POLLIN;
    else if(c->pos >= c->n && c->end != END_IDLE)
      r |= POLLIN | (c->end == END_ERR ? POLLERR : 0);
    else c->idle = 1;
  }
  return(r);
}
static ssize_t cn_read(struct vfd *v, void *b, size_t n){
  struct conn *c = v->priv;
  int l = cn_limit(c) - c->pos;
  mc_step();
  if(n == 0) return(0);
  if(l <= 0){
    if(c->pos < c->n || c->end == END_IDLE){ errno = EAGAIN; return(-1); }
    c->ended = 1;
    if(c->end == END_EOF) return(0);
    errno = ECONNRESET; return(-1);
  }
  if((size_t)l > n) l = (int)n;
  if(c->chunk && l > c->chunk) l = c->chunk;
  if(splits && l > 1){
    int k = mc_dev(3, "read");
    if(k == 1) l = 1; else if(k == 2) l = l - 1;
  }
  memcpy(b, c->s + c->pos, l);
  c->pos += l;
  return(l);
}
static ssize_t cn_write(struct vfd *v, const void *b, size_t n){
  struct conn *c = v->priv;
  if(c->kind == K_HELLOERR){ errno = EPIPE; return(-1); }
  if(c->kind == K_HELLOPART && n > 2) n = 2;
  if(c->nhello + n >= sizeof(c->hello)) mc_fail("the slave writes too much");
  memcpy(c->hello + c->nhello, b, n); c->nhello += (int)n;
  return((ssize_t)n);
}
static int cn_close(struct vfd *v){
  struct conn *c = v->priv;
  M[c->master].cur = NULL;
  M[c->master].closed_at = vclock_ns;
  if(c->closefail){ errno = EIO; return(-1); }
  return(0);
}
int __wrap_tcp_client_open_conn(const char *host, const char *port, int tmo,
				int so_rcvbuf, int *gai){
  int m, fd;
  struct conn *c;
  struct vfd *v;
  (void)tmo; (void)so_rcvbuf;
  *gai = 0;
  if(sscanf(host, "m%d", &m) != 1 || m >= NM) mc_fail("connects to %s", host);
  if(strcmp(port, "2210") != 0) mc_fail("connects to port %s", port);
  if(M[m].cur != NULL) mc_fail("a second connection to the same master");
  if(M[m].opened && vclock_ns - M[m].closed_at < REOPEN*SEC)
    mc_fail("reconnects after %lld ms", (long long)
	    (vclock_ns - M[m].closed_at)/1000000);
  M[m].opened = 1;
  M[m].closed_at = vclock_ns;
  if(M[m].next >= M[m].nc) newconn(m, K_OK);
  c = M[m].c[M[m].next++];
  if(c->kind == K_REFUSED){ errno = ECONNREFUSED; return(-1); }
  if(c->kind == K_GAI){ *gai = EAI_AGAIN; return(-1); }
  fd = vfd_new(c);
  v = vfd_get(fd);
  v->read = cn_read; v->write = cn_write; v->poll = cn_poll;
  v->close = cn_close;
  M[m].cur = c; M[m].fd = fd;
  return(fd);
}
static void put(struct conn *c, const void *p, int n){
  c->s = realloc(c->s, c->n + n + 1);
  memcpy(c->s + c->n, p, n);
  c->n += n;
}
static int done1(int m){
  struct conn *c;
  if(M[m].next < M[m].nc || M[m].cur == NULL) return(0);
  c = M[m].cur;
  return(c->pos >= c->n && c->end == END_IDLE && c->idle);
}
static int nmasters;
static int alldone(void *a){
  int i;
  (void)a;
  if(quit_asked) return(1);
  for(i = 0; i < nmasters; ++i) if(!done1(i)) return(0);
  return(1);
}

/* ----------------------------------------------------------------- products */
#define HDRSZ (17 + FBASENAME_SIZE + 1)
struct nprod {
  unsigned seq; int t, cat, code, chan;
  char name[FBASENAME_SIZE + 2];
  unsigned char *b; int n;
  int nb, bs[8];		/* blocks */
  int zip;
  int want;			/* must be delivered */
  int got, partial;
  int master;
};
static struct nprod P[40];
static int np;
static struct nprod *newprod(int m, int n, const char *name){
  struct nprod *p = &P[np++];
  int i;
  if(np >= 40) mc_die("too many products");
  memset(p, 0, sizeof(*p));
  p->master = m; p->want = 1;
  p->seq = 0xfffffff0u + np; p->t = 4; p->cat = 3; p->code = 200 + np;
  p->chan = np % 4;
  if(name) snprintf(p->name, sizeof(p->name), "%s", name);
  else snprintf(p->name, sizeof(p->name), "kwbc_sxus%02d-abc%03d.010203_%u", np,
		np, p->seq % 100000);
  p->n = n; p->b = malloc(n + 1);
  for(i = 0; i < n; ++i) p->b[i] = (unsigned char)(np*37 + i*7 + i/251 + i/65536*3);
  return(p);
}
/* splits it in blocks of at most k bytes */
static void blocks(struct nprod *p, int k){
  int o = 0;
  p->nb = 0;
  while(o < p->n){
    int l = p->n - o < k ? p->n - o : k;
    if(p->nb >= 8) mc_die("too many blocks");
    p->bs[p->nb++] = l; o += l;
  }
}
static void p4(unsigned char *p, unsigned v){
  p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v;
}
static unsigned u4(const unsigned char *p){
  return((unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]);
}
static int packet1(unsigned char *o, struct nprod *p, int k){
  int off = 0, i, n;
  unsigned cs = 0;
  unsigned char *d = o + 12;
  for(i = 0; i < k; ++i) off += p->bs[i];
  n = HDRSZ + p->bs[k];
  memset(d, 0, HDRSZ);
  p4(d, p->seq); d[4] = p->t; d[5] = p->cat; d[6] = p->code; d[7] = p->chan;
  memcpy(d + 8, p->name, strlen(p->name));
  i = 8 + FBASENAME_SIZE + 1;
  d[i] = p->zip; d[i+1] = p->nb >> 8; d[i+2] = p->nb;
  d[i+3] = (k+1) >> 8; d[i+4] = k+1;
  p4(d + i + 5, p->bs[k]);
  memcpy(d + HDRSZ, p->b + off, p->bs[k]);
  for(i = 0; i < n; ++i) cs += d[i];
  p4(o, 1); p4(o + 4, n); p4(o + 8, cs);
  return(12 + n);
}
static unsigned char pk[80000];
static void putprod(struct conn *c, struct nprod *p){
  int k;
  for(k = 0; k < p->nb; ++k) put(c, pk, packet1(pk, p, k));
}

/* ------------------------------------------------------------ set up, tear down */
static char servers[100];
static void up(const char *ms){
  quit_ = quit_asked = 0;
  snprintf(servers, sizeof(servers), "%s", ms);
  g.masterservers = servers;
  g.feedmode = FEEDMODE_MASTERSERVERS;
  if(init_nbsp_regex() != 0) mc_die("regex");
  if(init_slavet() != 0) mc_fail("init_slavet fails");
  if(init_pctl() != 0) mc_fail("init_pctl fails");
  g.f_filter_thread_created = g.f_server_thread_created = 1;
  if(init_nbspq() != 0) mc_fail("init_nbspq fails");
  if(spawn_slave_threads() != 0) mc_fail("no slave threads");
}
static void down(void){
  quit_ = 1;
  kill_slave_threads();
  if(vfd_nopen() != 0) mc_fail("%d descriptors are left open", vfd_nopen());
  kill_nbspq();
  kill_pctl();
  cleanup_slavet();
  free_nbsp_regex();
}
static char *spooldir0;
static int nomem;
static void reset(void){
  int i;
  nomem = 0;
  for(i = 0; i < np; ++i) free(P[i].b);
  for(i = 0; i < npool; ++i) free(pool[i].s);
  np = npool = 0;
  memset(M, 0, sizeof(M));
  vfd_reset();
  splits = 0;
  nmasters = 1;
  iox_open_hook = NULL;
  g.patt_accept = g.filterq_patt_accept = g.serverq_patt_accept = NULL;
  g.savez_patt_accept = NULL;
  g.slave_reject_duplicates = 0;
  g.spooltype = SPOOLTYPE_FS;
  sched_sync_points = 0;
  nenv_rmtree_contents("spool");
  if(spooldir0 == NULL) spooldir0 = g.spooldir;
  /* the sizes of these packets depend on it; and no files are used */
  g.spooldir = strstr("pack link2 hostile2 fifo fifobad fifomem", mc_arg) ?
    "/nonexistent/nbsp/spool" : spooldir0;
}
static uint64_t oh;
static void drain(void){
  struct pctl_element_st *p;
  int st, i;
  for(;;){
    struct nprod *q = NULL;
    char path[600];
    p = eopen_pctl_outputpce(g.pctl, 0, &st);
    if(st == 1) break;
    if(st != 0 || p == NULL) mc_fail("cannot read the processor queue");
    for(i = 0; i < np; ++i) if(P[i].seq == p->seq_number) q = &P[i];
    oh = mc_hashi(mc_hashi(oh, p->seq_number), p->f_complete);
    if(strchr(p->fbasename, '/') != NULL || p->fbasename[0] == 0 ||
       strchr(p->wmo_station, '/') || strcmp(p->wmo_station, "..") == 0)
      mc_fail("a product with the name %s", p->fbasename);
    snprintf(path, sizeof(path), "%s/", g.spooldir);
    if(strncmp(p->fpath, path, strlen(path)) != 0 ||
       strstr(p->fpath + strlen(path), "/../"))
      mc_fail("product outside of the spool: %s", p->fpath);
    if(q == NULL) mc_fail("unknown product %u (%s) delivered", p->seq_number,
			  p->fbasename);
    if(!p->f_complete){ ++q->partial; close_pctl_outputpce(g.pctl); continue; }
    if(++q->got > 1) mc_fail("%s was delivered twice", q->name);
    if(strcmp(q->name, p->fbasename) != 0)
      mc_fail("%s was delivered as %s", q->name, p->fbasename);
    snprintf(path, sizeof(path), "%s/%.*s/%s", g.spooldir,
	     (int)strcspn(q->name, "_"), q->name, q->name);
    if(strcmp(path, p->fpath) != 0)
      mc_fail("path %s, should be %s", p->fpath, path);
    if(p->psh_product_type != q->t || p->psh_product_category != q->cat ||
       p->psh_product_code != q->code || p->np_channel_index != q->chan)
      mc_fail("%s was delivered with other codes", q->name);
    if(strncmp(p->fname, q->name, strlen(p->fname)) != 0 ||
       q->name[strlen(p->fname)] != '.')
      mc_fail("%s was delivered with the root name %s", q->name, p->fname);
    if((int)p->mf->size != q->n || memcmp(p->mf->p, q->b, q->n) != 0)
      mc_fail("%s was delivered with wrong contents (%d bytes, should be %d)",
	      q->name, (int)p->mf->size, q->n);
    close_pctl_outputpce(g.pctl);
    mc_step();
  }
}
static void verdict(void){
  int i;
  if(quit_asked) mc_fail("the program decides to quit");
  for(i = 0; i < np; ++i)
    if(P[i].want && P[i].got != 1)
      mc_fail("%s (from m%d) was %s", P[i].name, P[i].master,
	      P[i].partial ? "delivered incomplete" : "not delivered");
}
static void waitdone(void){
  int i, k;
  if(sched_wait(alldone, NULL, vclock_ns + 3000*SEC, "masters"))
    mc_fail("the slave does not read what the master sends");
  for(i = 0; i < nmasters; ++i)
    for(k = 0; k < M[i].next; ++k)
      if(M[i].c[k]->kind == K_OK &&
	 strcmp(M[i].c[k]->hello, servers[0] == '1' ? PROTOCOL_NBS1_STR :
		PROTOCOL_NBS2_STR) != 0)
	mc_fail("the slave asks for the service '%s'", M[i].c[k]->hello);
}

/* -------------------------------------------------- C11: from a real master */
static unsigned char out[400000];
static int nout, owmax, otmo;
static ssize_t o_write(struct vfd *v, const void *b, size_t n){
  (void)v;
  if(owmax && (int)n > owmax) n = owmax;
  if(nout + n > sizeof(out)) mc_fail("the master writes too much");
  memcpy(out + nout, b, n); nout += (int)n;
  if(owmax > 100) otmo = 1;
  return((ssize_t)n);
}
static int o_poll(struct vfd *v, int ev){
  (void)v;
  if(otmo){ otmo = 0; return(0); }
  return(ev & POLLOUT);
}
static void xfer_main(void *a){
  static const int sizes[] = { 1, 2, 100, 65535, 65536, 65537, 131071, 131072,
			       131073, 200000, 0, 70000 };
  static const char *names[] = { "kwbc_sxus11-abc123.010203_5",
    "kwbc_sxus11.010203_4294967295", "kwbc_sxus11+rra.010203_0",
    "kw_s-a.1", "kwbc_sxus11-abcdef.010203_4294967295" };
  static const unsigned char att[][4] = { {0,0,0,0}, {255,255,255,255},
					  {4,3,201,2}, {127,128,129,3} };
  static const unsigned seqs[] = { 0, 0xffffffffu, 0x80000000u, 12345 };
  int si = mc_choose(12, "size"), ty = mc_choose(2, "spool"), k, fd, st, o;
  int ni = mc_choose(5, "name"), ai = mc_choose(4, "codes"), blk = 0;
  struct nprod *p;
  struct nbs1_packet_st *nbs = malloc(sizeof(*nbs));
  char path[600];
  struct conn *c;
  (void)a;
  owmax = (int[]){ 0, 1000, 7777 }[mc_choose(3, "writes")];
  p = newprod(0, sizes[si], names[ni]);
  p->t = att[ai][0]; p->cat = att[ai][1]; p->code = att[ai][2];
  p->chan = att[ai][3]; p->seq = seqs[ai];
  g.spooltype = ty ? SPOOLTYPE_MBDB : SPOOLTYPE_FS;
  snprintf(path, sizeof(path), "%s/src", g.spooldir); mkdir(path, 0755);
  snprintf(path, sizeof(path), "%s/src/%s", g.spooldir, p->name);
  if(ty){
    g.mspoolbdb_dbcache_mb = 2; g.mspoolbdb_ndb = 2;
    if(nbsp_mspoolbdb_create() != 0) mc_fail("no memory spool");
    if(p->n > 0 && nbsp_mspoolbdb_insert(path, p->b, p->n) != 0)
      mc_fail("insert: %s", nenv_lastlog);
  }else nenv_writefile(path, p->b, p->n);
  memset(nbs, 0xEE, sizeof(*nbs));
  nout = 0; otmo = 0;
  fd = vfd_new(NULL);
  vfd_get(fd)->write = o_write; vfd_get(fd)->poll = o_poll;
  st = init_nbs_packet_st(nbs, path, p->seq, p->t, p->cat, p->code, p->chan,
			  "x");
  if(ty && p->n == 0){
    if(st != -2) mc_fail("a product that is not there: status %d", st);
    goto end;
  }
  if(st != 0) mc_fail("init_nbs_packet_st: %d", st);
  while(nbs->block_number < nbs->num_blocks){
    if(build_nbs_packet(nbs) != 0) mc_fail("build_nbs_packet fails");
    /* a poll without room, and then the rest */
    if(send_nbs_packet(fd, nbs, 1000, 1) != 0) mc_fail("send_nbs_packet fails");
    mc_step();
  }
  free_nbs_packet_st(nbs);
  close(fd);
  /* what was sent, against the documented format */
  for(o = 0; o < nout; ){
    unsigned ds = u4(out + o + 4), cs = 0, i;
    unsigned char *d = out + o + 12;
    if(u4(out + o) != 1) mc_fail("wrong packet id");
    if(o + 12 + (int)ds > nout) mc_fail("packet size");
    for(i = 0; i < ds; ++i) cs += d[i];
    if(cs != u4(out + o + 8)) mc_fail("checksum of block %d", blk + 1);
    if(u4(d) != p->seq || d[4] != p->t || d[5] != p->cat || d[6] != p->code ||
       d[7] != p->chan) mc_fail("codes of block %d", blk + 1);
    d += 8 + FBASENAME_SIZE + 1;
    ++blk;
    k = (p->n + 65535)/65536;
    if((d[1] << 8 | d[2]) != k || (d[3] << 8 | d[4]) != blk)
      mc_fail("block %d of %d, should be %d of %d", d[3] << 8 | d[4],
	      d[1] << 8 | d[2], blk, k);
    if(ds > 65536 + HDRSZ) mc_fail("block %d is too large", blk);
    o += 12 + (int)ds;
  }
  if(p->n == 0){ p->want = 0; }
  c = newconn(0, K_OK);
  put(c, out, nout);
  if(owmax == 1000) c->chunk = 4096;
  /* it may have the same name here */
  g.spooltype = SPOOLTYPE_FS;
  up("1,m0,2210");
  waitdone();
  drain();
  verdict();
  oh = mc_hash(oh, out, nout);
  mc_outcome(oh);
  down();
 end:
  if(ty){ g.spooltype = SPOOLTYPE_MBDB; nbsp_mspoolbdb_destroy(); }
  free(nbs);
}

/* ------------------------------------------------------ C11: splits of the stream */
static int packets;
static void threeprods(struct conn *c, int m){
  struct nprod *p;
  p = newprod(m, 5, NULL); blocks(p, 5); putprod(c, p);
  p = newprod(m, 9, NULL); blocks(p, 4); putprod(c, p);
  p = newprod(m, 3, NULL); blocks(p, 2); putprod(c, p);
  packets = 6;
}
static void split_main(void *a){
  int mode = mc_choose(8, "mode"), n, x, y;
  struct conn *c = newconn(0, K_OK);
  (void)a;
  threeprods(c, 0);
  n = c->n;
  if(mode == 0) c->chunk = 1 + mc_choose(40, "chunk");
  else if(mode == 1){
    splits = 1;
    mc_bound_set(mc_tier ? 3 : 2);
  }else if(mode < 5){
    /* a pause at each position, shorter than the timeouts */
    c->gap_at = mc_choose(n, "position");
    c->gap_ns = (int64_t[]){ 0, 0, TMO*SEC/2, TMO*SEC + SEC, TMO*SEC*2 - SEC }
      [mode];
    c->chunk = (int[]){ 0, 1, 50 }[mc_choose(3, "chunk")];
  }else{
    x = mc_choose(n, "position");
    y = mode == 5 ? 12 : mode == 6 ? 80 : 1 + mc_choose(mc_tier ? 200 : 40, "second");
    c->cut[0] = x; c->cut[1] = x + y; c->ncut = 2;
    c->gap_at = x + y; c->gap_ns = SEC;
  }
  up("1,m0,2210");
  waitdone();
  if(M[0].next != 1) mc_fail("the slave reconnects without need");
  drain();
  verdict();
  mc_outcome(oh);
  down();
}

/* ------------------------------------- C11: the connection is lost somewhere */
static void cut_main(void *a){
  struct conn *c = newconn(0, K_OK), *d;
  int n, at, i, k, end = mc_choose(4, "end"), again = mc_choose(2, "resend");
  int first[4], last[4], two = mc_choose(mc_tier ? 2 : 1, "twice");
  int start = 0, r;
  (void)a;
  threeprods(c, 0);
  for(i = 0, n = 0; i < np; ++i){
    first[i] = n;
    for(k = 0; k < P[i].nb; ++k) n += packet1(pk, &P[i], k);
    last[i] = n;
  }
  d = c;
  for(r = 0; r <= two; ++r){
    int base = first[start];
    at = base + mc_choose(n - base + 1, "position");
    if(two && r == 0 && at % 5 != 1) at = n; /* fewer of the first */
    d->n = at - base;
    d->end = end == 0 ? END_EOF : end == 1 ? END_ERR : END_EOF;
    if(end >= 2){		/* silence longer than the timeouts */
      d->gap_at = d->n; d->gap_ns = (TMO*(RETRY + 1) + 1)*SEC;
      if(end == 3 && d->n < n - base){
	/* and then it goes on, too late */
	d->n += 5;
      }
    }
    for(i = start; i < np; ++i) if(at < last[i]) break;
    start = i;
    if(i == np) break;
    if(!again){
      if(at > first[i]){ P[i].want = 0; ++start; }
    }
    d = newconn(0, K_OK);
    for(i = start; i < np; ++i) putprod(d, &P[i]);
    if(start >= np) break;
  }
  if(d->n == n || start >= np) ;
  up("1,m0,2210");
  waitdone();
  drain();
  verdict();
  for(i = 0; i < np; ++i)
    if(P[i].partial > 1 + two) mc_fail("%d incomplete records", P[i].partial);
  mc_outcome(oh);
  down();
}

/* --------------------------------------------- C11: several masters at a time */
static void multi_main(void *a){
  int m, k, left, tot = 0, lim[NM][12], nl[NM], ni[NM];
  (void)a;
  nmasters = mc_tier ? 3 : 2;
  for(m = 0; m < nmasters; ++m){
    struct conn *c = newconn(m, K_OK);
    struct nprod *p;
    int j, from = np;
    p = newprod(m, 8, NULL); blocks(p, nmasters == 3 ? 8 : 3);
    p = newprod(m, 7, NULL); blocks(p, 4);
    /* the same number in all */
    nl[m] = ni[m] = 0;
    for(j = from; j < np; ++j)
      for(k = 0; k < P[j].nb; ++k){
	put(c, pk, packet1(pk, &P[j], k));
	lim[m][nl[m]++] = c->n;
	if(k == 0){ lim[m][nl[m] - 1] = c->n - 1; lim[m][nl[m]++] = c->n; }
      }
    if(nmasters == 3) nl[m] = nl[m];
    c->avail = 0;
    tot += nl[m];
  }
  up(nmasters == 3 ? "1,m0,2210|1,m1,2210|1,m2,2210" : "1,m0,2210|1,m1,2210");
  for(left = tot; left > 0; --left){
    int e[NM], ne = 0;
    for(m = 0; m < nmasters; ++m) if(ni[m] < nl[m]) e[ne++] = m;
    m = e[mc_choose(ne, "which sends")];
    M[m].c[0]->avail = lim[m][ni[m]++];
    M[m].c[0]->idle = 0;
    sched_settle();
  }
  waitdone();
  drain();
  verdict();
  for(k = 0; k < np; ++k) if(P[k].partial) mc_fail("an incomplete product");
  mc_outcome(oh);
  down();
}

/* ------------------------------------------------------- C11: hostile packets */
static const char *badnames[] = {
  "kwbc_sxus11-abc123.010203_5", "abcd_x.y/../../../tmp/evil", "a/bc_x.y",
  "abcd_x/y.z", "../._x.y", "_x.y", "kwbc_sxus11", "kwbc.sxus_1", "kwbcx_sxus.1",
  "kwbc_sxus111.1", "kwbc_sxus11-abcdefg.1", "kwbc_sxus11+abcdefg.1", "",
  ".", "..", "/", "kwbc_sxus11-abc123.010203_5678901234", "kwbc_.", "kwbc_-.",
};
#define NBAD ((int)(sizeof(badnames)/sizeof(badnames[0])))
static void hostile_main(void *a){
  unsigned char *o = pk, *d = pk + 12;
  static const unsigned ids[] = { 1, 2, 0, 0xffffffffu };
  static const unsigned dsz[] = { 0, HDRSZ - 1, HDRSZ, 65536 + HDRSZ,
    65536 + HDRSZ + 1, 0xffffffffu, 0xfffffff4u, 0xfffffff3u, 0x7fffffffu,
    0x80000000u, 0xfffffff4u + 40, 12 };
  static const unsigned bsz[] = { 0, 0xffffffffu, 65537, 0xffffffffu - 11 - HDRSZ,
				  65536 };
  static const int nbs[] = { 1, 0, 2, 256 }, bns[] = { 1, 0, 2, 3, 65535 };
  int fam = mc_choose(6, "family"), ni = 0, nm, nb = 1, bn = 1, zip = 0, i, n;
  int bsize = 6, dsize, where;
  unsigned id = 1, ds;
  struct conn *c, *e;
  struct nprod *p, *q;
  (void)a;
  memset(pk, 0, sizeof(pk));
  bsize = 6; dsize = HDRSZ + bsize; ds = dsize;
  n = bsize;
  switch(fam){
  case 0:
    id = ids[mc_choose(4, "id")];
    ds = mc_choose(13, "size"); ds = ds == 12 ? (unsigned)dsize : dsz[ds];
    n = mc_choose(6, "block size"); n = n == 5 ? bsize : (int)bsz[n];
    break;
  case 1: ni = mc_choose(NBAD + 2, "name"); zip = mc_choose(3, "zip");
    nb = nbs[mc_choose(4, "blocks")]; break;
  case 2: nb = nbs[mc_choose(4, "blocks")]; bn = bns[mc_choose(5, "block")];
    zip = mc_choose(2, "zip"); break;
  case 3: /* header bytes */
    break;
  case 4: /* cut */
    break;
  case 5: ds = mc_choose(200, "size"); n = (int)ds - HDRSZ + mc_choose(3, "off") - 1;
    break;
  }
  where = mc_choose(3, "where");
  nm = 0;
  if(ni < NBAD) nm = (int)strlen(badnames[ni]);
  c = newconn(0, K_OK);
  p = newprod(0, 10, NULL); blocks(p, 5);
  q = newprod(0, 4, "kwbc_zzzz99.1"); blocks(q, 4);
  q->seq = where == 1 ? p->seq : 77; q->want = 0;
  p4(d, q->seq); d[4] = 1; d[5] = 2; d[6] = 3; d[7] = where == 2 ? 255 : 1;
  if(ni < NBAD) memcpy(d + 8, badnames[ni], nm < FBASENAME_SIZE ? nm : FBASENAME_SIZE);
  else if(ni == NBAD) memset(d + 8, 'a', FBASENAME_SIZE + 1);
  else{ memset(d + 8, 'a', FBASENAME_SIZE + 1); memcpy(d + 8, "kwbc_sxus11.", 12); }
  i = 8 + FBASENAME_SIZE + 1;
  d[i] = zip == 2 ? 255 : zip; d[i+1] = nb >> 8; d[i+2] = nb;
  d[i+3] = bn >> 8; d[i+4] = bn;
  p4(d + i + 5, (unsigned)n);
  for(i = 0; i < bsize; ++i) d[HDRSZ + i] = 'A' + i;
  p4(o, id); p4(o + 4, ds);
  if(fam == 3){
    static const unsigned char v[] = { 0, 1, 2, 127, 128, 255 };
    int b = mc_choose(12 + HDRSZ, "byte");
    o[b] = v[mc_choose(6, "value")];
  }
  if(fam == 4) dsize = mc_choose(HDRSZ + bsize, "cut") - 12;
  if(fam == 5) dsize = (int)ds;
  if(fam == 0 && ds > (unsigned)dsize){
    dsize = ds < 70000 ? (int)ds : 70000;
    memset(d + HDRSZ + bsize, 'B', dsize - HDRSZ - bsize);
  }
  q->name[0] = 0;
  /* between the blocks of a product, before it, or after a first block */
  {
    unsigned char *save = malloc(12 + dsize + 1);
    memcpy(save, pk, 12 + dsize);
    if(where != 0) put(c, pk, packet1(pk, p, 0));
    put(c, save, 12 + dsize);
    if(where != 0) put(c, pk, packet1(pk, p, 1));
    else putprod(c, p);
    memset(pk, 0, 200); 
    free(save);
  }
  p->want = 0;
  c->end = END_EOF;
  e = newconn(0, K_OK);
  p = newprod(0, 6, NULL); blocks(p, 3); putprod(e, p);
  p = newprod(0, 2, NULL); blocks(p, 3); putprod(e, p);
  /* what is delivered under the number of the bad packet: not compared */
  P[1].seq = 77;
  up("1,m0,2210");
  waitdone();
  {
    /* drain, but the product q may have any contents and a safe name */
    struct pctl_element_st *z;
    int st, gotq = 0;
    for(;;){
      struct nprod *x = NULL;
      char path[600];
      z = eopen_pctl_outputpce(g.pctl, 0, &st);
      if(st == 1) break;
      if(st != 0 || z == NULL) mc_fail("cannot read the processor queue");
      oh = mc_hashi(mc_hashi(oh, z->seq_number), z->f_complete);
      snprintf(path, sizeof(path), "%s/", g.spooldir);
      if(strncmp(z->fpath, path, strlen(path)) != 0 && z->f_complete)
	mc_fail("product outside of the spool: %s", z->fpath);
      if(z->f_complete){
	char *s = z->fpath + strlen(path), *t = strchr(s, '/');
	if(t == NULL || strchr(t + 1, '/') != NULL || s[0] == '.' ||
	   t[1] == '.' || strlen(z->fbasename) > FBASENAME_SIZE ||
	   strcmp(t + 1, z->fbasename) != 0)
	  mc_fail("a product is saved as %s", z->fpath);
	for(i = 0; i < np; ++i)
	  if(strcmp(P[i].name, z->fbasename) == 0) x = &P[i];
	if(x == NULL){
	  ++gotq;
	  if(!(z->num_fragments >= 1))
	    mc_fail("a product of %d blocks", z->num_fragments);
	  if(id != 1 || (fam != 3 && (ds != HDRSZ + (unsigned)n)))
	    mc_fail("a packet which is not valid is taken as a product");
	  if(fam == 2 && (nb != 1 || bn != 1) && !(where == 1 && nb == 2))
	    mc_fail("block %d of %d makes a product", bn, nb);
	  if((int)z->mf->size > 65536) mc_fail("too large");
	}else{
	  if(++x->got > 1) mc_fail("delivered twice");
	  /* with where == 1 the packet has the number of this product */
	  if(!(where == 1 && x == &P[0]) &&
	     ((int)z->mf->size != x->n || memcmp(z->mf->p, x->b, x->n) != 0))
	    mc_fail("%s was delivered with wrong contents", x->name);
	}
      }
      close_pctl_outputpce(g.pctl);
      mc_step();
    }
    if(gotq > 1) mc_fail("delivered %d times", gotq);
  }
  verdict();
  mc_outcome(oh);
  down();
}

/* ------------------------------------------------ C11: duplicates and patterns */
static int inject(const char *path){
  char d[600], *q;
  snprintf(d, sizeof(d), "%s", path);
  q = strrchr(d, '/'); *q = 0;
  mkdir(d, 0755);
  nenv_writefile(path, "old", 3);
  return(0);
}
static void dups_main(void *a){
  int when = mc_choose(4, "exists"), rej = mc_choose(2, "reject"), pat, i;
  struct conn *c = newconn(0, K_OK);
  struct nprod *p;
  char path[600];
  pat = mc_choose(4, "pattern");
  (void)a;
  p = newprod(0, 5, NULL); blocks(p, 5); putprod(c, p);
  p = newprod(0, 9, "kwbc_tius02-abc002.010203_9"); blocks(p, 4);
  c->avail = c->n;
  put(c, pk, packet1(pk, p, 0));
  if(when >= 2) c->avail = c->n;
  put(c, pk, packet1(pk, p, 1)); put(c, pk, packet1(pk, p, 2));
  snprintf(path, sizeof(path), "%s/kwbc/%s", g.spooldir, p->name);
  if(when == 1) inject(path);
  p = newprod(0, 3, NULL); blocks(p, 2); putprod(c, p);
  g.slave_reject_duplicates = rej;
  g.patt_accept = (char *[]){ NULL, ".,!_tius", "_tius", "" }[pat];
  up("1,m0,2210");
  sched_settle();
  if(when == 2) inject(path);
  c->avail = 1 << 30; c->idle = 0;
  waitdone();
  drain();
  if(when == 1 || when == 2) P[1].want = 0;
  for(i = 0; i < 3; ++i){
    int t = i == 1;
    if(pat == 3 || (pat == 1 && t) || (pat == 2 && !t)) P[i].want = 0;
    if(!P[i].want && P[i].got) mc_fail("%s is delivered though %s", P[i].name,
		t && (when == 1 || when == 2) ? "it exists" : "it is rejected");
    if(P[i].partial) mc_fail("an incomplete product");
  }
  verdict();
  mc_outcome(oh);
  down();
}

/* ----------------------------------------------------------- C19: reconnections */
enum { F_REFUSED, F_GAI, F_HELLOERR, F_HELLOTMO, F_HELLOPART, F_EOF, F_ERR,
       F_SILENT, F_GARBAGE, F_CUT, F_CUTSIL, F_N };
static void packet2(unsigned char *o, struct nprod *p, int *n);
static void reconn_main(void *a){
  int nbs = 1 + mc_choose(2, "protocol"), depth = mc_tier ? 4 : 3, i, f;
  struct nprod *p;
  struct conn *c;
  char s[40];
  int n;
  (void)a;
  for(i = 0; i < depth; ++i){
    f = mc_choose(F_N + 1, "failure");
    if(f == F_N) break;
    c = newconn(0, f <= F_HELLOPART ? K_REFUSED + f : K_OK);
    c->closefail = f > F_GAI && mc_choose(i == 0 ? 2 : 1, "close fails");
    c->end = f == F_ERR ? END_ERR : END_EOF;
    if(f == F_SILENT){ c->gap_at = 0; c->gap_ns = (TMO*(RETRY + 1) + 1)*SEC; }
    if(f == F_GARBAGE){ memset(pk, 0x47, 300); put(c, pk, 300); }
    if(f == F_CUT || f == F_CUTSIL){
      p = newprod(0, 6, NULL); blocks(p, 6);
      if(nbs == 2) packet2(pk, p, &n); else n = packet1(pk, p, 0);
      p->want = 0;
      put(c, pk, n - 3);
      if(f == F_CUTSIL){
	c->gap_at = c->n; c->gap_ns = (TMO*(RETRY + 1) + 1)*SEC;
      }
    }
  }
  c = newconn(0, K_OK);
  p = newprod(0, 6, NULL); blocks(p, 6);
  if(nbs == 2) packet2(pk, p, &n); else n = packet1(pk, p, 0);
  put(c, pk, n);
  snprintf(s, sizeof(s), "%d,m0,2210", nbs);
  up(s);
  waitdone();
  if(c->pos != c->n) mc_fail("the slave gives up");
  if(nbs == 1){
    drain();
    verdict();
  }else{
    void *b = NULL; size_t bn = 0;
    g.queue_read_timeout_ms = 0;
    if(e_nbspq_rcv_filter(&b, &bn) != 0) mc_fail("nothing is announced");
    if(u4((unsigned char *)b + 12) != p->seq) mc_fail("the wrong announcement");
    free(b); b = NULL;
    if(e_nbspq_rcv_filter(&b, &bn) != 1) mc_fail("too many announcements");
    if(quit_asked) mc_fail("the program decides to quit");
  }
  mc_outcome(mc_hashi(oh, M[0].next));
  down();
}

/* ------------------------------------------------------- C12: announcements */
static void p2path(struct nprod *p, char *path, size_t n){
  snprintf(path, n, "%s/kwbc/%s", g.spooldir, p->name);
}
static void packet2(unsigned char *o, struct nprod *p, int *n){
  unsigned char *d = o + 12;
  unsigned cs = 0; int i, ds;
  char path[600], *q;
  ds = 8 + FNAME_SIZE + 1 + const_fpath_maxsize() + 1;
  memset(d, 0, ds);
  p4(d, p->seq); d[4] = p->t; d[5] = p->cat; d[6] = p->code; d[7] = p->chan;
  q = strchr(p->name, '.');
  memcpy(d + 8, p->name, q ? (size_t)(q - p->name) : strlen(p->name));
  p2path(p, path, sizeof(path));
  strcpy((char *)d + 8 + FNAME_SIZE + 1, path);
  for(i = 0; i < ds; ++i) cs += d[i];
  p4(o, 2); p4(o + 4, ds); p4(o + 8, cs);
  *n = ds + 12;
}
static void got2(int q, struct nprod *x, void *b, size_t n){
  struct packet_info_st pi;
  char path[600], fn[64];
  memset(&pi, 0xEE, sizeof(pi));
  pi.packet = b; pi.packet_size = n;
  if(nbsfp_unpack_fpath(&pi) != 0) mc_fail("queue %d: damaged announcement", q);
  snprintf(fn, sizeof(fn), "%s", x->name);
  if(strchr(fn, '.')) *strchr(fn, '.') = 0;
  p2path(x, path, sizeof(path));
  if(pi.seq_number != x->seq) mc_fail("queue %d: %u, should be %u", q,
				      pi.seq_number, x->seq);
  if(pi.psh_product_type != x->t || pi.psh_product_category != x->cat ||
     pi.psh_product_code != x->code || pi.np_channel_index != x->chan)
    mc_fail("queue %d: codes %d %d %d %d, should be %d %d %d %d", q,
	    pi.psh_product_type, pi.psh_product_category, pi.psh_product_code,
	    pi.np_channel_index, x->t, x->cat, x->code, x->chan);
  if(strcmp(pi.fname, fn) != 0) mc_fail("queue %d: %s should be %s", q, pi.fname, fn);
  if(strcmp(pi.fpath, path) != 0)
    mc_fail("queue %d: %s should be %s", q, pi.fpath, path);
}
/* takes everything out of the queues; known: prefix of the list P */
static void drain2(int tolerant){
  int q, i, k;
  for(q = 0; q < 2; ++q){
    int last = -1;
    for(;;){
      void *b = NULL; size_t n = 0;
      g.queue_read_timeout_ms = 0;
      i = q ? e_nbspq_rcv_server(&b, &n) : e_nbspq_rcv_filter(&b, &n);
      if(i == 1) break;
      if(i != 0) mc_fail("queue %d cannot be read", q);
      mc_step();
      for(k = 0; k < np; ++k)
	if(P[k].seq == u4((unsigned char *)b + 12)) break;
      oh = mc_hashi(oh, q*100 + k);
      if(k < np && P[k].want >= 0){
	got2(q, &P[k], b, n);
	if(k <= last) mc_fail("queue %d: %s out of order", q, P[k].name);
	last = k;
	P[k].got |= 1 << q;
      }else if(!tolerant) mc_fail("queue %d: unknown announcement", q);
      else{
	unsigned char *d = (unsigned char *)b + 12;
	if(memchr(d + 8, 0, FNAME_SIZE + 1) == NULL ||
	   memchr(d + 8 + FNAME_SIZE + 1, 0, n - 12 - 8 - FNAME_SIZE - 1) == NULL)
	  mc_fail("queue %d: an announcement that does not end", q);
	++P[np - 1].partial;
      }
      free(b);
    }
  }
}
static void verdict2(void){
  int i;
  if(quit_asked) mc_fail("the program decides to quit");
  for(i = 0; i < np; ++i)
    if(P[i].want > 0 && P[i].got != 3)
      mc_fail("%s: not announced (%d)", P[i].name, P[i].got);
}
/* through the queues, for all values of the attributes */
static void pack_main(void *a){
  int what = mc_choose(8, "what"), v, i, max = const_fpath_maxsize();
  struct pctl_element_st *e;
  struct packet_info_st pi;
  struct nprod *p;
  char longname[64];
  (void)a;
  if(what < 4) v = mc_choose(256, "value");
  else if(what == 4) v = mc_choose(64, "seq");
  else if(what == 5) v = mc_choose(FNAME_SIZE + 1, "fname");
  else if(what == 6) v = mc_choose(FBASENAME_SIZE - 2, "fbasename");
  else v = mc_choose(81, "codes");
  up("2,m0,2210");
  memset(longname, 'n', sizeof(longname));
  p = newprod(0, 1, NULL);
  switch(what){
  case 0: p->t = v; break;
  case 1: p->cat = v; break;
  case 2: p->code = v; break;
  case 3: p->chan = v; break;
  case 4: p->seq = v < 32 ? 1u << v : (1u << (v - 32)) - 1; break;
  case 5: snprintf(p->name, sizeof(p->name), "%.*s", v, longname); break;
  case 6: snprintf(p->name, sizeof(p->name), "ab.%.*s", v, longname);

    break;
  case 7:{
    int w[3] = { 0, 128, 255 };
    p->t = w[v % 3]; p->cat = w[v / 3 % 3]; p->code = w[v / 9 % 3];
    p->chan = w[v / 27];
  }
  }
  e = malloc(const_pce_size());
  memset(e, 0xEE, const_pce_size());
  e->fpath_size = max + 1;
  e->seq_number = p->seq; e->psh_product_type = p->t;
  e->psh_product_category = p->cat; e->psh_product_code = p->code;
  e->np_channel_index = p->chan;
  snprintf(e->fname, sizeof(e->fname), "%s", p->name);
  if(strchr(e->fname, '.')) *strchr(e->fname, '.') = 0;
  p2path(p, e->fpath, max + 1);
  memset(&pi, 0xEE, sizeof(pi));
  if(nbsfp_packetinfo_init(&pi) != 0) mc_fail("packetinfo");
  if(nbsfp_pack_fpath(&pi, e) != 0) mc_fail("pack");
  if(pi.fpath == NULL || strcmp(pi.fpath, e->fpath) != 0) mc_fail("fpath");
  {
    /* the documented format */
    unsigned char *d = pi.packet; unsigned cs = 0;
    if(u4(d) != 2 || u4(d + 4) != pi.packet_size - 12) mc_fail("envelope");
    for(i = 12; i < (int)pi.packet_size; ++i) cs += d[i];
    if(cs != u4(d + 8)) mc_fail("checksum");
  }
  if(e_nbspq_snd_filter(pi.packet, pi.packet_size) != 0 ||
     e_nbspq_snd_server(pi.packet, pi.packet_size) != 0) mc_fail("queues");
  drain2(0);
  verdict2();
  nbsfp_packetinfo_cleanup(&pi);
  free(e);
  mc_outcome(mc_hashi(oh, what*1000 + v));
  down();
}
static void link2_main(void *a){
  int mode = mc_choose(8, "mode"), n, i, k;
  struct conn *c = newconn(0, K_OK), *d;
  static int len;
  (void)a;
  for(i = 0; i < 3; ++i){
    newprod(0, 1, NULL);
    packet2(pk, &P[i], &len);
    put(c, pk, len);
  }
  n = c->n;
  switch(mode){
  case 0: c->chunk = 1 + mc_choose(60, "chunk"); break;
  case 1: splits = 1; mc_bound_set(mc_tier ? 3 : 2); break;
  case 2: case 3:
    c->gap_at = mc_choose(n, "position");
    c->gap_ns = mode == 2 ? TMO*SEC - SEC : TMO*SEC*2 - SEC;
    c->chunk = (int[]){ 0, 7 }[mc_choose(2, "chunk")];
    break;
  case 4: case 5: case 6:
    c->n = mc_choose(n, "cut");
    c->end = mode == 4 ? END_EOF : END_ERR;
    if(mode == 6){
      c->end = END_EOF; c->gap_at = c->n;
      c->gap_ns = (TMO*(RETRY + 1) + 1)*SEC;
    }
    k = mc_choose(2, "resend");
    d = newconn(0, K_OK);
    for(i = c->n/len; i < 3; ++i){
      if(i == c->n/len && !k && c->n % len){ P[i].want = 0; continue; }
      packet2(pk, &P[i], &len);
      put(d, pk, len);
    }
    break;
  case 7: /* patterns */
    i = mc_choose(4, "filter pattern"); k = mc_choose(4, "server pattern");
    g.filterq_patt_accept = (char *[]){ NULL, "02", ".,!02", "" }[i];
    g.serverq_patt_accept = (char *[]){ NULL, "02", ".,!02", "" }[k];
    up("2,m0,2210");
    waitdone();
    drain2(0);
    for(n = 0; n < 3; ++n){
      int w = 0;
      if(i == 0 || (i == 1 && n == 1) || (i == 2 && n != 1)) w |= 1;
      if(k == 0 || (k == 1 && n == 1) || (k == 2 && n != 1)) w |= 2;
      if(P[n].got != w) mc_fail("%s: announced %d, should be %d", P[n].name,
				P[n].got, w);
    }
    mc_outcome(oh);
    down();
    return;
  }
  up("2,m0,2210");
  waitdone();
  drain2(0);
  verdict2();
  mc_outcome(oh);
  down();
}
static void hostile2_main(void *a){
  int fam = mc_choose(4, "family"), n, i, fix = 1;
  struct conn *c = newconn(0, K_OK), *d;
  unsigned ds, cs = 0;
  int valid = 1, dsize;
  (void)a;
  newprod(0, 1, NULL); packet2(pk, &P[0], &n); put(c, pk, n);
  newprod(0, 1, NULL); P[1].want = -1; P[1].seq = 4242;
  packet2(pk, &P[1], &n);
  ds = n - 12; dsize = n;
  switch(fam){
  case 0:{
    static const unsigned dsz[] = { 0, 1, 8, 8 + FNAME_SIZE, 8 + FNAME_SIZE + 1,
      8 + FNAME_SIZE + 2, 60, 0xffffffffu, 0xfffffff4u, 0xfffffff3u,
      0x7fffffffu, 0x80000000u, 65536 };
    static const unsigned ids[] = { 2, 1, 0, 0xffffffffu };
    unsigned id = ids[mc_choose(4, "id")];
    i = mc_choose(15, "size");
    if(i < 13) ds = dsz[i]; else ds = ds + (i == 13 ? 1 : -1);
    p4(pk, id); p4(pk + 4, ds);
    if(ds < 60000) dsize = (int)ds + 12;
    break;
  }
  case 1:{
    static const unsigned char v[] = { 0, 1, 2, 127, 128, 255 };
    int b = mc_choose(12 + 8 + FNAME_SIZE + 1 + 4, "byte");
    pk[b] = v[mc_choose(6, "value")];
    fix = mc_choose(2, "checksum");
    break;
  }
  case 2: /* names that do not end */
    if(mc_choose(2, "fname")) memset(pk + 12 + 8, 'a', FNAME_SIZE + 1);
    if(mc_choose(2, "fpath"))
      memset(pk + 12 + 8 + FNAME_SIZE + 1, '/', ds - 8 - FNAME_SIZE - 1);
    break;
  case 3: ds = mc_choose(120, "size"); p4(pk + 4, ds); dsize = ds + 12;
    memset(pk + 12 + 8 + FNAME_SIZE + 1, '/', 200);
    break;
  }
  if(fix && u4(pk + 4) < 60000){
    for(i = 0; i < (int)u4(pk + 4); ++i) cs += pk[12 + i];
    p4(pk + 8, cs);
  }
  (void)valid;
  put(c, pk, dsize);
  memset(pk, 0, 200);
  c->end = END_EOF;
  d = newconn(0, K_OK);
  for(i = 0; i < 2; ++i){
    newprod(0, 1, NULL);
    packet2(pk, &P[np - 1], &n); put(d, pk, n);
  }
  newprod(0, 1, NULL); P[np - 1].want = 0; P[np - 1].seq = 999999;
  up("2,m0,2210");
  waitdone();
  drain2(1);
  if(P[np - 1].partial > 2) mc_fail("announced more than once");
  if(P[np - 1].partial && fam == 1 && !fix && 0) mc_fail("bad checksum");
  verdict2();
  mc_outcome(oh);
  down();
}

/* ------------------------------------------------------------ C14: input fifo */
static struct conn *ff;		/* what is written to the fifo */
static int fifo_opens, fifo_fd;
static ssize_t ff_read(struct vfd *v, void *b, size_t n){
  (void)v;
  struct vfd w = { .priv = ff };
  ssize_t r;
  if(ff->pos >= cn_limit(ff)){ errno = EAGAIN; return(-1); }
  r = cn_read(&w, b, n);
  return(r);
}
static int ff_poll(struct vfd *v, int ev){
  struct vfd w = { .priv = ff };
  (void)v;
  return(cn_poll(&w, ev));
}
static int ff_close(struct vfd *v){ (void)v; fifo_fd = -1; return(0); }
static int reopen_drops;
static int ff_open(const char *p, int fl){
  struct vfd *v;
  struct stat st;
  (void)fl;
  if(strcmp(p, g.infifo) != 0) return(-9);
  if(stat(p, &st) != 0 || !S_ISFIFO(st.st_mode)) mc_fail("the fifo is not there");
  if((st.st_mode & 0777) != g.infifo_mode)
    mc_fail("the fifo has mode %o", st.st_mode & 0777);
  if(fifo_fd != -1) mc_fail("the fifo is opened twice");
  if(fifo_opens > 0 && reopen_drops){
    /* what was written to the old one is lost */
    if(ff->pos < reopen_drops) ff->pos = reopen_drops;
  }
  ++fifo_opens;
  fifo_fd = vfd_new(ff);
  v = vfd_get(fifo_fd);
  v->read = ff_read; v->poll = ff_poll; v->close = ff_close;
  return(fifo_fd);
}
static int ffdone(void *a){
  (void)a;
  return(quit_asked || (ff->pos >= ff->n && ff->idle && fifo_fd != -1));
}
static void up3(void){
  quit_ = quit_asked = 0;
  g.feedmode = FEEDMODE_INPUTFIFO;
  g.masterservers = NULL;
  if(init_nbsp_regex() != 0) mc_die("regex");
  fifo_opens = 0; fifo_fd = -1;
  iox_open_hook = ff_open;
  if(init_slavet() != 0) mc_fail("init_slavet fails");
  if(init_pctl() != 0) mc_fail("init_pctl fails");
  g.f_filter_thread_created = g.f_server_thread_created = 1;
  if(init_nbspq() != 0) mc_fail("init_nbspq fails");
  if(spawn_slave_threads() != 0) mc_fail("no slave threads");
}
static int rec3(unsigned char *o, struct nprod *p){
  char path[600], fn[64];
  int n;
  p2path(p, path, sizeof(path));
  snprintf(fn, sizeof(fn), "%s", p->name); *strchr(fn, '.') = 0;
  n = sprintf((char *)o + 4, "%u %d %d %d %d %s %s", p->seq, p->t, p->cat,
	      p->code, p->chan, fn, path);
  p4(o, n);
  o[4 + n] = '\n';
  return(n + 5);
}
static void wait3(void){
  if(sched_wait(ffdone, NULL, vclock_ns + 3000*SEC, "fifo"))
    mc_fail("the fifo is not read");
}
static void fifo_main(void *a){
  int mode = mc_choose(8, "mode"), i, n, at[4], k;
  (void)a;
  ff = newconn(0, K_OK); M[0].nc = 0; reopen_drops = 0;
  for(i = 0; i < 3; ++i){
    newprod(0, 1, NULL);
    if(mode == 5){
      int v = mc_choose(3, "codes");
      P[i].t = (int[]){ 0, 255, 128 }[v]; P[i].cat = 255 - P[i].t;
      P[i].code = P[i].t; P[i].chan = (v*127) % 256;
      if(v) P[i].seq = v == 1 ? 0xffffffff - i : i;
    }
    n = rec3(pk, &P[i]);
    put(ff, pk, n);
    at[i] = ff->n;
  }
  n = ff->n;
  if(mode == 0) ff->chunk = 1 + mc_choose(40, "chunk");
  else if(mode == 1){ splits = 1; mc_bound_set(mc_tier ? 3 : 2); }
  else if(mode == 2 || mode == 3){
    ff->gap_at = mc_choose(n, "pause");
    /* between two records the pause may be of any length */
    ff->gap_ns = mode == 2 ? TMO*SEC - SEC : 100*TMO*SEC;
    if(mode == 3) ff->gap_at = mc_choose(3, "pause") ?
		    (ff->gap_at < at[0] ? at[0] : at[1]) : 0;
  }else if(mode == 4){
    ff->cut[0] = mc_choose(n, "position");
    ff->cut[1] = ff->cut[0] + 1 + mc_choose(20, "second"); ff->ncut = 2;
  }else if(mode == 6){
    i = mc_choose(4, "filter pattern"); k = mc_choose(4, "server pattern");
    g.filterq_patt_accept = (char *[]){ NULL, "02", ".,!02", "" }[i];
    g.serverq_patt_accept = (char *[]){ NULL, "02", ".,!02", "" }[k];
    up3();
    wait3();
    drain2(0);
    for(n = 0; n < 3; ++n){
      int w = 0;
      if(i == 0 || (i == 1 && n == 1) || (i == 2 && n != 1)) w |= 1;
      if(k == 0 || (k == 1 && n == 1) || (k == 2 && n != 1)) w |= 2;
      if(P[n].got != w) mc_fail("%s: announced %d, should be %d", P[n].name,
				P[n].got, w);
    }
    goto out;
  }
  up3();
  wait3();
  drain2(0);
  if(fifo_opens != 1) mc_fail("the fifo is reopened without need");
  verdict2();
 out:
  mc_outcome(oh);
  down();
}
static const char *badrec[] = {
  "", " ", "1 2 3 4 5", "1 2 3 4 5 ", "1 2 3 4 5 a", "1 2 3 4 5 a b", "1 2 3 4 a b",
  "a b c d e f g", "1 2 3 4 5  b", "1 2 3 4 5 a ", "1 2 3 4 5 aaaaaaaaaaaaaaaaaa b",
  "1 2 3 4 5 aaaaaaaaaaaaaaaaaaa b", "1 2 3 4 5 a /", "1 2 3 4 5 a /x/",
  "-1 -2 -3 -4 -5 a b", "99999999999 2 3 4 5 a b", "1 999 3 4 5 a b",
  "1 2 3 4 5 a bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb",
  "1 2 3 4 5 a bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb",
  "1 2 3 4 5 a /aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/b",
};
#define NREC ((int)(sizeof(badrec)/sizeof(badrec[0])))
static void fifobad_main(void *a){
  static const unsigned sz[] = { 0, 1, 0xffffffffu, 0x7fffffffu, 0x80000000u,
    0xfffffffeu, 0xffff, 0x7ffffffeu, 2000, 0x100000 };
  int fam = mc_choose(4, "family"), i, n, k;
  char path[600];
  (void)a;
  ff = newconn(0, K_OK); M[0].nc = 0; reopen_drops = 0;
  newprod(0, 1, NULL); put(ff, pk, rec3(pk, &P[0]));
  newprod(0, 1, NULL); P[1].want = -1; P[1].seq = 4243;
  n = rec3(pk, &P[1]);
  switch(fam){
  case 0: p4(pk, sz[mc_choose(10, "size")]); break;
  case 1: i = mc_choose(NREC, "record"); k = (int)strlen(badrec[i]);
    strcpy((char *)pk + 4, badrec[i]);
    pk[4 + k] = '\n'; p4(pk, k); n = k + 5;
    if(mc_choose(2, "end")) pk[4 + k] = 'x';
    break;
  case 2: i = mc_choose(n, "byte");
    pk[i] = (unsigned char[]){ 0, 1, ' ', '\n', '/', 255, '-', '%' }
      [mc_choose(8, "value")];
    break;
  case 3: n = mc_choose(n, "cut"); break;
  }
  put(ff, pk, n);
  reopen_drops = ff->n;
  up3();
  /* the next ones are written when the fifo was reopened, or is idle */
  sched_wait(ffdone, NULL, vclock_ns + 300*SEC, "fifo");
  if(fifo_fd == -1) mc_fail("the fifo is not opened again");
  /* a cut record may swallow the next */
  for(k = 0; k < 20 && !(ff->pos >= ff->n); ++k)
    sched_wait(ffdone, NULL, vclock_ns + 30*SEC, "fifo");
  {
    /* wait longer than the timeout in a record */
    extern unsigned sleep(unsigned);
    sleep(TMO*4);
  }
  for(i = 0; i < 2; ++i){
    newprod(0, 1, NULL);
    put(ff, pk, rec3(pk, &P[np - 1]));
  }
  reopen_drops = 0;
  ff->idle = 0;
  newprod(0, 1, NULL); P[np - 1].want = 0; P[np - 1].seq = 999999;
  wait3();
  drain2(1);
  if(P[np - 1].partial > 2) mc_fail("announced more than once");
  if(quit_asked) mc_fail("the program decides to quit");
  for(i = 2; i < np; ++i)
    if(P[i].want > 0 && P[i].got != 3) mc_fail("%s: not announced", P[i].name);
  (void)path;
  mc_outcome(oh);
  down();
}

/* ------------------------------------------------------ there is no memory */
static int mainfiber, nfails;
static int flt(const char *w){
  if(!nomem || sched_self() == mainfiber) return(0);
  if(!mc_dev(2, w)) return(0);
  ++nfails;
  mc_note("<%s fails> ", w);
  errno = ENOMEM;
  return(1);
}
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n){ return(flt("malloc") ? NULL : __real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b){ return(flt("calloc") ? NULL : __real_calloc(a, b)); }
void *__wrap_realloc(void *p, size_t n){ return(flt("realloc") ? NULL : __real_realloc(p, n)); }
static int ffready(void *a){
  (void)a;
  return(quit_asked || (fifo_fd != -1 && ff->idle && ff->pos >= ff->n));
}
static int netready(void *a){
  struct conn *c = M[0].cur;
  (void)a;
  return(quit_asked || (c != NULL && c->idle && c->pos >= c->n));
}
static void nomem_main(void *a){
  /* each product is sent when all is quiet after the one before */
  int fifo = strcmp(mc_arg, "fifomem") == 0, proto = 0, i, k, n, nf, any = 0;
  char nm[80];
  struct conn *c;
  (void)a;
  k = mc_choose(2, "lengths");
  ff = newconn(0, K_OK); M[0].nc = 0; reopen_drops = 0;
  if(fifo) up3();
  else{
    proto = 1 + mc_choose(2, "protocol");
    up(proto == 1 ? "1,m0,2210" : "2,m0,2210");
  }
  mainfiber = sched_self();
  for(i = 0; i < 5; ++i){
    struct nprod *p;
    if(sched_wait(fifo ? ffready : netready, NULL, vclock_ns + 3000*SEC, "ready"))
      mc_fail("does not read any more after %d products", i);
    if(quit_asked) mc_fail("the program decides to quit");
    snprintf(nm, sizeof(nm), "kwbc_sxus%02d%.*s.%.*s5%d", i, i*2 % 3 ? 7 : 0, "-abc123",
	     k ? i : 5 - i, "123456", i);
    p = newprod(0, proto == 1 ? 70 + i : 1, nm);
    nf = nfails = 0;
    nomem = 1;
    if(fifo){
      n = rec3(pk, p); put(ff, pk, n); reopen_drops = ff->n; ff->idle = 0;
    }else{
      c = M[0].cur;
      c->idle = 0;
      if(proto == 1){ blocks(p, 40); putprod(c, p); }
      else{ packet2(pk, p, &n); put(c, pk, n); }
    }
    sched_settle();
    /* longer than any time out */
    {
      extern unsigned sleep(unsigned);
      sleep(TMO*(RETRY + 2)*2);
    }
    nomem = 0;
    nf = nfails;
    if(proto == 1){ drain(); n = p->got; }
    else{ if(nf) p->want = 0; drain2(0); n = p->got == 3; }
    if(!n && nf == 0) mc_fail("product %d is not received%s", i,
			      any ? ", after memory was missing once" : "");
    any += nf;
    oh = mc_hashi(mc_hashi(oh, n), nf);
  }
  if(quit_asked) mc_fail("the program decides to quit");
  mc_outcome(oh);
  down();
}

static struct { const char *n; void (*f)(void *); int bound; } parts[] = {
  { "xfer", xfer_main }, { "split", split_main }, { "cut", cut_main },
  { "multi", multi_main }, { "hostile", hostile_main }, { "dups", dups_main },
  { "reconn", reconn_main }, { "pack", pack_main }, { "link2", link2_main },
  { "hostile2", hostile2_main }, { "fifo", fifo_main },
  { "fifobad", fifobad_main }, { "fifomem", nomem_main }, { "netmem", nomem_main },
};
static void body(void){
  unsigned i;
  reset();
  oh = MC_H0;
  vclock_reset();
  for(i = 0; i < sizeof(parts)/sizeof(parts[0]); ++i)
    if(strcmp(mc_arg, parts[i].n) == 0){
      sched_run(parts[i].f, NULL);
      return;
    }
  mc_die("unknown part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 0, 0 };
  return(mc_main(argc, argv, &o, init, body));
}
