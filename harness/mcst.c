/*
 * C22: nbspmcast. The frames the real program sends for a list of files are
 * checked one by one against the protocol, and received by the daemon.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "iox.h"
#include "tool.h"
#include "const.h"
#include "globals.h"
#include "pctl.h"
#include "sbn.h"
#include "nbspre.h"
#include "framep.h"

int mcst_main(int, char **);
static int big, bigframes;
static void init(void){
  struct pctldb_param_st par;
  nenv_init();
  iox_prefix = g.spooldir;
  if(init_nbsp_regex() != 0) mc_die("regex");
  memset(&par, 0, sizeof(par));
  par.reclen = const_pce_data_size();
  par.memfile_minsize = g.memfile_minsize;
  g.pctl = epctl_open(4, &par);
  if(g.pctl == NULL) mc_die("epctl_open");
}

/* ----------------------------------------------------------- what is expected */
enum { WT_OK, WT_FAIL, WT_ANY };
static struct doc {
  char path[300];
  unsigned char *b; int n;	/* -1: there is no such file */
  int want, got, refused;
  char name[80];
  unsigned seq;
} D[8];
static int nd, nerr;
static uint64_t oh;
static void adddoc(int n, int want){
  struct doc *d = &D[nd];
  int k = nd++, h, i;
  memset(d, 0, sizeof(*d));
  snprintf(d->path, sizeof(d->path), "%s/in%d", g.spooldir, k);
  d->want = want; d->n = n;
  if(n < 0) return;
  d->b = malloc(n + 100);
  for(i = 0; i < n; ++i) d->b[i] = (unsigned char)(k*71 + i*5 + i/256*3 + i/4000);
  h = sprintf((char *)d->b + n + 1, "SXUS%02d KWBC 010203\r\r\nABC%03d\r\r\n", k + 10, k);
  if(n >= h) memcpy(d->b, d->b + n + 1, h);
  else d->want = d->want == WT_OK ? WT_ANY : d->want;
  nenv_writefile(d->path, d->b, n);
}

/* ----------------------------------------------------------------- the network */
static int mallocfail;
void *__real_malloc(size_t);
static int snd_fd, sent, sendfail, radar;
static unsigned prod0, sbn0;
static int have_prod0;
static struct { int n; unsigned char *b; } S[20000];
static char got_addr[64], got_port[64], got_if[64], got_ip[64];
static int got_ttl, got_loop, nsnd, sndfail;
int __wrap_mcast_snd(char *ip, char *port, char *ifname, char *ifip, int ttl,
		     int loop, void **sa, socklen_t *sl, int *gai){
  ++nsnd;
  snprintf(got_addr, 64, "%s", ip); snprintf(got_port, 64, "%s", port);
  snprintf(got_if, 64, "%s", ifname ? ifname : "-");
  snprintf(got_ip, 64, "%s", ifip ? ifip : "-");
  got_ttl = ttl; got_loop = loop;
  *gai = 0;
  if(sndfail){ if(sndfail == 2) *gai = EAI_NONAME; errno = EINVAL; return(-1); }
  *sa = calloc(1, 16); *sl = 16;
  snd_fd = vfd_new(NULL);
  return(snd_fd);
}
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl,
		      const struct sockaddr *sa, socklen_t sl){
  int k;
  if(fd < VFD0) return(__real_sendto(fd, b, n, fl, sa, sl));
  if(fd != snd_fd || sl != 16 || sa == NULL) mc_fail("sends to something else");
  mc_step();
  if(big){ ++bigframes; return((ssize_t)n); }
  if(sendfail){
    k = mc_dev(3, "sendto");
    if(k){ ++nerr; mc_note("<sendto fails> "); }
    if(k == 1){ errno = ENOBUFS; return(-1); }
    if(k == 2) return((ssize_t)n - 1);
  }
  if(sent >= 20000) mc_fail("too many frames");
  S[sent].b = __real_malloc(n); S[sent].n = (int)n;
  memcpy(S[sent].b, b, n);
  ++sent;
  return((ssize_t)n);
}
void *__wrap_malloc(size_t n){
  if(mallocfail && tool_running() && n > 4000){
    if(mc_dev(2, "malloc")){ ++nerr; mc_note("<malloc fails> "); errno = ENOMEM; return(NULL); }
  }
  return(__real_malloc(n));
}
static unsigned u4(const unsigned char *p){
  return((unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]);
}
static unsigned u2(const unsigned char *p){ return(p[0] << 8 | p[1]); }

/* one frame, against the protocol; returns the number of its block */
static int frame(int i, int *nfr, unsigned *prod, unsigned *seq, int *nb, int *start, int *end){
  unsigned char *p = S[i].b;
  int n = S[i].n, k, ck = 0, h, ds, blk;
  if(n < 32) mc_fail("frame %d has %d bytes", i, n);
  if(n > 5000) mc_fail("frame %d has %d bytes", i, n);
  for(k = 0; k < 14; ++k) ck += p[k];
  if(u2(p + 14) != (unsigned)ck) mc_fail("frame %d: wrong checksum", i);
  if(p[0] != 255) mc_fail("frame %d: address %d", i, p[0]);
  if(p[4] != 3) mc_fail("frame %d: command %d", i, p[4]);
  *seq = u4(p + 8);
  blk = u2(p + 20);
  h = blk == 0 ? 68 : 32;
  if((int)u2(p + 18) != h) mc_fail("frame %d: header length %d", i, u2(p + 18));
  ds = u2(p + 24);
  if(h + ds != n) mc_fail("frame %d: %d bytes of data, the frame has %d", i, ds, n);
  if(u2(p + 22) != 0) mc_fail("frame %d: data offset", i);
  *start = p[17] & 1; *end = (p[17] & 4) != 0;
  if((p[17] & ~7) != 0) mc_fail("frame %d: transfer type %d", i, p[17]);
  *prod = u4(p + 28);
  if(blk == 0){
    *nfr = u2(p + 32 + 14);
    if(u2(p + 38) != 36) mc_fail("frame %d: length of the product header", i);
    if(p[42] != (radar ? PSH_TYPE_NEXRAD : PSH_TYPE_NWSTG))
      mc_fail("frame %d: product type %d", i, p[42]);
    if(u4(p + 52) != 0 || (p[37] & 16)) mc_fail("frame %d: is a retransmission", i);
  }
  *nb = ds;
  return(blk);
}
static int daemon_rx = 1;
static void take(struct doc *d){
  struct pctl_element_st *p;
  int st;
  p = eopen_pctl_outputpce(g.pctl, 0, &st);
  if(st == 1 || p == NULL) return;
  if(!p->f_complete) mc_fail("the daemon received %s incomplete", d->path);
  if(d->got++) mc_fail("the daemon received %s twice", d->path);
  if((int)p->mf->size != d->n + 24 ||
     memcmp((char *)p->mf->p + 24, d->b, d->n) != 0)
    mc_fail("the daemon received something else");
  if(d->n > 100 && strncmp(p->fbasename, d->name, strlen(d->name)) != 0)
    mc_fail("the daemon calls it %s, not %s", p->fbasename, d->name);
  if(p->seq_number != d->seq) mc_fail("the daemon has another number");
  close_pctl_outputpce(g.pctl);
  mc_step();
}
/* all that was sent */
static struct sbn_frame FR;
static void check(int code){
  int i = 0, k, bad = 0;
  unsigned last = prod0;
  for(k = 0; k < nd; ++k){
    struct doc *d = &D[k];
    int total = d->n + 24, nfr = 0, blk = 0, off = 0, nb, st, en, expn, part = 0;
    unsigned prod = 0, pr, seq, seq0 = 0, want;
    want = ++last;
    /* did it send anything of this one */
    if(i >= sent || u4(S[i].b + 28) != want){
      if(d->want == WT_OK && !nerr) mc_fail("%s is not sent", d->path);
      if(d->n < 0 || d->want != WT_ANY) bad = 1;
      continue;
    }
    if(d->n < 0) mc_fail("sends a file that is not there");
    d->seq = want;
    sprintf(d->name, "kwbc_sxus%02d-abc%03d", k + 10, k);
    expn = -1;
    for(;;){
      if(i >= sent || u4(S[i].b + 28) != want){ part = 1; break; }
      if(frame(i, &nfr, &pr, &seq, &nb, &st, &en) != blk)
	mc_fail("file %d: block %d is missing", k, blk);
      if(blk == 0){ prod = pr; seq0 = seq; expn = nfr;
	if(seq != sbn0) mc_fail("file %d: the frames start at %u, not %u", k, seq, sbn0); }
      if(pr != prod || seq != seq0 + blk) mc_fail("file %d: wrong numbers", k);
      if(st != (blk == 0)) mc_fail("file %d: start flag in block %d", k, blk);
      if(off + nb > total) mc_fail("file %d: more data than the file", k);
      {
	unsigned char *q = S[i].b + (blk ? 32 : 68);
	int j;
	for(j = 0; j < nb; ++j, ++off)
	  if(off >= 24 && q[j] != d->b[off - 24])
	    mc_fail("file %d: byte %d is wrong", k, off - 24);
      }
      if(daemon_rx){
	FR.np_channel_index = radar ? 2 : 0;
	FR.rawdata_size = S[i].n;
	memcpy(FR.rawdata, S[i].b, S[i].n);
	sbnframeproc(&FR);
      }
      ++i; ++blk;
      if(en) break;
    }
    if(part){
      if(!nerr) mc_fail("file %d: the last frame is missing", k);
      bad = 1;
      if(daemon_rx){
	/* the daemon gives the rest up when the next one comes */
	struct pctl_element_st *p; int s;
	while((p = eopen_pctl_outputpce(g.pctl, 0, &s)) != NULL && s == 0){
	  if(p->f_complete) mc_fail("the daemon has a product of which a part was sent");
	  close_pctl_outputpce(g.pctl);
	}
      }
      continue;
    }
    if(off != total) mc_fail("file %d: %d of %d bytes sent", k, off, total);
    if(expn != blk) mc_fail("file %d: announces %d frames, has %d", k, expn, blk);
    if(daemon_rx){
      struct pctl_element_st *p; int s;
      /* what was left of the one before */
      for(;;){
	p = eopen_pctl_outputpce(g.pctl, 0, &s);
	if(p == NULL || s != 0) break;
	if(p->seq_number != want){ close_pctl_outputpce(g.pctl); continue; }
	break;
      }
      if(p != NULL && s == 0){
	if(!p->f_complete) mc_fail("the daemon received %s incomplete", d->path);
	if((int)p->mf->size != total || memcmp((char *)p->mf->p + 24, d->b, d->n) != 0)
	  mc_fail("the daemon received something else");
	if(strncmp(p->fbasename, d->name, strlen(d->name)) != 0)
	  mc_fail("the daemon calls it %s, not %s", p->fbasename, d->name);
	++d->got;
	close_pctl_outputpce(g.pctl);
      }
      if(d->want == WT_OK && d->got != 1) mc_fail("the daemon did not take file %d", k);
    }
    oh = mc_hashi(oh, k*1000 + blk);
  }
  if(i != sent) mc_fail("frame %d does not belong to any file", i);
  if(code != (bad ? 1 : 0)) mc_fail("exit status %d, should be %d", code, bad);
  oh = mc_hashi(oh, code);
}
static char *av[40]; static int ac;
static void arg(const char *s){ av[ac++] = (char *)s; av[ac] = NULL; }
static void reset(void){
  int i;
  for(i = 0; i < sent; ++i) free(S[i].b);
  for(i = 0; i < nd; ++i) free(D[i].b);
  sent = nd = nerr = ac = radar = 0; sendfail = mallocfail = sndfail = nsnd = 0;
  daemon_rx = 1;
  snd_fd = -1; have_prod0 = 0; prod0 = 0; sbn0 = UINT32_MAX/4 - 2;
  vfd_reset();
  iox_points = iox_faults = 0; iox_nfaults = 0; iox_last = "";
  got_ttl = got_loop = -99;
  nenv_rmtree_contents("spool");
  arg("nbspmcast");
  /* the daemon takes no product before the first frame of a channel */
}
static char num[32];
static int go(int how){
  int i, c;
  static char list[4000];
  if(how == 0){
    for(i = 0; i < nd; ++i) arg(D[i].path);
  }else{
    list[0] = 0;
    for(i = 0; i < nd; ++i){
      if(how == 3) strcat(list, "\n");
      strcat(list, D[i].path);
      if(i < nd - 1 || how != 2) strcat(list, "\n");
    }
    tool_in = fmemopen(list, strlen(list) ? strlen(list) : 1, "r");
  }
  c = tool_run(mcst_main, av);
  if(how && tool_in != stdin){ fclose(tool_in); tool_in = NULL; }
  if(vfd_nopen() != 0) mc_fail("the socket is left open");
  if(nerr == 0) nerr = iox_nfaults;
  return(c);
}
static void setprod(unsigned v){
  snprintf(num, sizeof(num), "%u", v);
  prod0 = v;
  arg("-s"); arg(num);
}
/* every size around the limits of the frames */
static void size_main(void *a){
  int k = mc_choose(5, "frames"), o = mc_choose(90, "offset"), n;
  static char fs[32];
  (void)a;
  n = k*4000 - 24 + o - 45;
  if(n < 0) n = -n + 5000;
  setprod((unsigned[]){ 1, 77, 0xfffffffe, 0x7fffffff, 100000 }[k]);
  if(mc_choose(2, "-r")){ arg("-r"); radar = 1; }
  if(mc_choose(2, "-f")){
    sbn0 = (unsigned[]){ 0, 5, 0xffffffff, 0xfffffffe, 1 << 24 }[k];
    snprintf(fs, sizeof(fs), "%u", sbn0);
    arg("-f"); arg(fs);
  }
  adddoc(n, WT_OK);
  check(go(0));
  if(D[0].want == WT_OK && D[0].got != 1) mc_fail("not received");
  mc_outcome(oh);
}
/* every list of files, in every form */
static void list_main(void *a){
  static const int sz[] = { 60, 3975, 3976, 3977, 8000, 12500, -1 };
  int n = 1 + mc_choose(mc_tier ? 4 : 3, "files"), i, k;
  (void)a;
  setprod(500);
  for(i = 0; i < n; ++i){
    k = mc_choose(7, "size");
    adddoc(sz[k], sz[k] < 0 ? WT_FAIL : WT_OK);
  }
  check(go(mc_choose(4, "form")));
  mc_outcome(oh);
}
/* something fails, in one of three */
static void fault_main(void *a){
  static const int sz[] = { 60, 3976, 9000 };
  int i, c;
  (void)a;
  setprod(500);
  for(i = 0; i < 3; ++i) adddoc(sz[(i + mc_choose(i == 0 ? 3 : 1, "order")) % 3], WT_OK);
  if(mc_choose(2, "order")){
    D[0].n = -1; unlink(D[0].path); D[0].want = WT_FAIL;
  }
  sendfail = mallocfail = 1; iox_faults = 1;
  c = go(mc_choose(2, "form"));
  iox_faults = sendfail = mallocfail = 0;
  if(sent == 0 && nerr){
    if(c != 1) mc_fail("exit status %d when nothing could be sent", c);
    mc_outcome(1);
    return;
  }
  check(c);
  /* the others are sent all the same */
  if(nerr){
    int miss = 0;
    for(i = 0; i < nd; ++i) if(D[i].want == WT_OK && D[i].got != 1) ++miss;
    if(miss > nerr) mc_fail("%d failures, but %d files were not sent", nerr, miss);
  }
  mc_outcome(oh);
}
/* the options */
static void opt_main(void *a){
  const char *addr = "224.0.1.1", *port = "1201", *ifn = "-", *ifip = "-";
  int ttl = -1, loop = -1, c, conflict = 0, bad = 0;
  (void)a;
  setprod(9);
  if(mc_choose(2, "-r")){ arg("-r"); radar = 1; addr = "224.0.1.3"; port = "1203"; }
  if(mc_choose(2, "-a")){ arg("-a"); arg(addr = "239.1.2.3"); }
  if(mc_choose(2, "-p")){ arg("-p"); arg(port = "9999"); }
  c = mc_choose(4, "interface");
  if(c & 1){ arg("-i"); arg(ifn = "eth7"); }
  if(c & 2){ arg("-I"); arg(ifip = "10.1.2.3"); }
  conflict = c == 3;
  c = mc_choose(6, "-t");
  if(c){ arg("-t"); arg((char *[]){ "", "0", "1", "255", "x", "99999999999" }[c]);
    ttl = (int[]){ -1, 0, 1, 255, -1, -1 }[c]; bad = c >= 4; }
  if(mc_choose(2, "-m")){ arg("-m"); loop = 0; }
  c = mc_choose(5, "-u");
  if(c){ arg("-u"); arg((char *[]){ "", "-1", "0", "1000", "z" }[c]); bad |= c == 4; }
  sndfail = mc_choose(3, "network");
  adddoc(100, WT_OK);
  c = go(0);
  if(bad || conflict){
    if(c == 0 || sent || nsnd) mc_fail("bad options are accepted");
    mc_outcome(1);
    return;
  }
  if(nsnd != 1) mc_fail("the network is opened %d times", nsnd);
  if(strcmp(got_addr, addr) || strcmp(got_port, port) || strcmp(got_if, ifn) ||
     strcmp(got_ip, ifip)) mc_fail("sends to %s %s %s %s", got_addr, got_port, got_if, got_ip);
  if(got_ttl != ttl) mc_fail("ttl %d, should be %d", got_ttl, ttl);
  if(got_loop != loop) mc_fail("loop %d, should be %d", got_loop, loop);
  if(sndfail){
    if(c == 0 || sent) mc_fail("exit status %d without a network", c);
  }else check(c);
  mc_outcome(mc_hashi(oh, c));
}
/* around the largest that the numbers of the protocol can hold */
static void big_main(void *a){
  int n = 65535, k = mc_choose(5, "size"), fd, c;
  long sz = (long)n*4000 - 24 - 1 + k;
  char path[300];
  (void)a;
  if(k == 3) sz = 2147483647L - 24; 
  if(k == 4) sz = 2147483647L - 10;
  snprintf(path, sizeof(path), "%s/big", g.spooldir);
  fd = open(path, O_WRONLY|O_CREAT, 0644);
  if(fd < 0 || ftruncate(fd, sz) != 0) mc_die("ftruncate");
  close(fd);
  setprod(9);
  arg(path);
  big = 1; bigframes = 0;
  c = go(1 - 1);
  unlink(path);
  big = 0;
  if(c == 0 && bigframes != (int)((sz + 24)/4000) + 1)
    mc_fail("a file of %ld bytes: %d frames", sz, bigframes);
  if(c == 0 && bigframes > 65535)
    mc_fail("a file of %ld bytes is sent in frames without distinct numbers", sz);
  if(c != 0 && bigframes) mc_fail("part of a file that is too large is sent");
  if(c != 0 && k == 0) mc_fail("a file of %ld bytes is refused", sz);
  mc_outcome(mc_hashi(mc_hashi(oh, c), bigframes));
}
static struct { const char *n; void (*f)(void *); } parts[] = {
  { "size", size_main }, { "list", list_main }, { "fault", fault_main },
  { "opt", opt_main }, { "big", big_main },
};
static void body(void){
  unsigned i;
  reset();
  oh = MC_H0;
  vclock_reset();
  (void)take;
  for(i = 0; i < sizeof(parts)/sizeof(parts[0]); ++i)
    if(strcmp(mc_arg, parts[i].n) == 0){
      sched_run(parts[i].f, NULL);
      return;
    }
  mc_die("unknown part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 1, 0 };
  return(mc_main(argc, argv, &o, init, body));
}
