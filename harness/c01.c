/*
 * C01: product reassembly. Every sequence of frames (up to a depth) from an
 * alphabet of good, missing, repeated, foreign, aborted and damaged frames,
 * on one or two channels, against a reference model of the protocol.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <zlib.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "fr.h"
#include "globals.h"
#include "pctl.h"
#include "nbspre.h"
#include "framep.h"
#include "nbsp.h"
#include "nbs1.h"
#include "slavenbs/framep.h"
#include "stx.h"

#define NCH 4
#define MAXB 70000
static struct sbn_frame F;

struct chan {
  int active;
  unsigned seq;
  int nfrag, next;
  int size;
  int started;			/* products started so far */
  int fragsz;
  unsigned lastseq;
  unsigned orig;
  int lastnext;
  unsigned char *b;
};
struct exp {
  unsigned seq; int complete; int size; int ch; int next; int nfrag;
  unsigned orig;
  char name[64];
  unsigned char *b;
};
static struct chan C[NCH];
static struct exp E[64];
static int ne, ngot;
static unsigned sbnseq[NCH];
static int nch, depth, seqbase_sel;
static unsigned seqbase;

static int stm;		/* the statistics are checked (C25) */
static unsigned lastsbn[NCH];
static const char *wmoid = "SXUS";

static void init(void){
  struct pctldb_param_st par;
  int i;
  nenv_init();
  stm = strncmp(mc_arg, "st-", 3) == 0;
  if(stm) g.patt_accept = ".,!_rjus";
  if(init_nbsp_regex() != 0) mc_die("regex");
  memset(&par, 0, sizeof(par));
  par.reclen = const_pce_data_size();
  par.memfile_minsize = g.memfile_minsize;
  g.pctl = epctl_open(NCH, &par);
  if(g.pctl == NULL) mc_die("epctl_open");
  for(i = 0; i < NCH; ++i) C[i].b = malloc(MAXB);
  for(i = 0; i < 64; ++i) E[i].b = malloc(MAXB);
}

static void expect(int ch, int complete){
  struct exp *e = &E[ne++];
  if(ne >= 64) mc_die("too many");
  e->seq = C[ch].seq; e->complete = complete; e->size = C[ch].size;
  e->ch = ch; e->next = C[ch].next; e->nfrag = C[ch].nfrag;
  e->orig = C[ch].orig;
  memcpy(e->b, C[ch].b, C[ch].size);
}
static void close_ch(int ch){
  C[ch].active = 0;
  C[ch].lastseq = C[ch].seq;
  C[ch].lastnext = C[ch].next;
}
/* the data of a fragment: first fragment has a header */
static int fragdata(int ch, unsigned seq, int block, int size,
		    unsigned char *b){
  int n = 0, i;
  if(block == 0)
    n = sprintf((char *)b, "%s%02d KWBC 010203\r\r\nAB%c%03u\r\r\n",
		wmoid, ch + 10, 'A' + ch, seq % 1000);
  for(i = n; i < size; ++i) b[i] = (unsigned char)(seq*131 + ch*29 + block*7 +
						   i*(block + 3));
  return(size > n ? size : n);
}
static void feed(int ch, int type, unsigned seq, int block, int nfrag, int size,
		 int flag, unsigned orig, int damage){
  struct frspec s;
  static unsigned char d[6000];
  int n;
  memset(&s, 0, sizeof(s));
  n = fragdata(ch, seq, block, size, d);
  s.channel = ch; s.cmd = 3; s.seqno = ++sbnseq[ch];
  s.type = type; s.prod = seq; s.block = block; s.nfrag = nfrag;
  s.status_flag = flag; s.orig = orig;
  s.data = d; s.data_size = n;
  memset(&F, 0xEE, sizeof(F));
  fr_build(&F, &s);
  if(damage == 1) F.rawdata[9] ^= 0x10;		/* checksum */
  if(damage == 2) F.rawdata_size -= 1;		/* cut */
  if(damage == 3) F.rawdata_size = 16 + 8;	/* cut in the header */
  if(damage == 4) F.rawdata_size += 1;		/* trailing byte */
  ++X[X_RECV]; X[X_SIZE] += F.rawdata_size;
  if(damage) ++X[X_BADF];
  else{
    ++X[X_PROC];
    X[X_JUMP] += s.seqno > lastsbn[ch] + 1;
    lastsbn[ch] = s.seqno;
  }
  sbnframeproc(&F);
  mc_step();
}
static void append(int ch, int block){
  int n;
  n = fragdata(ch, C[ch].seq, block, C[ch].fragsz, C[ch].b + C[ch].size);
  C[ch].size += n;
  ++C[ch].next;
}

static void drain(void){
  struct pctl_element_st *p;
  int status, k;
  for(;;){
    p = eopen_pctl_outputpce(g.pctl, 0, &status);
    if(status == 1) break;
    if(status != 0 || p == NULL) mc_fail("cannot read the processor queue");
    if(ngot >= ne) mc_fail("unexpected product %u channel %d delivered",
			   p->seq_number, p->np_channel_index);
    k = ngot++;
    if(p->seq_number != E[k].seq || p->np_channel_index != E[k].ch)
      mc_fail("delivered product %u/ch%d, expected %u/ch%d", p->seq_number,
	      p->np_channel_index, E[k].seq, E[k].ch);
    if(!!p->f_complete != E[k].complete)
      mc_fail("product %u/ch%d delivered as %s: %d of %d fragments",
	      p->seq_number, p->np_channel_index,
	      p->f_complete ? "complete" : "incomplete", E[k].next,E[k].nfrag);
    if(p->orig_seq_number != E[k].orig)
      mc_fail("product %u: original sequence number %u, expected %u",
	      p->seq_number, p->orig_seq_number, E[k].orig);
    if(E[k].complete){
      if((int)p->mf->size != E[k].size ||
	 memcmp(p->mf->p, E[k].b, E[k].size) != 0){
	int i;
	for(i = 0; i < E[k].size && i < (int)p->mf->size; ++i)
	  if(((unsigned char *)p->mf->p)[i] != E[k].b[i]) break;
	mc_fail("product %u/ch%d delivered with wrong content: %d bytes, "
		"expected %d, first difference at %d", p->seq_number,
		p->np_channel_index, (int)p->mf->size, E[k].size, i);
      }
      {
	char name[64];
	snprintf(name, 64, "kwbc_sxus%02d-ab%c%03u.010203_%u", E[k].ch + 10,
		 'a' + E[k].ch, E[k].seq % 1000, E[k].seq);
	if(strcmp(p->fbasename, name) != 0)
	  mc_fail("product delivered as %s, expected %s", p->fbasename, name);
      }
    }
    close_pctl_outputpce(g.pctl);
    mc_step();
  }
  if(ngot != ne)
    mc_fail("product %u/ch%d (%s) was not delivered", E[ngot].seq, E[ngot].ch,
	    E[ngot].complete ? "complete" : "incomplete");
}

enum { S1, NEXT, S2, S3, GAP, DUP, OTHER, OTHEREND, ABORT, ERRFL, SYNC, BADSUM,
       CUT, EARLY, NOEND, S2R, LATE, TRAIL, STARTMID, NOPS, REJ, NOHDR, JUMP,
       REPORT };
static const char *opn[] = { "single", "next", "start2", "start3", "gap",
  "dup", "other", "otherend", "abort", "error", "sync", "badsum", "cut",
  "earlyend", "noend", "start2-rtx", "late", "trail", "startmid", "", "rejected",
  "noheader", "jump", "report" };
static int fsz;

static void sync_(int ch){
  struct frspec s;
  memset(&s, 0, sizeof(s));
  s.channel = ch; s.cmd = 5; s.seqno = ++sbnseq[ch];
  fr_build(&F, &s);
  ++X[X_RECV]; X[X_SIZE] += F.rawdata_size; ++X[X_PROC];
  X[X_JUMP] += s.seqno > lastsbn[ch] + 1;
  lastsbn[ch] = s.seqno;
  sbnframeproc(&F);
  mc_step();
}
static int doop(int ch, int op){
  struct chan *c = &C[ch];
  unsigned seq;
  switch(op){
  case REPORT: stx_report(); return(1);
  case JUMP: sbnseq[ch] += 3; return(1);
  case REJ: case NOHDR:
    if(c->active){ expect(ch, 0); ++X[X_MISS]; }
    ++X[X_TRANS];
    ++X[op == REJ ? X_REJ : X_MISS];
    wmoid = op == REJ ? "RJUS" : "\r\r\n#\r\n";
    seq = seqbase + c->started++;
    feed(ch, 3, seq, 0, 2, fsz, 0, 0, 0);
    wmoid = "SXUS";
    c->active = 0; c->lastseq = seq; c->lastnext = 1;
    return(1);
  case S1: case S2: case S3: case S2R:{
    int nf = (op == S1) ? 1 : (op == S3 ? 3 : 2);
    if(c->active){ expect(ch, 0); ++X[X_MISS]; }
    ++X[X_TRANS];
    if(op == S2R) ++X[X_RTX];
    if(op == S1) ++X[X_COMPL];
    seq = seqbase + c->started++;
    c->active = 1; c->seq = seq; c->nfrag = nf; c->next = 0; c->size = 0;
    c->orig = (op == S2R) ? 77 : 0;
    c->fragsz = fsz;
    append(ch, 0);
    /* without the flag the original number field means nothing */
    feed(ch, op == S1 ? 7 : 3, seq, 0, op == S1 ? 0 : nf, fsz,
	 op == S2R ? 16 : 0, op == S2R ? 77 : (op == S3 ? 55 : 0), 0);
    if(op == S1){ expect(ch, 1); close_ch(ch); }
    return(1);
  }
  case NEXT:
    if(!c->active || c->next >= c->nfrag) return(0);
    {
      int b = c->next, last = (b == c->nfrag - 1);
      append(ch, b);
      feed(ch, last ? 6 : 2, c->seq, b, 0, c->fragsz, 0, 0, 0);
      if(last){ expect(ch, 1); close_ch(ch); ++X[X_COMPL]; }
    }
    return(1);
  case NOEND:			/* the last fragment without the end flag */
    if(!c->active || c->next != c->nfrag - 1) return(0);
    append(ch, c->next);
    feed(ch, 2, c->seq, c->next - 1, 0, c->fragsz, 0, 0, 0);
    return(1);
  case GAP:
    if(!c->active || c->next + 1 >= c->nfrag) return(0);
    {
      int b = c->next + 1, last = (b == c->nfrag - 1);
      feed(ch, last ? 6 : 2, c->seq, b, 0, c->fragsz, 0, 0, 0);
      expect(ch, 0);
      ++X[X_MISS];
      close_ch(ch);
    }
    return(1);
  case DUP:			/* the fragment just received, again */
    if(!c->active || c->next < 2) return(0);
    feed(ch, 2, c->seq, c->next - 1, 0, c->fragsz, 0, 0, 0);
    expect(ch, 0);
    ++X[X_MISS];
    close_ch(ch);
    return(1);
  case OTHER:			/* continuation of an unknown product */
    feed(ch, 2, 900, c->active ? c->next : 1, 0, fsz, 0, 0, 0);
    return(1);
  case OTHEREND:
    if(c->active) return(0);
    feed(ch, 6, 901, 1, 0, fsz, 0, 0, 0);
    return(1);
  case LATE:			/* a fragment of the last closed product */
    if(c->active || c->started == 0) return(0);
    feed(ch, 6, c->lastseq, c->lastnext, 0, fsz, 0, 0, 0);
    return(1);
  case ABORT: case ERRFL:
    if(!c->active) return(0);
    feed(ch, op == ABORT ? 32|2 : 8|2, c->seq, c->next, 0, c->fragsz, 0, 0,0);
    ++X[X_ABORT];
    close_ch(ch);
    return(1);
  case SYNC: sync_(ch); return(1);
  case BADSUM: case CUT: case TRAIL:
    if(!c->active || c->next >= c->nfrag) return(0);
    feed(ch, c->next == c->nfrag - 1 ? 6 : 2, c->seq, c->next, 0, c->fragsz,
	 0, 0, op == BADSUM ? 1 : op == CUT ? 2 : 4);
    return(1);
  case EARLY:			/* end flag before the last fragment */
    if(!c->active || c->next + 1 >= c->nfrag) return(0);
    append(ch, c->next);
    feed(ch, 6, c->seq, c->next - 1, 0, c->fragsz, 0, 0, 0);
    expect(ch, 0);
    ++X[X_MISS];
    close_ch(ch);
    return(1);
  case STARTMID:		/* a start flag on a continuation is ignored */
    if(!c->active || c->next >= c->nfrag) return(0);
    feed(ch, 3, c->seq, c->next, 0, c->fragsz, 0, 0, 0);
    return(1);
  }
  return(0);
}

static void resetall(void){
  int i, st;
  for(i = 0; i < NCH; ++i){
    close_pctl_activepce(g.pctl, i);
    C[i].active = C[i].started = C[i].size = C[i].next = 0;
    C[i].nfrag = 0; C[i].lastseq = 0; C[i].lastnext = 0; C[i].orig = 0;
    sbnseq[i] = 100;
  }
  while(eopen_pctl_outputpce(g.pctl, 0, &st)) close_pctl_outputpce(g.pctl);
  ne = ngot = 0;
}
static uint64_t outc(void){
  uint64_t h = MC_H0; int i;
  for(i = 0; i < ne; ++i){
    h = mc_hashi(h, E[i].seq); h = mc_hashi(h, E[i].complete);
    h = mc_hashi(h, E[i].ch); h = mc_hashi(h, E[i].size);
  }
  return(h);
}

static void body(void){
  int d, op, ch;
  uint64_t h;
  const int *al; int nal, drain_each;
  static const int full[] = { S1, NEXT, S2, S3, GAP, DUP, OTHER, OTHEREND,
    ABORT, ERRFL, SYNC, BADSUM, CUT, EARLY, NOEND, S2R, LATE, TRAIL,
    STARTMID };
  static const int two[] = { S1, NEXT, S2, S3, GAP, OTHER, ABORT, CUT };
  static const int stone[] = { S1, NEXT, S2, S3, GAP, DUP, OTHER, OTHEREND,
    ABORT, ERRFL, SYNC, BADSUM, CUT, EARLY, NOEND, S2R, LATE, TRAIL,
    STARTMID, REJ, NOHDR, JUMP, REPORT };
  static const int sttwo[] = { S1, NEXT, S2, S2R, GAP, REJ, CUT, JUMP };
  static const int many[] = { S1, NEXT, S2, GAP, ABORT };

  resetall();
  fsz = 60;
  seqbase = 101;
  drain_each = 1;
  if(strcmp(mc_arg, "one") == 0){
    nch = 1; depth = mc_tier ? 6 : 5; al = full; nal = NOPS;
  }else if(strcmp(mc_arg, "two") == 0){
    nch = 2; depth = mc_tier ? 6 : 5; al = two; nal = 8;
    drain_each = 0;
  }else if(strcmp(mc_arg, "four") == 0){
    nch = 4; depth = mc_tier ? 6 : 5; al = many; nal = 5;
    drain_each = 0;
  }else if(strcmp(mc_arg, "seqs") == 0){
    /* sequence numbers at the ends of their range, 0 included */
    static const unsigned b[] = { 0xffffffffu, 0, 0x7fffffffu };
    nch = 1; depth = mc_tier ? 5 : 4; al = full; nal = NOPS;
    seqbase = b[mc_choose(3, "base")];
  }else if(strcmp(mc_arg, "orphan0") == 0){
    nch = 1; depth = mc_tier ? 6 : 5; al = two; nal = 0;
  }else if(strcmp(mc_arg, "st-one") == 0){
    nch = 1; depth = mc_tier ? 6 : 5; al = stone; nal = sizeof(stone)/sizeof(int);
  }else if(strcmp(mc_arg, "st-two") == 0){
    nch = 2; depth = mc_tier ? 6 : 5; al = sttwo; nal = sizeof(sttwo)/sizeof(int);
    drain_each = 0;
  }else
    mc_die("part %s", mc_arg);
  if(stm){
    for(ch = 0; ch < nch; ++ch) sync_(ch);
    stx_reset();
  }

  if(nal == 0){
    /*
     * As "one", with unknown continuation frames that carry each of a set of
     * sequence numbers and block numbers.
     */
    static const unsigned q[] = { 0, 1, 0xffffffffu };
    static const int a0[] = { S1, NEXT, S2, ABORT };
    for(d = 0; d < depth; ++d){
      op = mc_choose(4 + 3*3, "op");
      if(op < 4){ if(!doop(0, a0[op])) break; }
      else{
	op -= 4;
	feed(0, 2, q[op / 3], op % 3 == 2 ? 2 : op % 3, 0, fsz, 0, 0, 0);
      }
      drain();
      h = outc();
      h = mc_hashi(h, C[0].active*16 + C[0].next);
      mc_state(mc_hashi(h, C[0].nfrag));
    }
    mc_outcome(outc());
    return;
  }
  for(d = 0; d < depth; ++d){
    op = mc_choose(nal*nch, nch > 1 ? "chop" : "op");
    ch = op % nch;
    op = al[op / nch];
    mc_note("%s/ch%d ", opn[op], ch);
    if(!doop(ch, op)) break;	/* not applicable: a shorter sequence */
    if(drain_each) drain();
    h = outc();
    for(ch = 0; ch < nch; ++ch){
      h = mc_hashi(h, C[ch].active*1000 + C[ch].nfrag*100 + C[ch].next*10);
      h = mc_hashi(h, C[ch].started);
    }
    mc_state(h);
  }
  drain();
  if(stm){
    h = MC_H0;
    for(d = 0; d < X_N; ++d) h = mc_hashi(h, X[d]);
    mc_outcome(h);
    stx_report();
    stx_report();
    return;
  }
  mc_outcome(outc());
}
/* ---- the statistics of the blocks from a master ---- */
enum { V1, V2, VNEXT, VGAP, VOTHER, VREJ, VNAME, VEXISTS, VAPPEARS, VREPORT, VN };
static const char *vn[] = { "single", "start2", "next", "gap", "other", "rejected",
  "badname", "exists", "appears", "report" };
static void body_slave(void){
  static struct nbs1_packet_st nb;
  static const char *id[] = { "sxus", "sxus", "", "", "", "rjus", "sxus", "exus" };
  int d, ch, op, n = 2, i;
  struct { int active, next, nf; unsigned seq; char name[40]; } V[2];
  char path[600];
  uint64_t h = MC_H0;
  resetall();
  stx_reset();
  memset(V, 0, sizeof(V));
  snprintf(path, 600, "%s/kwbc", g.spooldir);
  mkdir(path, 0755);
  g.slave_reject_duplicates = mc_choose(2, "reject duplicates");
  for(d = 0; d < (mc_tier ? 5 : 4); ++d){
    int last = 0, bad = 0;
    op = mc_choose(2*VN, "op");
    ch = op % 2; op /= 2;
    mc_note("%s/%d ", vn[op], ch);
    if(op == VREPORT){ stx_report(); continue; }
    if(op == VAPPEARS){
      if(!V[ch].active) break;
      snprintf(path, 600, "%s/kwbc/%s", g.spooldir, V[ch].name);
      nenv_writefile(path, "x", 1);
      continue;
    }
    memset(&nb, 0, offsetof(struct nbs1_packet_st, fbasename));
    nb.slavenbs_reader_index = ch;
    nb.np_channel_index = ch;
    nb.block = nb.packet + 100;
    if(op == V1 || op == V2 || op == VREJ || op == VNAME || op == VEXISTS){
      unsigned seq = 300 + d;
      int in;
      if(V[ch].active) ++X[X_MISS];
      V[ch].active = 1; V[ch].next = 1; V[ch].nf = op == V1 || op == VEXISTS ? 1 : 2;
      V[ch].seq = seq;
      snprintf(V[ch].name, 40, op == VNAME ? "kwbc-sxus%02d%u" : "kwbc_%s%02d-abc.010203_%u",
	       op == VNAME ? "" : id[op], 10 + ch, seq);
      if(op == VNAME) snprintf(V[ch].name, 40, "kwbc-sxus%u", seq);
      snprintf(path, 600, "%s/kwbc/%s", g.spooldir, V[ch].name);
      if(op == VEXISTS) nenv_writefile(path, "x", 1);
      ++X[X_TRANS];
      in = op == V1 || op == V2;
      if(op == VREJ) ++X[X_REJ];
      if(op == VNAME) ++X[X_MISS];
      if(op == VEXISTS && !g.slave_reject_duplicates) in = 1;
      if(!in) V[ch].active = 0;
      nb.block_number = 1;
    }else if(op == VNEXT || op == VGAP){
      if(!V[ch].active) break;
      nb.block_number = ++V[ch].next;
      if(op == VGAP){ ++nb.block_number; bad = 1; ++X[X_MISS]; V[ch].active = 0; }
    }else nb.block_number = 2;
    nb.num_blocks = op == VOTHER ? 3 : V[ch].nf;
    nb.seq_number = op == VOTHER ? 99 : V[ch].seq;
    strcpy(nb.fbasename, V[ch].name);
    nb.block_size = 50 + d;
    nb.packet_size = 150 + d;
    ++X[X_RECV]; X[X_SIZE] += nb.packet_size;
    last = op != VOTHER && !bad && V[ch].active && V[ch].next == V[ch].nf;
    if(last){
      snprintf(path, 600, "%s/kwbc/%s", g.spooldir, V[ch].name);
      if(access(path, F_OK) != 0) ++X[X_COMPL];
      V[ch].active = 0;
    }
    slavenbsproc(&nb);
    mc_step();
    for(i = 0; i < X_N; ++i) h = mc_hashi(h, X[i]);
    mc_state(h);
  }
  mc_outcome(h);
  stx_report();
  stx_report();
  snprintf(path, 600, "%s/kwbc", g.spooldir);
  {
    DIR *dd = opendir(path);
    struct dirent *e;
    char f[1200];
    while((e = readdir(dd)) != NULL)
      if(e->d_name[0] != '.'){ snprintf(f, 1200, "%s/%s", path, e->d_name); unlink(f); }
    closedir(dd);
  }
  (void)n;
}

/* ---- sizes: fragment sizes x number of fragments x memory file state ---- */
static void body_sizes(void){
  static const int sz[] = { 30, 1000, 4096, 5000, 5100 };
  static const int szt[] = { 30, 31, 1000, 2047, 4096, 5000, 5099, 5100 };
  int k, np, nf, i;
  resetall();
  seqbase = 101;
  np = mc_tier ? 3 : 2;
  for(k = 0; k < np; ++k){
    fsz = mc_tier ? szt[mc_choose(8, "size")] : sz[mc_choose(5, "size")];
    nf = 1 + mc_choose(mc_tier ? 5 : 8, "nfrag");
    C[0].seq = seqbase + C[0].started++;
    C[0].active = 1; C[0].nfrag = nf; C[0].next = 0; C[0].size = 0;
    C[0].fragsz = fsz; C[0].orig = 0;
    for(i = 0; i < nf; ++i){
      int last = (i == nf - 1);
      append(0, i);
      feed(0, 2 | (i == 0) | (last ? 4 : 0), C[0].seq, i,
	   nf == 1 ? 0 : nf, fsz, 0, 0, 0);
    }
    expect(0, 1);
    close_ch(0);
    if(mc_choose(2, "drain")) drain();
    mc_state(outc());
  }
  drain();
  mc_outcome(outc());
}

/*
 * ---- forms: with and without the control header, ccb, compression ----
 */
static int zip(const void *p, int n, unsigned char *out, int max){
  uLongf l = max;
  if(compress2(out, &l, p, n, 9) != Z_OK) mc_die("compress2");
  return((int)l);
}
static void body_forms(void){
  int ccb = mc_choose(2, "ccb");
  int ctrl = mc_choose(2, "ctrl");	/* header sent apart */
  int comp = mc_choose(2, "comp");
  int nf = 1 + mc_choose(3, "nfrag");
  int awips = mc_choose(4, "awips");
  int i, status, n;
  char hdr[128]; int hn = 0;
  static unsigned char frag[6000], z[6000];
  static unsigned char want[40000];
  int wn = 0;
  struct pctl_element_st *p;
  char name[64];
  resetall();
  if(ccb){ memset(hdr, 0, 24); hdr[0] = '@'; hdr[1] = 1; hdr[2] = 3; hn = 24; }
  hn += sprintf(hdr + hn, "SDUS53 KDMX 112233%s\r\r\n", awips == 3?" PAD":"");
  if(awips == 1) hn += sprintf(hdr + hn, "N0RDMX\r\r\n");
  if(awips == 2) hn += sprintf(hdr + hn, "GRIBxy12\r\r\n");
  for(i = 0; i < nf; ++i){
    struct frspec s;
    int k, m;
    memset(&s, 0, sizeof(s));
    m = 0;
    if(i == 0 && !ctrl){ memcpy(frag, hdr, hn); m = hn; }
    for(k = m; k < m + 600; ++k) frag[k] = (k*k + i) & 0x3f;
    n = m + 600;
    s.channel = 1; s.cmd = 3; s.seqno = ++sbnseq[1];
    s.type = 2 | (i == 0) | (i == nf - 1 ? 4 : 0) | (comp ? 16 : 0);
    s.prod = 4242; s.block = i; s.nfrag = nf == 1 ? 0 : nf;
    if(i == 0 && ctrl){
      s.ctrl = hdr; s.ctrl_size = hn;
      memcpy(want + wn, hdr, hn); wn += hn;
    }
    if(comp){ s.data_size = zip(frag, n, z, sizeof(z)); s.data = z; }
    else{ s.data = frag; s.data_size = n; }
    memcpy(want + wn, s.data, s.data_size); wn += s.data_size;
    fr_build(&F, &s);
    sbnframeproc(&F);
    mc_step();
  }
  p = eopen_pctl_outputpce(g.pctl, 0, &status);
  if(p == NULL) mc_fail("the product was not delivered");
  if(!p->f_complete) mc_fail("delivered as incomplete");
  if((int)p->mf->size != wn || memcmp(p->mf->p, want, wn) != 0)
    mc_fail("delivered content differs from the frames' (%d, expected %d)",
	    (int)p->mf->size, wn);
  if(!!p->f_has_ccb != ccb)
    mc_fail("ccb header %s", ccb ? "missed" : "imagined");
  snprintf(name, 64, "kdmx_sdus53%s.112233_4242",
	   awips == 1 ? "-n0rdmx" : awips == 2 ? "+gribxy" :
	   awips == 3 ? "+pad" : "");
  /* a header without second line: what follows is data */
  if(awips == 0 && strncmp(p->fbasename, "kdmx_sdus53", 11) == 0)
    ;
  else if(strcmp(p->fbasename, name) != 0)
    mc_fail("product named %s, expected %s", p->fbasename, name);
  if(strncmp(p->fpath, g.spooldir, strlen(g.spooldir)) != 0 ||
     strcmp(p->fpath + strlen(g.spooldir) + strlen("/kdmx/"),
	    p->fbasename) != 0)
    mc_fail("path %s is not <spool>/<station>/<name>", p->fpath);
  mc_state(mc_hash(mc_hashs(MC_H0, p->fbasename), want, wn));
  mc_outcome(mc_hash(mc_hashs(MC_H0, p->fbasename), want, wn));
  close_pctl_outputpce(g.pctl);
}

/* ---- two readers and the report, as they may run ---- */
static struct frspec par_s[2];
static struct sbn_frame par_f[2];
static unsigned char par_d[2][200];
static void *par_reader(void *a){
  int ch = (int)(long)a;
  sbnframeproc(&par_f[ch]);
  return(NULL);
}
static void *par_report(void *a){ (void)a; nbspstats_update(); return(NULL); }
static void par_main(void *a){
  int i, k, t[3], kind = mc_choose(3, "kind");
  unsigned sum[X_N], v[X_N];
  char *q, b[2000];
  unsigned long long tm;
  (void)a;
  resetall();
  sync_(0); sync_(1);
  stx_reset();
  for(i = 0; i < 2; ++i){
    struct frspec *s = &par_s[i];
    memset(s, 0, sizeof(*s));
    s->channel = i; s->cmd = 3; s->seqno = sbnseq[i] + 1;
    s->type = 7; s->prod = 50 + i;
    s->data = par_d[i];
    if(kind == 1){ s->status_flag = 16; s->orig = 3; wmoid = "RJUS"; }
    if(kind == 2){ s->type = 32; s->seqno += 3; }
    s->data_size = fragdata(i, 50 + i, 0, 60, par_d[i]);
    fr_build(&par_f[i], s);
    wmoid = "SXUS";
    ++X[X_RECV]; X[X_SIZE] += par_f[i].rawdata_size; ++X[X_PROC];
    if(kind == 2){ ++X[X_JUMP]; ++X[X_ABORT]; }
    else{
      ++X[X_TRANS];
      if(kind == 1){ ++X[X_RTX]; ++X[X_REJ]; }
      else ++X[X_COMPL];
    }
  }
  sched_mem_ranges_clear();
  sched_mem_range(&g.nbspstats, sizeof(g.nbspstats));
  sched_mem_points = 1;
  sched_sync_points = 0;
  t[0] = sched_spawn(par_reader, (void *)0L, "reader0");
  t[1] = sched_spawn(par_reader, (void *)1L, "reader1");
  t[2] = sched_spawn(par_report, NULL, "report");
  for(i = 0; i < 3; ++i) sched_join(t[i]);
  sched_mem_points = 0;
  nbspstats_update();
  k = nenv_slurp(g.statusfile, b, sizeof(b) - 1);
  if(k <= 0) mc_fail("the statistics are not written");
  b[k] = 0;
  memset(sum, 0, sizeof(sum));
  for(k = 0, q = b; *q; q = strchr(q, '\n') + 1, ++k){
    if(sscanf(q, "%llu %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u", &tm,
	      &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7], &v[8], &v[9],
	      &v[10], &v[11], &v[12], &v[13], &v[14], &v[15]) != 17)
      mc_fail("the line of the statistics is %s", q);
    for(i = 0; i < X_N; ++i) sum[i] += v[i];
  }
  if(k != 2) mc_fail("%d reports", k);
  for(i = 0; i < X_N; ++i)
    if(sum[i] != X[i])
      mc_fail("%s: counted %u in all, there were %u", stx_name[i], sum[i], X[i]);
  k = 0;
  mc_state(mc_hashi(mc_hashs(MC_H0, b), kind));
  mc_outcome(mc_hashi(mc_hashs(MC_H0, b), kind));
}

static void top(void *a){
  (void)a;
  if(strcmp(mc_arg, "sizes") == 0) body_sizes();
  else if(strcmp(mc_arg, "forms") == 0) body_forms();
  else if(strcmp(mc_arg, "st-slave") == 0) body_slave();
  else body();
}
static void run(void){
  vclock_reset();
  if(strcmp(mc_arg, "st-par") == 0)sched_run(par_main, NULL);
  else top(NULL);
}

int main(int argc, char **argv){
  struct mc_opts o = { 0, 30, 0, 0 };
  nenv_log_format = 0;
  return(mc_main(argc, argv, &o, init, run));
}
