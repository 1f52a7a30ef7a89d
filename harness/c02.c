/*
 * C02, C03: what arbitrary frames can do, and how products are named.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <zlib.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "fr.h"
#include "globals.h"
#include "pctl.h"
#include "nbspre.h"
#include "framep.h"
#include "nbsp.h"

static struct sbn_frame *F;
static struct sbn_frame *G;	/* what is built, before variation */

static void init(void){
  struct pctldb_param_st par;
  nenv_init();
  nenv_log_format = 1;
  if(init_nbsp_regex() != 0) mc_die("regex");
  memset(&par, 0, sizeof(par));
  par.reclen = const_pce_data_size();
  par.memfile_minsize = g.memfile_minsize;
  g.pctl = epctl_open(4, &par);
  if(g.pctl == NULL) mc_die("epctl_open");
  F = malloc(sizeof(*F));
  G = malloc(sizeof(*G));
}

/* ---- what was delivered ---- */
struct deliv {
  unsigned seq, orig; int complete, size, ch, ccb;
  char name[64], path[512];
  char fname[64];
  unsigned char *b;
};
static struct deliv D[16];
static int nd;
static void drain(void){
  struct pctl_element_st *p;
  int st;
  for(;;){
    p = eopen_pctl_outputpce(g.pctl, 0, &st);
    if(p == NULL){
      if(st != 1) mc_fail("the processor queue cannot be read (%d)", st);
      break;
    }
    if(nd >= 16) mc_fail("products appear out of nothing");
    {
      struct deliv *d = &D[nd++];
      free(d->b);
      d->seq = p->seq_number; d->orig = p->orig_seq_number;
      d->complete = p->f_complete; d->size = p->mf->size;
      d->ch = p->np_channel_index;
      d->ccb = p->f_has_ccb;
      if(strlen(p->fbasename) >= 64 || strlen(p->fpath) >= 512)
	mc_fail("the name of the product is too long");
      strcpy(d->name, p->fbasename); strcpy(d->path, p->fpath);
      strcpy(d->fname, p->fname);
      d->b = malloc(d->size + 1);
      memcpy(d->b, p->mf->p, d->size);
    }
    close_pctl_outputpce(g.pctl);
  }
}
static void resetall(void){
  int i, st;
  for(i = 0; i < 4; ++i) close_pctl_activepce(g.pctl, i);
  while(eopen_pctl_outputpce(g.pctl, 0, &st)) close_pctl_outputpce(g.pctl);
  nd = 0;
}
static uint64_t dhash(int from){
  uint64_t h = MC_H0; int i;
  for(i = from; i < nd; ++i){
    h = mc_hashi(h, D[i].seq); h = mc_hashi(h, D[i].complete);
    h = mc_hashi(h, D[i].size); h = mc_hashi(h, D[i].ch);
    h = mc_hashi(h, D[i].orig); h = mc_hashi(h, D[i].ccb);
    if(D[i].complete){
      h = mc_hashs(h, D[i].name); h = mc_hashs(h, D[i].path);
      h = mc_hash(h, D[i].b, D[i].size);
    }
  }
  return(h);
}
static unsigned sbnseq;
/* frame in G goes through, in a buffer with previous contents `var' */
static void put(const struct sbn_frame *b, int var){
  switch(var){
  case 0: memset(F, 0, sizeof(*F)); break;
  case 1: memset(F, 'A', sizeof(*F)); break;
  case 2:
    memset(F, 0x20, sizeof(*F));
    {
      int i; static const char pat[] = "XUS01 KWBC 010203 BBB\r\r\nABCDEF\r\r\n";
      for(i = 0; i < (int)sizeof(F->rawdata); ++i)
	F->rawdata[i] = pat[(i + 5200 - b->rawdata_size) % (sizeof(pat) - 1)];
    }
    break;
  }
  memcpy(F->rawdata, b->rawdata, b->rawdata_size);
  F->rawdata_size = b->rawdata_size;
  F->np_channel_index = b->np_channel_index;
  sbnframeproc(F);
  mc_step();
}
static void good(struct sbn_frame *f, int ch, unsigned prod, int block, int n){
  struct frspec s;
  static unsigned char d[2000];
  int k = 0, i;
  memset(&s, 0, sizeof(s));
  if(block == 0) k = sprintf((char *)d, "SXUS%02d KWBC 010203\r\r\nABC%03u\r\r\n",
			     ch + 10, prod % 1000);
  for(i = k; i < 200; ++i) d[i] = (unsigned char)(prod*7 + block*3 + i);
  s.channel = ch; s.cmd = 3; s.seqno = ++sbnseq;
  s.type = 2 | (block == 0) | (block == n - 1 ? 4 : 0);
  s.prod = prod; s.block = block; s.nfrag = n == 1 ? 0 : n;
  s.data = d; s.data_size = 200;
  fr_build(f, &s);
}
static void expect_good(int k, int ch, unsigned prod, int n){
  char nm[64];
  int b;
  if(k >= nd) mc_fail("a good product (%u) is not delivered", prod);
  if(D[k].seq != prod || D[k].ch != ch || !D[k].complete)
    mc_fail("instead of the good product %u: product %u (%s)", prod, D[k].seq,
	    D[k].complete ? "complete" : "incomplete");
  snprintf(nm, 64, "kwbc_sxus%02d-abc%03u.010203_%u", ch + 10, prod % 1000,
	   prod);
  if(strcmp(nm, D[k].name) != 0)
    mc_fail("good product named %s, expected %s", D[k].name, nm);
  if(D[k].size != 200*n) mc_fail("good product with %d bytes", D[k].size);
  for(b = 0; b < n; ++b){
    static struct sbn_frame t;
    good(&t, ch, prod, b, n);
    if(memcmp(t.rawdata + t.rawdata_size - 200, D[k].b + 200*b, 200) != 0)
      mc_fail("good product with wrong content");
  }
}
static int namechar(const char *s){
  for(; *s; ++s)
    if(!islower((unsigned char)*s) && !isdigit((unsigned char)*s)) return(0);
  return(1);
}
/* a product name: the parts, their characters, and the path */
static void check_name(struct deliv *d){
  char b[64], *p, *dot, *us, want[600];
  int n;
  strcpy(b, d->name);
  dot = strchr(b, '.');
  if(dot == NULL || strchr(dot + 1, '.')) mc_fail("bad name %s", d->name);
  *dot++ = '\0';
  us = strchr(dot, '_');
  if(us == NULL) mc_fail("bad name %s", d->name);
  *us++ = '\0';
  if(strlen(dot) != 6 || strspn(dot, "0123456789") != 6)
    mc_fail("the name %s has no time", d->name);
  snprintf(want, sizeof(want), "%u", d->seq);
  if(strcmp(us, want) != 0)
    mc_fail("the name %s has not the product number %u", d->name, d->seq);
  /* cccc_iiiiii[-+]x */
  n = strlen(b);
  if(n < 11 || b[4] != '_') mc_fail("bad name %s", d->name);
  b[4] = '\0';
  if(!namechar(b) || strpbrk(b, "0123456789"))
    mc_fail("bad station in the name %s", d->name);
  p = b + 5;
  if(n > 11){
    if((p[6] != '-' && p[6] != '+') || p[7] == '\0' || strlen(p + 7) > 6 ||
       !namechar(p + 7))
      mc_fail("bad name %s", d->name);
    p[6] = '\0';
  }
  if(strlen(p) != 6 || !namechar(p)) mc_fail("bad name %s", d->name);
  snprintf(want, sizeof(want), "%s/%s/%s", g.spooldir, b, d->name);
  if(strcmp(want, d->path) != 0)
    mc_fail("the path is %s, expected %s", d->path, want);
}

/*
 * The frame(s) in fr[0..n), preceded by a good start on channel 1, followed
 * by good products, with the three previous contents of the buffer.
 */
static void trial(struct sbn_frame *fr, int n, int midch){
  int var, i, bad;
  uint64_t h0 = 0, h;
  for(var = 0; var < 3; ++var){
    resetall();
    sbnseq = 500;
    good(G, 1, 71, 0, 3); put(G, var);
    if(midch >= 0){ good(G, midch, 72, 0, 3); put(G, var); }
    for(i = 0; i < n; ++i){ sbnseq = 500; put(&fr[i], var); }
    /* whatever it did on its channel ends with the next start there */
    drain();
    bad = nd;
    for(i = 0; i < bad; ++i) if(D[i].complete) check_name(&D[i]);
    good(G, 1, 71, 1, 3); put(G, var);
    good(G, 1, 71, 2, 3); put(G, var);
    good(G, 0, 81, 0, 1); put(G, var);
    good(G, 0, 82, 0, 2); put(G, var);
    good(G, 0, 82, 1, 2); put(G, var);
    drain();
    h = dhash(0);
    /* the incomplete record of what was left unfinished may come between */
    i = bad;
    if(i < nd && D[i].ch == 1 && D[i].seq == 71) expect_good(i++, 1, 71, 3);
    else mc_fail("a frame on one channel spoils the product of another");
    if(i < nd && D[i].ch == 0 && !D[i].complete) ++i;
    expect_good(i++, 0, 81, 1);
    expect_good(i++, 0, 82, 2);
    if(i != nd) mc_fail("unexpected product %u", D[i].seq);
    if(var == 0) h0 = h;
    else if(h != h0){
      mc_fail("the outcome depends on what was in the buffer before the "
	      "frame: first delivery %s seq %u complete %d size %d",
	      nd ? D[0].name : "", nd ? D[0].seq : 0, nd ? D[0].complete : 0,
	      nd ? D[0].size : 0);
    }
  }
  mc_state(h0);
  mc_outcome(h0);
}

static struct sbn_frame FR[2];
static const char HD[] = "SXUS53 KDMX 112233\r\r\nN0RDMX\r\r\n";
static int zip(const void *p, int n, unsigned char *out, int max){
  uLongf l = max;
  if(compress2(out, &l, p, n, 9) != Z_OK) mc_die("compress2");
  return((int)l);
}
/* a valid first (or only) frame: kind selects the form */
static void base(struct sbn_frame *f, int kind, int nfrag){
  struct frspec s;
  static unsigned char d[6000], z[6000];
  char hdr[100];
  int n = 0, i, hn = 0;
  memset(&s, 0, sizeof(s));
  s.channel = 0; s.cmd = 3; s.seqno = 501; s.prod = 99;
  s.type = 1 | 2 | (nfrag <= 1 ? 4 : 0);
  s.block = 0; s.nfrag = nfrag == 1 ? 0 : nfrag;
  if(kind & 1){ memset(hdr, 1, 24); hdr[0] = '@'; hn = 24; }
  memcpy(hdr + hn, HD, sizeof(HD) - 1); hn += sizeof(HD) - 1;
  if(!(kind & 2)){ memcpy(d, hdr, hn); n = hn; }
  else{ s.ctrl = hdr; s.ctrl_size = hn; }
  for(i = 0; i < 60; ++i) d[n++] = (unsigned char)(i*5);
  s.data = d; s.data_size = n;
  if(kind & 4){ s.type |= 16; s.data_size = zip(d, n, z, sizeof(z)); s.data=z; }
  fr_build(f, &s);
}
static void cont(struct sbn_frame *f, int comp){
  struct frspec s;
  static unsigned char d[200];
  int i;
  memset(&s, 0, sizeof(s));
  for(i = 0; i < 100; ++i) d[i] = i;
  s.channel = 0; s.cmd = 3; s.seqno = 502; s.prod = 99;
  s.type = 2 | 4 | (comp ? 16 : 0); s.block = 1; s.data = d; s.data_size = 100;
  fr_build(f, &s);
}

static void body(void){
  if(!strcmp(mc_arg, "bytes")){
    /* one byte of a first, middle or last frame, any value */
    int k = mc_choose(10, "kind"), pos, v;
    int fix = 1;
    if(k < 8) base(&FR[0], k, k & 1 ? 2 : 1);
    else cont(&FR[0], k & 1);
    pos = mc_choose(FR[0].rawdata_size > 128 ? 128 : FR[0].rawdata_size,
		    "pos");
    if(mc_tier) v = mc_choose(256, "value");
    else{
      /* each bit, the neighbours and the values that mean something */
      static const unsigned char val[] = { 0, 1, 2, 3, 4, 7, 8, 9, 10, 13,
	16, 17, 31, 32, 47, 48, 63, 64, 127, 128, 192, 254, 255 };
      v = mc_choose(23 + 8 + 2, "value");
      if(v < 23) v = val[v];
      else if(v < 31) v = (FR[0].rawdata[pos] ^ (1 << (v - 23))) & 0xff;
      else v = (FR[0].rawdata[pos] + (v == 31 ? 1 : -1)) & 0xff;
    }
    FR[0].rawdata[pos] = v;
    if(pos < 14 && fix) fr_cksum((unsigned char *)FR[0].rawdata);
    cont(&FR[1], 0);
    trial(FR, 2, k >= 8 ? 0 : -1);
  }else if(!strcmp(mc_arg, "trunc")){
    /* every size of the frame, and the data size field in step or not */
    int k = mc_choose(10, "kind"), n, step, hl;
    if(k < 8) base(&FR[0], k, k & 1 ? 2 : 1);
    else cont(&FR[0], k & 1);
    n = mc_choose(FR[0].rawdata_size + 40, "size");
    step = mc_choose(2, "step");
    hl = k < 8 ? 68 : 32;
    FR[0].rawdata_size = n;
    if(step && n >= hl) put2((unsigned char *)FR[0].rawdata + 24, n - hl);
    cont(&FR[1], 0);
    trial(FR, 2, -1);
  }else if(!strcmp(mc_arg, "fields")){
    /* the fields of the product headers, together */
    static const int off[] = { 0, 1, 20, 21, 22, 23, 24, 25, 30, 44, 45, 54,
      58, 59, 63, 64, 100, 5000, 5132, 5133, 65535 };
    static const int siz[] = { 0, 1, 2, 20, 21, 23, 24, 25, 45, 54, 58, 59, 60,
      63, 64, 100, 5132 };
    static const int ty[] = { 7, 3, 1, 23, 19, 6, 4, 2, 0, 39, 15, 71 };
    int o = off[mc_choose(21, "offset")], z = siz[mc_choose(17, "size")];
    int t = ty[mc_choose(12, "type")], b = mc_choose(3, "block");
    int c = mc_choose(5, "content"), i;
    unsigned char *p = (unsigned char *)FR[0].rawdata;
    struct frspec s;
    static unsigned char d[5200];
    memset(&s, 0, sizeof(s));
    memset(d, 'Q', sizeof(d));
    switch(c){
    case 0: memcpy(d, HD, sizeof(HD) - 1); break;
    case 1: memset(d, 1, 24); d[0] = '@'; memcpy(d + 24, HD, sizeof(HD)-1);
      break;
    case 2: for(i = 0; i < 5200; ++i) d[i] = i; break;
    case 3: memset(d, 0, sizeof(d)); break;
    case 4: zip(HD, sizeof(HD) - 1, d, 5000); break;
    }
    s.channel = 0; s.cmd = 3; s.seqno = 501; s.prod = 99; s.type = t;
    s.block = b; s.nfrag = 2; s.data = d;
    s.data_size = z;
    fr_build(&FR[0], &s);
    put2(p + 22, o);
    cont(&FR[1], 0);
    trial(FR, 2, b ? 0 : -1);
  }else if(!strcmp(mc_arg, "frags")){
    /* the number of fragments announced, and numbers out of place */
    static const int nf[] = { 0, 1, 2, 3, 255, 256, 32767, 32768, 65535 };
    static const int bl[] = { 0, 1, 2, 255, 32768, 65535 };
    int n = nf[mc_choose(9, "nfrag")], b1 = bl[mc_choose(6, "block")];
    int t = mc_choose(n < 32767 || mc_tier ? 64 : 8, "type");
    int k = mc_choose(n < 32767 || mc_tier ? 4 : 1, "kind")*2;
    base(&FR[0], k, 2);
    put2((unsigned char *)FR[0].rawdata + 32 + 14, n);
    cont(&FR[1], 0);
    FR[1].rawdata[17] = t;
    put2((unsigned char *)FR[1].rawdata + 20, b1);
    if(b1 == 0) base(&FR[1], k, 1), FR[1].rawdata[17] = t;
    trial(FR, 2, -1);
  }else if(!strcmp(mc_arg, "zip")){
    /* compressed frames: valid, cut, corrupt, or expanding beyond a frame */
    int k = mc_choose(4, "zkind"), ctrl = mc_choose(2, "ctrl"), i, n, v;
    static unsigned char d[70000], z[6000];
    struct frspec s;
    memset(&s, 0, sizeof(s));
    memset(d, 'x', sizeof(d));
    memcpy(d, HD, sizeof(HD) - 1);
    s.channel = 0; s.cmd = 3; s.seqno = 501; s.prod = 99;
    s.type = 7 | 16;
    n = 200;
    if(k == 1){
      static const int ns[] = { 5119, 5120, 5121, 5199, 5200, 5201, 5202, 6000,
	20000, 65535, 65536, 70000 };
      n = ns[mc_choose(12, "expands to")];
    }
    s.data_size = zip(d, n, z, sizeof(z)); s.data = z;
    if(k == 2) s.data_size = mc_choose(s.data_size + 1, "cut");
    if(k == 3){
      i = mc_choose(s.data_size, "pos");
      v = 1 + mc_choose(255, "xor");
      z[i] ^= v;
    }
    if(ctrl){ s.ctrl = HD; s.ctrl_size = sizeof(HD) - 1; }
    fr_build(&FR[0], &s);
    trial(FR, 1, -1);
  }else if(!strcmp(mc_arg, "pairs")){
    /* two bytes of the headers at once */
    static const int val[] = { 0, 1, 0x10, 0x7f, 0x80, 0xff };
    int k = mc_choose(4, "kind")*2, p1, p2, v1, v2;
    base(&FR[0], k, 2);
    p1 = 4 + mc_choose(46, "pos1"); p2 = p1 + 1 + mc_choose(51 - p1 > 0 ?
							51 - p1 : 1, "pos2");
    v1 = val[mc_choose(mc_tier ? 6 : 3, "v1")*(mc_tier ? 1 : 2)];
    v2 = val[mc_choose(mc_tier ? 6 : 3, "v2")*(mc_tier ? 1 : 2) + !mc_tier];
    FR[0].rawdata[p1] = v1; FR[0].rawdata[p2] = v2;
    fr_cksum((unsigned char *)FR[0].rawdata);
    cont(&FR[1], 0);
    trial(FR, 2, -1);
  }else
    mc_die("part %s", mc_arg);
}

/* ------------------------------------------------------------ names (C03) */
static void send_header(const char *h, int n, int form, unsigned seq){
  struct frspec s;
  static unsigned char d[600];
  static char c[600];
  int k = 0;
  memset(&s, 0, sizeof(s));
  s.channel = 0; s.cmd = 3; s.seqno = ++sbnseq; s.prod = seq; s.type = 7;
  if(form & 1){ memset(c, 1, 24); c[0] = '@'; k = 24; }
  memcpy(c + k, h, n); k += n;
  if(form & 2){		/* header apart: the data is something else */
    s.ctrl = c; s.ctrl_size = k;
    memset(d, 'D', 40); s.data = d; s.data_size = 40;
  }else{
    s.data = c; s.data_size = k;
  }
  fr_build(G, &s);
}
/* a case-insensitive search */
static const char *ifind(const char *h, const char *end, const char *w, int n){
  for(; h + n <= end; ++h)
    if(strncasecmp(h, w, n) == 0) return(h + n);
  return(NULL);
}
/* the parts of the name come from the header, in order */
static void check_from(struct deliv *d, const char *h, int n){
  const char *end = h + n, *nl, *p, *le;
  char *dot = strchr(d->name, '.');
  nl = memchr(h, '\n', n);
  le = nl ? nl : end;
  p = ifind(h, le, d->name + 5, 6);
  if(p) p = ifind(p, le, d->name, 4);
  if(p) p = ifind(p, le, dot + 1, 6);
  if(p == NULL) mc_fail("the name %s is not from the header", d->name);
  if(d->name + 11 < dot){
    int m = dot - d->name - 12;
    if(ifind(p, le, d->name + 12, m) == NULL &&
       (nl == NULL || end - (nl + 1) < m ||
	strncasecmp(nl + 1, d->name + 12, m) != 0))
      mc_fail("the last part of the name %s is not from the header",d->name);
  }
}
static void try_header(const char *h, int n, int form, const char *want){
  int var;
  uint64_t h0 = 0, hh;
  unsigned seq = 4242;
  for(var = 0; var < 3; ++var){
    resetall();
    sbnseq = 7;
    send_header(h, n, form, seq);
    put(G, var);
    drain();
    hh = dhash(0);
    if(nd > 1) mc_fail("one frame gives %d products", nd);
    if(want != NULL){
      if(nd == 0) mc_fail("a product with a good header is not accepted");
      if(strcmp(D[0].name, want) != 0)
	mc_fail("product named %s, expected %s", D[0].name, want);
    }
    if(nd == 1){
      if(!D[0].complete) mc_fail("incomplete");
      check_name(&D[0]);
      check_from(&D[0], h, n);
    }
    if(var == 0) h0 = hh;
    else if(hh != h0)
      mc_fail("the name depends on what is beyond the data: %s",
	      nd ? D[0].name : "none");
  }
  mc_state(h0); mc_outcome(h0);
}
static void lower(char *s){ for(; *s; ++s) *s = tolower((unsigned char)*s); }

static void body_names(void){
  if(!strcmp(mc_arg, "forms")){
    /* well formed headers: the name is known */
    static const char *id[] = { "SXUS53", "TIRP13", "abcd12", "ABCDEF",
      "A23456", "Z0A1B2" };
    static const char *st[] = { "KDMX", "kdmx", "ZZZZ", "PaJk" };
    static const char *tm[] = { "112233", "000000", "999999" };
    static const char *bb[] = { "", "P", "PAD", "RRA", "COR001", "A1B2C3" };
    static const char *nd1[] = { "SDUS53 ", "KDMX12", "" };
    static const struct { const char *t; char sep; const char *u; } l2[] = {
      { "N0RDMX\r\r\n", '-', "n0rdmx" }, { "TAF   \r\r\n", '-', "taf" },
      { "A     \r\r\n", '-', "a" }, { "AFDLWX\r\r\nMORE TEXT\n", '-',
      "afdlwx" }, { "GRIBabcdefgh", '+', "gribab" }, { "GRIB\002zz", '+',
      "grib" }, { "METAR KDMX 112233Z", '+', "metar" }, { "BUFR", '+', "bufr"},
      { "X\r\r\n", '+', "x" }, { "", 0, "" }, { "\r\r\n", 0, "" },
      { "\001\002\003", 0, "" }, { "1234567", 0, "" }, { "A B\r\r\n",'+',"a"},
      { "LABCO X\r\n", '-', "labco" }, { "ABCDEF\n", '+', "abcdef" },
      { "ABCDE\r\r\n", '+', "abcde" }, { "ABCDEFG\r\n", '-', "abcdef" },
      { "A/BCDE\r\r\n", '-', "a" }, { "A.BCDE\r\r\n", '-', "a" },
      { "A/..DE ", '+', "a" } };
    int f = mc_choose(4, "form"), a = mc_choose(6, "id");
    int b = mc_choose(4, "station"), c = mc_choose(3, "time");
    int d = mc_choose(6, "bbb"), e = mc_choose(21, "second line");
    int crlf = mc_choose(2, "eol");
    char h[200], w[100];
    int n;
    (void)nd1;
    n = sprintf(h, "%s %s %s%s%s%s", id[a], st[b], tm[c], d ? " " : "",
		bb[d], crlf ? "\r\r\n" : "\n");
    n += sprintf(h + n, "%s", l2[e].t);
    sprintf(w, "%s_%s%c%s", st[b], id[a], l2[e].sep ? l2[e].sep :
	    (bb[d][0] ? '+' : '\0'), l2[e].sep ? l2[e].u : bb[d]);
    if(!l2[e].sep && !bb[d][0]) w[11] = '\0';
    sprintf(w + strlen(w), ".%s_4242", tm[c]);
    lower(w);
    /* headers sent apart need at least the size of a full first line */
    if((f & 2) && n < 21){ mc_state(0); return; }
    try_header(h, n, f, w);
  }else if(!strcmp(mc_arg, "edit1")){
    /* one or two edits of a good header, with any byte */
    int f = mc_choose(4, "form"), k = mc_choose(3, "base"), pos, v, op, n;
    static const char *b[] = { "SXUS53 KDMX 112233\r\r\nN0RDMX\r\r\n",
      "TIRP13 KNES 171740 PAD\r\r\n", "SXUS53 KDMX 112233\r\r\nGRIB\001\002" };
    char h[100];
    n = strlen(b[k]);
    memcpy(h, b[k], n + 1);
    op = mc_choose(3, "edit");
    pos = mc_choose(n, "pos");
    v = 0;
    if(op < 2) v = mc_choose(256, "byte");
    if(op == 0) h[pos] = v;
    if(op == 1){ memmove(h + pos + 1, h + pos, n - pos); h[pos] = v; ++n; }
    if(op == 2){ memmove(h + pos, h + pos + 1, n - pos); --n; }
    try_header(h, n, f, NULL);
  }else if(!strcmp(mc_arg, "edit2")){
    static const unsigned char al[] = { 'A', '9', ' ', '\n', '\r', 0, '/', '.',
      '-', '_', 0xff, '\t', '%' };
    static const char *b[] = { "SXUS53 KDMX 112233\r\r\nN0RDMX\r\r\n",
      "TIRP13 KNES 171740 PAD\r\r\n" };
    int na = mc_tier ? 13 : 8;
    int k = mc_choose(2, "base"), n, p1, p2, f;
    char h[100];
    n = strlen(b[k]);
    memcpy(h, b[k], n + 1);
    f = mc_choose(2, "form")*2;
    p1 = mc_choose(n, "pos1");
    if(p1 + 1 >= n) return;
    p2 = p1 + 1 + mc_choose(n - p1 - 1, "pos2");
    h[p1] = al[mc_choose(na, "byte1")];
    h[p2] = al[mc_choose(na, "byte2")];
    try_header(h, n, f, NULL);
  }else if(!strcmp(mc_arg, "cut")){
    /* every length of every form, header and then nothing */
    static const char *b[] = { "SXUS53 KDMX 112233\r\r\nN0RDMX\r\r\n",
      "TIRP13 KNES 171740 PAD\r\r\nMORE\n", "SXUS53 KDMX 112233 A\nGRIB",
      "  SXUS53 KDMX 112233", "A B C D E F", "SXUS53\tKDMX\t112233\n",
      "SXUS53  KDMX 112233\n", "SXUS5 KDMX 112233\r\r\nABCDEF\r\r\n",
      "SXUS533 KDM 112233\r\r\nABCDEF\r\r\n" };
    int f = mc_choose(4, "form"), k = mc_choose(9, "base");
    int n = mc_choose(strlen(b[k]) + 1, "length");
    try_header(b[k], n, f, NULL);
  }else if(!strcmp(mc_arg, "seq")){
    static const unsigned sq[] = { 0, 1, 9, 10, 4294967295u, 2147483648u,
      2147483647u, 1000000000u };
    int i = mc_choose(8, "seq"), f = mc_choose(4, "form");
    char w[64];
    static const char h[] = "SXUS53 KDMX 112233\r\r\nN0RDMX\r\r\n";
    resetall();
    send_header(h, sizeof(h) - 1, f, sq[i]);
    put(G, 0);
    drain();
    snprintf(w, 64, "kdmx_sxus53-n0rdmx.112233_%u", sq[i]);
    if(nd != 1 || strcmp(D[0].name, w) != 0)
      mc_fail("product named %s, expected %s", nd ? D[0].name : "", w);
    check_name(&D[0]);
    mc_state(dhash(0)); mc_outcome(dhash(0));
  }else
    body();
}
static void run(void){ vclock_reset(); body_names(); }
int main(int argc, char **argv){
  struct mc_opts o = { 0, 30, 0, 0 };
  return(mc_main(argc, argv, &o, init, run));
}
