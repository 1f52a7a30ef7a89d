/*
 * C21: nbspz and nbspunz. The real programs on all files of a family of
 * frames, against a reference decoder made of zlib's own functions.
 */
#include "flt.h"
TOOL_DECL(nbspz); TOOL_DECL(nbspunz);
static struct tool_prog T[] = { TOOL_PROG(nbspz), TOOL_PROG(nbspunz) };
static int nomem, nfails;
static int flt(const char *w){
  if(!nomem || !tool_running()) return(0);
  if(!mc_dev(2, w)) return(0);
  ++nfails;
  mc_note("<%s fails> ", w);
  return(1);
}
void *__real_malloc(size_t), *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n){ if(flt("malloc")){ errno = ENOMEM; return(NULL); } return(__real_malloc(n)); }
void *__wrap_realloc(void *p, size_t n){ if(flt("realloc")){ errno = ENOMEM; return(NULL); } return(__real_realloc(p, n)); }
static int ioh(const char *op, const char *path){
  (void)path;
  if(strcmp(op, "close") == 0) return(0);
  return(flt(op));
}
static void init(void){
  nenv_init();
  flt_init();
  tool_reg(T, 2);
}
static void content(unsigned char *b, int n, int k){
  int i;
  /* of each kind: repeated, and not compressible */
  unsigned x = 12345 + k;
  for(i = 0; i < n; ++i){
    x = x*1103515245u + 12345u;
    b[i] = (k & 1) ? (unsigned char)(x >> 16) : (unsigned char)("ABC 123\r\n"[i % 9]);
  }
}
static unsigned char tmp_[300000];
/* a frame; returns what is in it */
static int frame(int n, int k, int level){
  uLongf l = BIG - nin;
  content(tmp_, n, k);
  if(compress2(in_ + nin, &l, tmp_, n, level) != Z_OK) mc_die("compress2");
  nin += (int)l;
  return(n);
}
/* the reference: -1 if it cannot be decoded, else the bytes in want_;
   *cut: the last frame does not end */
static int ref(const unsigned char *p, int n, int nframes, int skip, int *cut, int *first){
  int o, k = 0;
  nwant = 0; *cut = 0; *first = -1;
  for(o = 0; o + 1 < n; ++o) if(p[o] == 120 && p[o + 1] == 218) break;
  if(o + 1 >= n) return(-1);
  while(o < n && !(nframes > 0 && k == nframes)){
    z_stream z;
    int r, at = nwant;
    if(o + 1 >= n || p[o] != 120 || p[o + 1] != 218){
      wput(p + o, n - o);
      o = n;
    }else{
      memset(&z, 0, sizeof(z));
      if(inflateInit(&z) != Z_OK) mc_die("inflateInit");
      z.next_in = (Bytef *)p + o; z.avail_in = n - o;
      z.next_out = want_ + nwant; z.avail_out = BIG - nwant;
      r = inflate(&z, Z_SYNC_FLUSH);
      nwant = (int)(z.next_out - want_);
      o = n - (int)z.avail_in;
      inflateEnd(&z);
      if(r == Z_OK || r == Z_BUF_ERROR) *cut = 1;
      else if(r != Z_STREAM_END) return(-1);
    }
    if(k == 0) *first = nwant - at;
    ++k;
  }
  if(skip > 0){
    if(skip >= *first) return(-1);
    memmove(want_, want_ + skip, nwant - skip);
    nwant -= skip;
  }
  return(0);
}
static int outfile;		/* 0: -o, 1: standard output */
static int unz(int nframes, int skip){
  begin("nbspunz");
  if(nframes){ arg("-n"); arg("%d", nframes); }
  if(skip == 24){ arg("-C"); }
  else if(skip){ arg("-c"); arg("%d", skip); }
  if(!outfile){ arg("-o"); arg("%s", P_("out")); }
  arg("%s", P_("in"));
  nenv_writefile(P_("in"), in_, nin);
  unlink(P_("out"));
  nout = 0;
  {
    int c = runprog(nbspunz_main, outfile);
    if(!outfile && slurp(P_("out")) < 0) nout = 0;
    if(c != 0 && c != 1) mc_fail("exit status %d", c);
    return(c);
  }
}
static const char *hdrs[] = { "", "x", "SDUS54 KSJT 010203\r\r\nN0RSJT\r\r\n" };
static void unz_main(void){
  static const int sz[] = { 1, 25, 4000, 5199, 5200, 5201, 10400, 20000 };
  int hk = mc_choose(24, "header and size"), h = hk / 8, n = 1 + mc_choose(mc_tier ? 4 : 3, "frames"), i, k;
  int nf, skip, c, cut, first, raw, large = 0;
  iput(hdrs[h], (int)strlen(hdrs[h]));
  for(i = 0; i < n; ++i){
    k = i == 0 ? hk % 8 : mc_choose(i < 2 ? 8 : mc_tier ? 4 : 3, "size");
    large |= sz[k] > 5200;
    frame(sz[k], i + h, 9);
  }
  /* the last one may not be compressed */
  raw = (int[]){ 0, 1, 2, 700, 6000 }[mc_choose(5, "not compressed")];
  content(tmp_, raw, 2); iput(tmp_, raw);
  /* no frame of the network has more than 5200 bytes, which is what these
     options count with */
  nf = large ? 0 : mc_choose(mc_tier ? 4 : 3, "-n");
  skip = large ? 0 : (int[]){ 0, 24, 1, 5199, 5200 }[mc_choose(5, "skip")];
  outfile = (n + nf + skip) & 1;
  c = unz(nf, skip);
  if(ref(in_, nin, nf, skip, &cut, &first) != 0){
    /* more is cut than the first frame has */
    if(skip == 0) mc_die("reference");
    if(skip >= 5199){ /* it may be cut by parts of the frame */ }
    if(c == 0 && skip >= first) mc_fail("cuts %d bytes of a frame with %d", skip, first);
    mc_outcome(1);
    return;
  }
  if(c != 0){
    mc_fail("fails with %d good frames", n);
  }
  same("the output of nbspunz");
  mc_outcome(mc_hash(oh, out_, nout > 6000 ? 6000 : nout));
}
static void dmg_main(void){
  int what = mc_choose(4, "what"), c, cut, first, at, n, r;
  iput(hdrs[2], (int)strlen(hdrs[2]));
  frame(40, 1, 9); at = nin; frame(5200, 0, 9); frame(9, 1, 9);
  content(tmp_, 20, 2); iput(tmp_, 20);
  n = nin;
  if(what == 0) nin = mc_choose(n + 1, "cut");
  else if(what == 1){
    static const unsigned char v[] = { 0, 255, 120, 218, 1, 128 };
    int b = mc_choose(n, "byte"), k = mc_choose(8, "value");
    in_[b] = k < 6 ? v[k] : k == 6 ? in_[b] ^ 1 : in_[b] ^ 64;
  }else if(what == 2){
    int b = mc_choose(n, "byte");
    memmove(in_ + b, in_ + b + 1, n - b - 1); --nin;
  }else{
    int b = mc_choose(n, "byte");
    memmove(in_ + b + 1, in_ + b, n - b); in_[b] = 120; ++nin;
  }
  (void)at;
  outfile = nin & 1;
  c = unz(0, 0);
  r = ref(in_, nin, 0, 0, &cut, &first);
  if(r != 0){
    if(c == 0) mc_fail("a damaged file is decoded");
    if(nout != 0) mc_fail("part of a damaged file is written");
  }else if(cut){
    /* what there was of it, or nothing */
    if(c == 0 || nout) same("the output of nbspunz, of a cut file");
  }else{
    if(c != 0) mc_fail("fails with a good file");
    same("the output of nbspunz");
  }
  mc_outcome(mc_hashi(mc_hashi(oh, c), nout));
}
/* nbspz, and back */
static void z_main(void){
  static const int sz[] = { 1, 100, 4000, 5200, 65535, 65536, 65537, 200000 };
  int n = sz[mc_choose(8, "size")], lv = mc_choose(14, "level"), c, level = 9, bad = 0, i;
  static const char *ls[] = { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9",
			      "10", "-1", "x" };
  int kind = mc_choose(2, "content"), o = mc_choose(2, "output");
  uLongf l;
  int have = mc_choose(4, "file");	/* 1: none, 2: no argument, 3: old output */
  content(in_, n, kind); nin = n;
  begin("nbspz");
  if(lv < 13){ arg("-c"); arg("%s", ls[lv]); level = lv; bad = lv > 9; }
  if(!o){ arg("-o"); arg("%s", P_("out")); }
  unlink(P_("out")); unlink(P_("in"));
  if(have == 3) nenv_writefile(P_("out"), in_, 3000);
  if(have != 1) nenv_writefile(P_("in"), in_, nin);
  if(have != 2) arg("%s", P_("in"));
  c = runprog(nbspz_main, o);
  if(!o && slurp(P_("out")) < 0) nout = 0;
  if(bad || have == 1 || have == 2){
    if(c == 0) mc_fail("success with %s", bad ? "a bad level" : "no file");
    mc_outcome(2);
    return;
  }
  if(c != 0) mc_fail("exit status %d", c);
  if(level == 0){
    wput(in_, nin);
    same("the output of nbspz");
    mc_outcome(3);
    return;
  }
  l = BIG;
  if(uncompress(want_, &l, out_, nout) != Z_OK || (int)l != n || memcmp(want_, in_, n) != 0)
    mc_fail("the output of nbspz is not the compressed file");
  oh = mc_hash(oh, out_, nout > 6000 ? 6000 : nout);
  if(level == 9){
    /* and back */
    memcpy(want_, in_, n); nwant = n;
    memcpy(in_, out_, nout); nin = nout;
    outfile = 1;
    i = unz(0, 0);
    if(i != 0) mc_fail("nbspunz cannot decode what nbspz has written");
    same("the output of nbspunz, of nbspz");
  }
  mc_outcome(oh);
}
/* something fails */
static void fault_main(void){
  int p = mc_choose(3, "program"), c, full = mc_choose(2, "full"), i;
  nfails = 0;
  if(p == 2){
    content(in_, 100, 0); nin = 100;
    nenv_writefile(P_("in"), in_, nin);
    begin("nbspz"); arg("-o"); arg("%s", full ? "/dev/full" : P_("out")); arg("%s", P_("in"));
    nomem = 1;
    c = runprog(nbspz_main, 0);
    nomem = 0;
  }else{
    int big = p == 1;
    for(i = 0; i < 3; ++i) frame(big ? 5000 : 200, big ? 1 : 0, 9);
    if(big) for(i = 0; i < 20; ++i) frame(5200, 1, 9);
    nenv_writefile(P_("in"), in_, nin);
    begin("nbspunz"); arg("-o"); arg("%s", full ? "/dev/full" : P_("out")); arg("%s", P_("in"));
    unlink(P_("out"));
    iox_prefix = mc_scratch; iox_hook = ioh;
    nomem = 1;
    c = runprog(nbspunz_main, 0);
    nomem = 0; iox_hook = NULL;
  }
  if(c != 0 && c != 1) mc_fail("exit status %d", c);
  if((nfails || full) && c == 0) mc_fail("exit status 0 without the output");
  if(!nfails && !full && c != 0) mc_fail("fails without a reason");
  mc_outcome(mc_hashi(oh, c));
}
static void body(void){
  flt_reset();
  nomem = 0; iox_hook = NULL;
  if(!strcmp(mc_arg, "unz")) unz_main();
  else if(!strcmp(mc_arg, "dmg")) dmg_main();
  else if(!strcmp(mc_arg, "z")) z_main();
  else if(!strcmp(mc_arg, "fault")) fault_main();
  else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 1, 200 };
  return(mc_main(argc, argv, &o, init, body));
}
