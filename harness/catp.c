/*
 * C15: nbspfile, nbsppipe and nbspcat. The real programs on products of all
 * forms, alone, in histories of commands, with failures, and together.
 */
#include "flt.h"
#include <ctype.h>
#define TOOL_NOREG
TOOL_DECL(nbspfile); TOOL_DECL(nbspfile2); TOOL_DECL(nbsppipe); TOOL_DECL(nbspcat);
static struct tool_prog T[] = { TOOL_PROG(nbspfile), TOOL_PROG(nbspfile2),
				TOOL_PROG(nbsppipe), TOOL_PROG(nbspcat) };
#define MB4 (4*1024*1024)
static int nomem, nfails, par;
static int flt(const char *w){
  if(!nomem || !tool_running()) return(0);
  if(!mc_dev(2, w)) return(0);
  ++nfails;
  mc_note("<%s fails> ", w);
  return(1);
}
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n){ if(flt("malloc")){ errno = ENOMEM; return(NULL); } return(__real_malloc(n)); }
int __real_chdir(const char *);
int __wrap_chdir(const char *p){ if(flt("chdir")){ errno = EACCES; return(-1); } return(__real_chdir(p)); }
static int unlocked(void *a){
  int fd = *(int *)a;
  extern int __real_flock(int, int);
  if(__real_flock(fd, LOCK_EX | LOCK_NB) == -1) return(0);
  __real_flock(fd, LOCK_UN);
  return(1);
}
int __real_flock(int, int);
int __wrap_flock(int fd, int op){
  if(flt("flock")){ errno = ENOLCK; return(-1); }
  if(par){
    sched_point("flock");
    while(__real_flock(fd, op | LOCK_NB) == -1){
      if(errno != EWOULDBLOCK || (op & LOCK_NB)) return(-1);
      sched_wait(unlocked, &fd, -1, "the lock of the file");
    }
    return(0);
  }
  return(__real_flock(fd, op));
}
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f){
  if(par && tool_running()){
    /* it may stop in the middle */
    size_t k = s*n/2;
    sched_point("fwrite");
    k = __real_fwrite(b, 1, k, f);
    fflush(f);
    sched_point("fwrite");
    k += __real_fwrite((const char *)b + k, 1, s*n - k, f);
    fflush(f);
    return(s ? k/s : 0);
  }
  return(__real_fwrite(b, s, n, f));
}
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f){
  if(par && tool_running()) sched_point("fclose");
  return(__real_fclose(f));
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n){
  if(flt("ftruncate")){ errno = EIO; return(-1); }
  if(par) sched_point("ftruncate");
  return(__real_ftruncate(fd, n));
}
static int ioh(const char *op, const char *path){
  (void)path;
  if(strcmp(op, "close") == 0) return(0);
  return(flt(op));
}
static void iob(const char *op, const char *path){
  (void)op; (void)path;
  if(par && tool_running()) sched_point(op);
}
static void init(void){
  nenv_init();
  flt_init();
  tool_reg(T, 4);
}

/* ------------------------------------------------------------- the products */
static const char CCB[24] = { 0x40, 0x0c, 1, 0, 0, 0x7f, (char)0xff, 10, 'A', 13,
			      10, 0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13 };
static const char *H1 = "SXUS50 KWBC 010203\r\r\n", *H2 = "N0RSJT\r\r\n";
/* returns the size of the header; in_[] has n bytes */
static int product(int ccb, int two, int n, int k){
  int i, h;
  unsigned x = 99 + k;
  nin = 0;
  iput(CCB, ccb > 24 ? 24 : ccb);
  while(nin < ccb) iput("\n", 1);
  iput(H1, (int)strlen(H1));
  if(two) iput(H2, (int)strlen(H2));
  h = nin - ccb;
  if(n < nin) nin = n;
  for(i = nin; i < n; ++i){
    x = x*1103515245u + 12345u;
    in_[i] = (unsigned char)(x >> 16);
  }
  /* text in part of it */
  for(i = h + ccb + 3; i < n && i < h + ccb + 3000; ++i) in_[i] = "ABCD \r\n"[i % 7];
  nin = n;
  return(h);
}
struct cmd {
  int prog;			/* 0 nbspfile, 1 nbsppipe, 2 nbspcat */
  int n, c, t, w, g, s, pos, z, p, d, a, stdin_;
  const char *out, *in;		/* out NULL: standard output */
};
/* what it writes, after what there is in want_; -1 if it must fail */
static int ref(const struct cmd *q){
  static const char HD[] = "\001\r\r\n%03u \r\r\n", TR[] = "\r\r\n\003";
  char b[40];
  unsigned seq = q->s == 0 ? 90000 : q->s == 1 ? 1234 : 4294967295u;
  int ccb, hdr, i, nl, at = nwant;
  snprintf(b, sizeof(b), HD, seq % 1000);
  if(q->prog){
    ccb = q->n ? 0 : q->c ? q->c : 24;
    if(nin <= ccb) return(-1);
    if(q->g) wput(b, (int)strlen(b));
    wput(in_ + ccb, nin - ccb);
    if(q->g) wput(TR, (int)strlen(TR));
    return(0);
  }
  ccb = q->n ? 0 : q->c ? q->c : nin > 0 && isalpha(in_[0]) ? 0 : 24;
  {
    int page = q->p ? q->p : q->z >= 0 ? 4000 : MB4;
    int last = nin < page ? nin : page;
    if(last <= ccb) return(-1);
    nl = strchr(q->in, '-') ? 2 : 1;
    for(i = ccb, hdr = 0; hdr < nl; ++i){
      if(i >= last) return(-1);
      if(in_[i] == '\n') ++hdr;
    }
    if(i >= last) return(-1);		/* there is no data after it */
    if(!q->t && !q->w) wput(b, (int)strlen(b));
    if(!q->w) wput(in_ + ccb, i - ccb);
    if(q->z > 0){
      /* the whole file in compressed pages; they are put as they are, and the
	 output is decoded to compare */
      wput(in_, nin);
    }else
      wput(in_ + i, nin - i);
    if(!q->t && !q->w) wput(TR, (int)strlen(TR));
  }
  (void)at;
  return(0);
}
/* replaces the compressed pages in out_, from offset o */
static unsigned char *dec_;
static void decode(const struct cmd *q, int o, int tail){
  int p = o, d = 0, page = q->p ? q->p : 4000, r, first;
  if(dec_ == NULL) dec_ = malloc(BIG);
  while(p < nout - tail){
    z_stream z;
    memset(&z, 0, sizeof(z));
    if(inflateInit(&z) != Z_OK) mc_die("inflateInit");
    z.next_in = out_ + p; z.avail_in = nout - tail - p;
    z.next_out = dec_ + d; z.avail_out = BIG - d;
    if(q->z == 9 && (out_[p] != 120 || out_[p + 1] != 218))
      mc_fail("a page compressed with level 9 does not start as one");
    r = inflate(&z, Z_FINISH);
    first = (int)(z.next_out - dec_) - d;
    inflateEnd(&z);
    if(r != Z_STREAM_END) mc_fail("a page of the output cannot be decompressed");
    p = nout - tail - (int)z.avail_in;
    d += first;
    if(first > page) mc_fail("a page of %d bytes", first);
    if(first != page && p < nout - tail) mc_fail("a page of %d bytes is not the last", first);
  }
  memmove(dec_ + d, out_ + nout - tail, tail); d += tail;
  memcpy(out_ + o, dec_, d);
  nout = o + d;
}
static tool_main_fn F_[] = { nbspfile_main, nbsppipe_main, nbspcat_main };
static char line_[4000];
static void line_arg(const char *f, ...){
  va_list ap;
  va_start(ap, f);
  strcat(line_, " ");
  vsprintf(line_ + strlen(line_), f, ap);
  va_end(ap);
}
/* the arguments of the command */
static void cmdline(const struct cmd *q){
  void (*A)(const char *, ...) = q->prog == 2 ? line_arg : arg;
  if(q->prog == 2){ strcat(line_, "nbspcat"); }
  else begin(q->prog ? "nbsppipe" : "nbspfile");
  if(q->n) A("-n");
  if(q->c){ A("-c"); A("%d", q->c); }
  if(q->t) A("-t");
  if(q->w) A("-w");
  if(q->g) A("-g");
  if(q->z >= 0 && !q->prog){ A("-z"); A("%d", q->z); }
  if(q->p){ A("-p"); A("%d", q->p); }
  if(q->d){ A("-d"); A("%s", P_("dir")); }
  if(q->s && !q->pos){ A("-s"); A(q->s == 1 ? "1234" : "4294967295"); }
  if(q->a) A("-a");
  if(q->out){ A("-o"); A("%s", q->d ? q->out : P_(q->out)); }
  if(q->stdin_ && q->prog == 0) A("-i");
  if(!(q->stdin_ && q->prog == 1)) A("%s", P_(q->in));
  if(q->s && q->pos) A(q->s == 1 ? "1234" : "4294967295");
  if(q->prog == 2) strcat(line_, "\n");
}
static unsigned char old_[] = "something that was there\n";
static char home[600];
/* one command; old: the output has old contents; old is 0, 1 or 2 (longer) */
static void single(struct cmd *q, int old, int chunk){
  char o[700];
  int c, r, base, len;
  nwant = 0;
  len = old == 2 ? MB4/16 : old ? (int)sizeof(old_) : 0;
  memset(out_, 'o', len);
  mkdir(P_("dir"), 0755);
  snprintf(o, sizeof(o), "%s/%s%s", mc_scratch, q->d ? "dir/" : "", q->out ? q->out : "none");
  unlink(o);
  if(old && q->out) nenv_writefile(o, out_, len);
  if(q->a && old && q->out) wput(out_, len);
  base = nwant;
  if(!q->stdin_) nenv_writefile(P_(q->in), in_, nin); else unlink(P_(q->in));
  line_[0] = 0;
  cmdline(q);
  r = ref(q);
  if(q->prog == 2){ begin("nbspcat"); tool_feed(line_, (int)strlen(line_), chunk); }
  else if(q->stdin_) tool_feed(in_, nin, chunk);
  if(getcwd(home, sizeof(home)) == NULL) mc_die("getcwd");
  c = runprog(F_[q->prog], q->out == NULL);
  tool_nofeed();
  if(chdir(home) != 0) mc_die("chdir");
  if(q->out && slurp(o) < 0) nout = 0;
  if(r != 0){
    if(q->prog != 2 && c == 0) mc_fail("success with a corrupted file");
    if(!q->a && q->out && nout) mc_fail("%d bytes written of a corrupted file", nout);
    if((!q->out || q->a) && nout != base) mc_fail("%d bytes written of a corrupted file", nout - base);
    mc_outcome(mc_hashi(1, nout));
    return;
  }
  if(c != 0) mc_fail("exit status %d", c);
  if(q->prog == 0 && q->z > 0){
    int tail = q->t || q->w ? 0 : 4, h = nwant - base - nin - tail;
    if(nout < base + h + tail) mc_fail("the output is too short, %d bytes", nout);
    decode(q, base + h, tail);
  }
  same("the output");
  mc_outcome(mc_hashi(mc_hash(oh, out_, nout > 200 ? 200 : nout), nout));
}
static void one_main(void){
  struct cmd q = { 0 };
  int sz = mc_choose(16, "size"), prog = mc_choose(3, "program"), f, ccb, two, n, h, name, page;
  q.prog = prog; q.z = -1;
  f = mc_choose(5, "ccb");	/* 0: 24, 1: none and -n, 2: none, 3: -c 40, 4: -c 3 */
  two = mc_choose(2, "awips");
  name = two ^ (mc_choose(2, "the name says") && prog == 0 ? 1 : 0);
  q.in = name ? "in_x-nam" : "in_x";
  ccb = f == 0 ? 24 : f == 3 ? 40 : f == 4 ? 3 : 0;
  q.n = f == 1;
  q.c = f == 3 ? 40 : f == 4 ? 3 : 0;
  switch(mc_choose(prog ? 2 : 4, "form")){
  case 0: break;
  case 1: if(prog) q.g = 1; else q.t = 1; break;
  case 2: q.w = 1; break;
  case 3: q.t = q.w = 1; break;
  }
  page = prog ? 65536 : 4000;
  if(!prog) switch(mc_choose(5, "pages")){
    case 0: break;
    case 1: q.z = 9; break;
    case 2: q.z = 0; break;
    case 3: q.p = 4000; break;
    case 4: q.z = 1; break;
    }
  h = (int)strlen(H1) + (two ? (int)strlen(H2) : 0) + ccb;
  n = (int[]){ 0, 1, 3, 23, 24, 25, 40, 41, h - 1, h, h + 1, h + 500, page - 1, page,
    page + 1, 2*page }[sz];
  product(ccb, two, n, f);
  nin = n;
  q.out = "out"; q.s = 1;
  single(&q, 0, 0);
}
static void opt_main(void){
  struct cmd q = { 0 };
  int prog, sz, old, chunk;
  sz = mc_choose(4, "size");
  prog = q.prog = mc_choose(3, "program");
  q.z = -1;
  q.in = "a-b";
  q.g = prog != 0 && mc_choose(2, "-g");
  q.s = mc_choose(3, "seq");
  q.pos = prog == 0 && q.s && mc_choose(2, "seq place");
  q.out = mc_choose(2, "out") ? NULL : "out";
  q.a = q.out && mc_choose(2, "append");
  q.d = prog != 2 && mc_choose(2, "-d");
  old = q.out ? mc_choose(3, "old") : 0;
  q.stdin_ = prog != 2 && mc_choose(2, "input");
  chunk = prog == 2 || q.stdin_ ? (int[]){ 0, 1, 4096, 5000 }[mc_choose(4, "chunks")] : 0;
  if(chunk == 1 && sz > 1) chunk = 7;
  if(!prog) switch(mc_choose(3, "pages")){
    case 1: q.z = 9; break;
    case 2: q.p = 65537; break;
    }
  product(24, 1, (int[]){ 100, 5000, 65536, 131073 }[sz], sz);
  single(&q, old, chunk);
}
static void big_main(void){
  struct cmd q = { 0 };
  int n = mc_choose(6, "size"), p = mc_choose(7, "page");
  q.z = -1;
  q.in = "a-b"; q.out = "out";
  n = (int[]){ MB4 - 1, MB4, MB4 + 1, 2*MB4 - 1, 2*MB4, 2*MB4 + 1 }[n];
  q.p = (int[]){ 0, MB4 - 1, MB4, MB4 + 1, 2*MB4, 65536, 0 }[p];
  if(p == 6) q.z = 9;
  product(24, 1, n, p);
  single(&q, 2, 0);
}
/* bad arguments write nothing */
static void args_main(void){
  static const char *bad[][8] = {
    { "-p", "3999", "IN" }, { "-p", "x", "IN" }, { "-p", "2147483648", "IN" },
    { "-p", "4294967296", "IN" }, { "-z", "10", "IN" }, { "-z", "-1", "IN" },
    { "-z", "65537", "IN" }, { "-c", "0", "IN" }, { "-c", "65536", "IN" },
    { "-c", "4294967320", "IN" }, { "-c", "x", "IN" },
    { "-s", "x", "IN" }, { "-s", "4294967296", "IN" }, { "IN", "x" }, { "IN", "1", "2" },
    { "-k", "IN" }, { NULL }, { "-p", "", "IN" },
    { "-c", "24x", "IN" }, { "-c", "65536", "IN" }, { "-c", "4294967320", "IN" },
    { "-s", "x", "IN" }, { "-s", "4294967296", "IN" }, { "IN", "x" }, { "-k", "IN" },
    { "-c", "", "IN" },
  };
  int k = mc_choose(26, "arguments"), i, c;
  product(24, 1, 300, 0);
  nenv_writefile(P_("in-x"), in_, nin);
  unlink(P_("out"));
  begin(k < 18 ? "nbspfile" : "nbsppipe");
  arg("-o"); arg("%s", P_("out"));
  for(i = 0; i < 8 && bad[k][i]; ++i)
    if(!strcmp(bad[k][i], "IN")) arg("%s", P_("in-x")); else arg("%s", bad[k][i]);
  c = runprog(k < 18 ? nbspfile_main : nbsppipe_main, 0);
  if(c == 0) mc_fail("success with bad arguments");
  if(slurp(P_("out")) > 0) mc_fail("output with bad arguments");
  mc_outcome(mc_hashi(oh, c));
}

/* ------------------------------------------------------ histories of nbspcat */
/* the outputs: the standard one, and two files */
static struct o { unsigned char b[300000]; int n, exists; } O[3];
static void oput(struct o *o, int from){
  memcpy(o->b + o->n, want_ + from, nwant - from); o->n += nwant - from;
  if(o->n > (int)sizeof(O[0].b)) mc_die("too big");
}
static unsigned char feed_[8000];
static void cat_main(void){
  int n = mc_tier ? 4 : 3, i, nf = 0, k, c, chunk, ended = 0;
  static const char *f[] = { "a.1", "b", "big" };
  char p[8][700];
  memset(O, 0, sizeof(O));
  product(24, 1, 90, 1); nenv_writefile(P_("a.1"), in_, nin);
  product(24, 0, 4711, 2); nenv_writefile(P_("b"), in_, nin);
  product(24, 0, 65536 + 77, 3); nenv_writefile(P_("big"), in_, nin);
  nenv_writefile(P_("short"), "12345", 5);
  unlink(P_("o1")); unlink(P_("o2")); unlink(P_("none"));
  for(i = 0; i < 4; ++i) snprintf(p[i], 700, "%s", P_(i < 3 ? f[i] : "none"));
  snprintf(p[4], 700, "%s", P_("short"));
  snprintf(p[5], 700, "%s", P_("o1")); snprintf(p[6], 700, "%s", P_("o2"));
  for(i = 0; i < n && !ended; ++i){
    struct cmd q = { 0 };
    int at, fi = -1, oi = 0;
    char *L = (char *)feed_ + nf;
    q.prog = 2;
    k = mc_choose(20, "command");
    if(i && k == 19) break;
    switch(k){
    case 0: case 1: case 2: fi = k; sprintf(L, "nbspcat %s\n", p[k]); break;
    case 3: fi = 0; q.g = 1; sprintf(L, "nbspcat -g %s\n", p[0]); break;
    case 4: fi = 1; q.g = 1; q.s = 1; sprintf(L, "x -gs 1234 %s\n", p[1]); break;
    case 5: fi = 0; q.n = 1; sprintf(L, "nbspcat  -n   %s \n", p[0]); break;
    case 6: fi = 0; q.c = 30; sprintf(L, "nbspcat -c 30 %s\n", p[0]); break;
    case 7: fi = 0; oi = 1; sprintf(L, "nbspcat -o %s %s\n", p[5], p[0]); break;
    case 8: fi = 1; oi = 1; q.a = 1; sprintf(L, "nbspcat -a -o %s %s\n", p[5], p[1]); break;
    case 9: fi = 0; oi = 2; q.a = 1; q.g = 1; sprintf(L, "nbspcat -g -a -o %s %s\n", p[6], p[0]); break;
    case 10: sprintf(L, "nbspcat %s\n", p[3]); break;	/* no such file */
    case 11: sprintf(L, "nbspcat -o %s/none/none %s\n", mc_scratch, p[0]); break;
    case 12: sprintf(L, "nbspcat -o %s %s\n", p[5], p[3]); break;
    case 13: sprintf(L, "nbspcat -xg %s\n", p[0]); break;	/* bad options */
    case 14: sprintf(L, "nbspcat -g\n"); break;
    case 15: sprintf(L, "nbspcat %s %s\n", p[0], p[1]); break;
    case 16: sprintf(L, "\n"); break;
    case 17: sprintf(L, "   \n"); break;
    case 18: oi = 1; sprintf(L, "nbspcat -g -o %s %s\n", p[5], p[4]); break; /* short */
    case 19: /* no end of the line */ sprintf(L, "nbspcat %s", p[0]); ended = 1; break;
    }
    nf += (int)strlen(L);
    if(k == 18){ O[1].n = 0; O[1].exists = 1; }
    if(fi < 0 || ended) continue;
    slurp(p[fi]); memcpy(in_, out_, nout); nin = nout;
    if(oi && !q.a) O[oi].n = 0;
    at = nwant;
    q.in = p[fi];
    if(ref(&q) != 0) mc_die("ref");
    oput(&O[oi], at);
    nwant = at;
    O[oi].exists = 1;
  }
  chunk = (int[]){ 0, 1, 50 }[mc_choose(3, "chunks")];
  begin("nbspcat");
  tool_feed(feed_, nf, chunk);
  c = runprog(nbspcat_main, 1);
  tool_nofeed();
  if(c != 0 && !ended) mc_fail("exit status %d", c);
  for(i = 0; i < 3; ++i){
    if(i){ nout = -1; nout = nenv_slurp(p[4 + i], out_, BIG); if(nout < 0) nout = 0; }
    if(ended && c == 0) ;
    nwant = 0; wput(O[i].b, O[i].n);
    same(i == 0 ? "the standard output" : i == 1 ? "the first file" : "the second file");
    oh = mc_hashi(oh, nout);
  }
  mc_outcome(oh);
}
/* ------------------------------------------------------------------ failures */
static void fault_main(void){
  struct cmd q = { 0 };
  int c, o, sz, bad = 0, r, in;
  sz = mc_choose(3, "size");
  q.prog = mc_choose(3, "program");
  q.z = -1;
  if(q.prog == 0) q.z = (int[]){ -1, 9 }[mc_choose(2, "-z")];
  else q.g = mc_choose(2, "-g");
  if(q.prog == 0 && q.z < 0 && mc_choose(2, "-p")) q.p = MB4 + 4096;
  in = mc_choose(3, "input");	/* 1: a directory, 2: none */
  o = mc_choose(4, "output");	/* 1: full; 2: full standard output; 3: a directory */
  product(24, 1, (int[]){ 100, 5000, 200000 }[sz], 1);
  q.in = in == 1 ? "dir" : in == 2 ? "none" : "in-x";
  q.out = o == 2 ? NULL : "out";
  unlink(P_("out")); rmdir(P_("out")); unlink(P_("none"));
  mkdir(P_("dir"), 0755);
  if(o == 1){ if(symlink("/dev/full", P_("out")) != 0) mc_die("symlink"); }
  if(o == 3) mkdir(P_("out"), 0755);
  nenv_writefile(P_("in-x"), in_, nin);
  q.d = q.prog != 2 && o != 2 && mc_choose(2, "-d");
  if(q.d){ char b[700]; snprintf(b, sizeof(b), "%s", P_("out")); q.d = 0; line_[0] = 0; cmdline(&q);
    if(q.prog == 2) mc_die("-d"); 
    /* -d after: the name of the output is absolute anyway */
    { char *last = av[--ac]; arg("-d"); arg("%s", P_("dir")); av[ac++] = last; av[ac] = NULL; }
  }else{ line_[0] = 0; cmdline(&q); }
  bad = in != 0 || o != 0;
  if(q.prog == 2){ begin("nbspcat"); tool_feed(line_, (int)strlen(line_), 0); }
  nwant = 0;
  q.in = "in-x";
  r = ref(&q);
  if(r != 0) mc_die("ref");
  nfails = 0;
  iox_prefix = mc_scratch; iox_hook = ioh;
  if(getcwd(home, sizeof(home)) == NULL) mc_die("getcwd");
  nomem = 1;
  if(o == 2){
    FILE *f = fopen("/dev/full", "w");
    if(f == NULL) mc_die("/dev/full");
    tool_out = f;
    c = tool_run(F_[q.prog], av);
    tool_out = NULL;
    fclose(f);
  }else
    c = runprog(F_[q.prog], 0);
  nomem = 0; iox_hook = NULL; iox_prefix = NULL;
  if(chdir(home) != 0) mc_die("chdir");
  tool_nofeed();
  if(q.prog == 2){
    /* it goes on after a file that cannot be opened */
    if(c != 0 && !nfails && !bad) mc_fail("exit status %d", c);
    if(in == 0 && (o == 1 || o == 2) && nfails == 0 && c == 0) mc_fail("exit status 0 without the output");
  }else{
    if((bad || nfails) && c == 0) mc_fail("exit status 0 without the output");
    if(!bad && !nfails && c != 0) mc_fail("exit status %d", c);
  }
  if(!bad && !nfails){
    if(slurp(P_("out")) < 0) mc_fail("no output");
    if(q.z < 0) same("the output");
  }
  unlink(P_("out")); rmdir(P_("out"));
  mc_outcome(mc_hashi(oh, c));
}
/* ------------------------------------- two of them, with the same output */
static struct two { struct cmd q; int code; char *av[20]; char buf[3000]; tool_main_fn fn; } W[2];
static void *onetool(void *a){
  struct two *w = a;
  w->code = tool_run(w->fn, w->av);
  return(NULL);
}
static unsigned char r_[4][20000]; static int nr_[4], nr;
static void cand(const unsigned char *a, int na, const unsigned char *b, int nb){
  memcpy(r_[nr], a, na); memcpy(r_[nr] + na, b, nb); nr_[nr++] = na + nb;
}
static void par_fn(void *a){
  static unsigned char x[2][9000]; int nx[2], i, id[2], k0 = mc_choose(16, "old, program, append"), old = k0 & 1;
  (void)a;
  nr = 0;
  unlink(P_("out"));
  if(old) nenv_writefile(P_("out"), old_, sizeof(old_));
  for(i = 0; i < 2; ++i){
    struct two *w = &W[i];
    int k;
    memset(w, 0, sizeof(*w));
    w->q.prog = i ? 1 : k0 >> 1 & 1;
    w->q.z = -1; w->q.in = i ? "in-2" : "in-1"; w->q.out = "out";
    w->q.g = w->q.prog && mc_choose(2, "-g");
    w->q.a = k0 >> (2 + i) & 1;
    if(w->q.prog == 0 && mc_choose(2, "-p")) w->q.p = 4000;
    product(24, 1, i ? 100 : 4001 + 300, i);
    nenv_writefile(P_(w->q.in), in_, nin);
    nwant = 0;
    if(ref(&w->q) != 0) mc_die("ref");
    memcpy(x[i], want_, nwant); nx[i] = nwant;
    line_[0] = 0;
    cmdline(&w->q);
    memcpy(w->buf, argbuf, argn);
    for(k = 0; k < ac; ++k) w->av[k] = k ? w->buf + (av[k] - argbuf) : av[0];
    w->av[k] = NULL;
    w->fn = w->q.prog ? (i ? nbsppipe_main : nbsppipe_main) : nbspfile_main;
  }
  if(W[0].q.prog == 1){ W[0].fn = nbsppipe_main; W[1].fn = nbspfile2_main; }
  if(W[1].fn == nbspfile2_main){
    /* the other one has to be nbspfile then */
    struct two *w = &W[1];
    int k;
    w->q.prog = 0; w->q.g = 0;
    product(24, 1, 100, 1);
    nwant = 0;
    if(ref(&w->q) != 0) mc_die("ref");
    memcpy(x[1], want_, nwant); nx[1] = nwant;
    cmdline(&w->q);
    memcpy(w->buf, argbuf, argn);
    for(k = 0; k < ac; ++k) w->av[k] = k ? w->buf + (av[k] - argbuf) : av[0];
    w->av[k] = NULL;
  }
  /* what may be there in the end */
  for(i = 0; i < 2; ++i){
    int f = i, s = 1 - i;	/* f first, then s */
    static unsigned char y[20000]; int ny = 0;
    if(W[f].q.a && old){ memcpy(y, old_, sizeof(old_)); ny = sizeof(old_); }
    memcpy(y + ny, x[f], nx[f]); ny += nx[f];
    if(!W[s].q.a) ny = 0;
    cand(y, ny, x[s], nx[s]);
  }
  iox_prefix = mc_scratch; iox_before = iob;
  par = 1;
  for(i = 0; i < 2; ++i) id[i] = sched_spawn(onetool, &W[i], i ? "second" : "first");
  for(i = 0; i < 2; ++i) sched_join(id[i]);
  par = 0; iox_before = NULL; iox_prefix = NULL;
  for(i = 0; i < 2; ++i) if(W[i].code != 0) mc_fail("exit status %d", W[i].code);
  if(slurp(P_("out")) < 0) mc_fail("no output");
  for(i = 0; i < nr; ++i)
    if(nout == nr_[i] && memcmp(out_, r_[i], nout) == 0) break;
  if(i == nr) mc_fail("the output, %d bytes, is not that of one after the other (%d or %d)",
		      nout, nr_[0], nr_[1]);
  mc_outcome(mc_hashi(mc_hashi(oh, i), nout));
}
static void body(void){
  flt_reset();
  nomem = par = 0; iox_hook = NULL; iox_before = NULL; iox_prefix = NULL;
  if(!strcmp(mc_arg, "one")) one_main();
  else if(!strcmp(mc_arg, "opt")) opt_main();
  else if(!strcmp(mc_arg, "big")) big_main();
  else if(!strcmp(mc_arg, "args")) args_main();
  else if(!strcmp(mc_arg, "cat")) cat_main();
  else if(!strcmp(mc_arg, "fault")) fault_main();
  else if(!strcmp(mc_arg, "par")) sched_run(par_fn, NULL);
  else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 1, 100 };
  return(mc_main(argc, argv, &o, init, body));
}
