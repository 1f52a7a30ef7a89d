/*
 * C30: the cleanup of the directories: nbspcleanup (in an interpreter, with
 * the real find) and nbspinvrm, on a tree of files in the scratch directory, as
 * a user who owns nothing else.
 */
#include "flt.h"
#undef _GNU_SOURCE
#include "tclh.h"
#include <dirent.h>
#include <sys/time.h>
#include <utime.h>
#include <sys/syscall.h>
TOOL_DECL(nbspinvrm);
static struct tool_prog T[] = { TOOL_PROG(nbspinvrm) };
#define ID 65534
static char R[400];			/* the root of the tree */

/* ---- the tree and its model ---- */
static struct ent { char p[80]; int dir, old, gone; char text[700]; } E[80];
static int ne;
static void ent(const char *p, int dir, int old, const char *text){
  struct ent *e = &E[ne++];
  memset(e, 0, sizeof(*e));
  strcpy(e->p, p); e->dir = dir; e->old = old;
  if(text) strcpy(e->text, text);
}
static void wipe(const char *d){
  DIR *dp = opendir(d);
  struct dirent *x;
  char b[900];
  struct stat st;
  if(strncmp(d, mc_scratch, strlen(mc_scratch)) != 0) mc_die("wipe %s", d);
  if(dp == NULL) return;
  while((x = readdir(dp)) != NULL){
    if(!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue;
    snprintf(b, sizeof(b), "%s/%s", d, x->d_name);
    if(lstat(b, &st) == 0 && S_ISDIR(st.st_mode)) wipe(b), rmdir(b);
    else unlink(b);
  }
  closedir(dp);
}
static char *at(const char *p){
  static char b[4][600]; static int k;
  k = (k + 1) % 4;
  snprintf(b[k], 600, "%s/%s", R, p);
  return(b[k]);
}
static void mktree(void){
  int i;
  struct timeval tv[2];
  struct timespec ts;
  time_t now;
  /* the real time, which is that of find */
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  now = ts.tv_sec;
  wipe(R);
  for(i = 0; i < ne; ++i){
    if(E[i].dir){ if(mkdir(at(E[i].p), 0755)) mc_die("mkdir %s", at(E[i].p)); }
    else t_write(at(E[i].p), "%s", E[i].text[0] ? E[i].text : "x");
  }
  for(i = ne - 1; i >= 0; --i){
    tv[0].tv_sec = tv[1].tv_sec = now - (E[i].old ? 100*3600 : 3600);
    tv[0].tv_usec = tv[1].tv_usec = 0;
    if(utimes(at(E[i].p), tv)) mc_die("utimes");
  }
}
static int inside(const char *p, const char *d){
  size_t l = strlen(d);
  return(strncmp(p, d, l) == 0 && p[l] == '/');
}
static int direct(const char *p, const char *d){
  return(inside(p, d) && strchr(p + strlen(d) + 1, '/') == NULL);
}
static struct ent *find_(const char *p){
  int i;
  for(i = 0; i < ne; ++i) if(!strcmp(E[i].p, p)) return(&E[i]);
  return(NULL);
}
static void gone(const char *p){
  struct ent *e = find_(p);
  if(e && !e->dir) e->gone = 1;
}
static int nleft(const char *d){
  int i, n = 0;
  for(i = 0; i < ne; ++i) if(!E[i].gone && direct(E[i].p, d)) ++n;
  return(n);
}
static void compare(const char *what){
  int i, n = 0;
  struct stat st;
  for(i = 0; i < ne; ++i){
    int ex = lstat(at(E[i].p), &st) == 0;
    if(ex && E[i].gone) mc_fail("%s: %s was not deleted", what, E[i].p);
    if(!ex && !E[i].gone) mc_fail("%s: %s was deleted", what, E[i].p);
    oh = mc_hashi(oh, ex);
    n += ex;
  }
}

/* ---- nbspinvrm ---- */
static void base_tree(void){
  ne = 0;
  ent("d", 1, 0, NULL); ent("e", 1, 0, NULL);
  ent("d/a", 0, 0, NULL); ent("d/b", 0, 0, NULL); ent("d/c c", 0, 0, NULL);
  ent("d/sub", 1, 0, NULL); ent("d/sub/a", 0, 0, NULL);
  ent("e/a", 0, 0, NULL); ent("e/b", 0, 0, NULL);
  ent("a", 0, 0, NULL); ent("b", 0, 0, NULL);
}
static int write_bytes(const char *f, const char *b, int n){
  FILE *fp = fopen(at(f), "a");
  if(fp == NULL) mc_die("%s", f);
  fwrite(b, 1, n, fp);
  fclose(fp);
  return(0);
}
static void inv_main(void){
  /* the entries; the first is always a path */
  static const char *EN[] = { "/d/a", "b", "/d/b", "missing", "c c", "sub", "/d/none" };
  int nf = 1 + mc_choose(2, "inventories"), f, i, n, k, st;
  int t = 0, s = 0, v = 0, special;
  char names[2][20] = { "i1", "i2" }, dir[2] = { 'd', 'e' }, log[4000] = "";
  int missing[2] = { 0, 0 };
  base_tree();
  if(nf == 1){ t = mc_choose(2, "-t"); s = mc_choose(2, "-s"); }
  v = mc_choose(2, "-v");
  special = nf == 1 ? mc_choose(6, "special") : 0;
  for(f = 0; f < nf; ++f){
    char text[700] = "", *d = text;
    if(f == 1) dir[1] = "de"[mc_choose(2, "directory")];
    n = mc_choose(f == 0 ? 4 : 3, "entries");
    if(f == 1 && mc_choose(3, "other") == 0){ missing[1] = 1 + mc_choose(2, "which"); }
    /* the directory is gone, or there is no such inventory */
    if(f == 0 && nf == 2 && mc_choose(3, "other") == 0) missing[0] = 1 + mc_choose(2, "which");
    for(i = 0; i < n; ++i){
      char p[80];
      k = i == 0 ? 2*mc_choose(2, "first") : mc_choose(nf == 1 ? (int)(sizeof(EN)/sizeof(*EN)) : 4, "entry");
      if(EN[k][0] == '/'){
	snprintf(p, sizeof(p), "%c%s", missing[f] == 1 ? 'z' : dir[f], EN[k] + 2);
	d += sprintf(d, "%s/%s", R, p);
      }else{
	snprintf(p, sizeof(p), "%c/%s", dir[f], EN[k]);
	d += sprintf(d, "%s", EN[k]);
      }
      if(!(i == n - 1 && special == 1)) *d++ = '\n';
      if(!missing[f] && !t) gone(p);
      *d = 0;
    }
    if(missing[f] != 2){
      if(special == 2) d += sprintf(d, "\n");
      ent(names[f], 0, 0, text);
      if(n == 0 && text[0] == 0) E[ne-1].text[0] = 0;
      if(!t) E[ne-1].gone = 1;
    }
  }
  mktree();
  if(E[ne-1].text[0] == 0 && nf == 1){ int fd = open(at("i1"), O_WRONLY|O_TRUNC); close(fd); }
  if(special == 3) write_bytes("i1", "\0x\n", 3);
  if(special == 4){ /* a line that is longer than any path */
    int j; FILE *fp = fopen(at("i1"), "a");
    for(j = 0; j < 5000; ++j) fputc('y', fp);
    fputc('\n', fp); fclose(fp);
  }
  if(special == 5) write_bytes("i1", "\0", 1);
  begin("nbspinvrm");
  if(t) arg("-t");
  if(s) arg("-s");
  if(v) arg("-v");
  for(f = 0; f < nf; ++f) arg("%s", names[f]);
  mc_note("-t %d -s %d -v %d special %d: %s", t, s, v, special, E[ne-1].text);
  if(chdir(R)) mc_die("chdir");
  st = runprog(nbspinvrm_main, 1);
  if(chdir(mc_scratch)) mc_die("chdir");
  out_[nout] = 0;
  compare("nbspinvrm");
  if(st != 0) mc_fail("ends with status %d", st);
  if(!v && nout) mc_fail("without -v it writes %s", out_);
  if(v && special == 0)
    for(i = 0; i < ne; ++i){
      const char *b = strrchr(E[i].p, '/');
      if(E[i].gone && strstr((char *)out_, b ? b + 1 : E[i].p) == NULL)
	mc_fail("-v does not say that it deleted %s", E[i].p);
    }
  (void)log;
  mc_outcome(oh);
}

/* ---- nbspcleanup ---- */
static char outp[60000]; static int noutp;
static int c_puts(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]){
  (void)c;
  if(n != 2){				/* to a file */
    Tcl_Obj *w[8];
    int i, st;
    if(n > 8) mc_die("puts");
    w[0] = Tcl_NewStringObj("puts0", -1);
    Tcl_IncrRefCount(w[0]);
    for(i = 1; i < n; ++i) w[i] = v[i];
    st = Tcl_EvalObjv(ip, n, w, TCL_EVAL_GLOBAL);
    Tcl_DecrRefCount(w[0]);
    return(st);
  }
  noutp += snprintf(outp + noutp, sizeof(outp) - noutp, "%s\n", Tcl_GetString(v[n - 1]));
  if(noutp >= (int)sizeof(outp)) noutp = sizeof(outp) - 1;
  return(TCL_OK);
}
/* date is the same for all; the others are executed */
static int c_exec(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]){
  Tcl_Obj *w[40];
  int i, st;
  (void)c;
  if(n == 2 && !strcmp(Tcl_GetString(v[1]), "date")){
    Tcl_SetObjResult(ip, Tcl_NewStringObj("Thu Mar 7", -1));
    return(TCL_OK);
  }
  if(n > 40) mc_die("exec");
  w[0] = Tcl_NewStringObj("_exec0", -1);
  Tcl_IncrRefCount(w[0]);
  for(i = 1; i < n; ++i) w[i] = v[i];
  Tcl_SetTimeProc(NULL, NULL, NULL);
  st = Tcl_EvalObjv(ip, n, w, TCL_EVAL_GLOBAL);
  t_virtual();
  Tcl_DecrRefCount(w[0]);
  return(st);
}
static const char *EXPR[] = {
  "-mmin +240", "-c 2", "-i -mmin +240", "-c 1 -d", "-bogus", "-i -bogus",
  "-type f -mmin +240", "-c 1 -e ^0[34]|keep", "-c 0", "-cmin -100", "-iname 0* -type f",
  "-c x", "-c 2 -z", "-inum 1" };
static int bycmp(const void *a, const void *b){
  return(strcmp(E[*(const int *)a].p, E[*(const int *)b].p));
}
static void rmtree(const char *d){
  int i;
  for(i = 0; i < ne; ++i) if(inside(E[i].p, d) || !strcmp(E[i].p, d)) E[i].gone = 1;
}
static void bycount(const char *d, int count, int isd, int excl){
  int x[80], n, i, dirs;
  for(dirs = 0; dirs < 2; ++dirs){
    for(i = n = 0; i < ne; ++i)
      if(!E[i].gone && E[i].dir == dirs && direct(E[i].p, d)) x[n++] = i;
    qsort(x, n, sizeof(*x), bycmp);
    for(i = 0; i < n; ++i){
      const char *b = strrchr(E[x[i]].p, '/') + 1;
      int keep = excl && (!strncmp(b, "03", 2) || !strncmp(b, "04", 2) || strstr(b, "keep"));
      if(dirs && !isd) bycount(E[x[i]].p, count, isd, excl);
      else if(i < n - count && !keep){ if(dirs) rmtree(E[x[i]].p); else E[x[i]].gone = 1; }
    }
  }
}
static void invfile(struct ent *e){
  char b[700], *l, *q;
  strcpy(b, e->text);
  for(l = strtok_r(b, "\n", &q); l; l = strtok_r(NULL, "\n", &q)){
    char *r = strrchr(l, '/');
    char p[100];
    snprintf(p, sizeof(p), "out/%s", r ? r + 1 : l);
    gone(p);
  }
  e->gone = 1;
}
static void apply(const char *d, int x){
  int i, again;
  struct ent *e = find_(d);
  if(e == NULL || e->gone || !e->dir) return;
  switch(x){
  case 0: case 6:
    for(i = 0; i < ne; ++i) if(inside(E[i].p, d) && E[i].old && !E[i].dir) E[i].gone = 1;
    /* old directories that were empty before */
    if(x == 0)
      for(i = 0; i < ne; ++i)
	if(inside(E[i].p, d) && E[i].old == 1 && E[i].dir && nleft(E[i].p) == 0) E[i].gone = 1;
    break;
  case 1: bycount(d, 2, 0, 0); break;
  case 3: bycount(d, 1, 1, 0); break;
  case 7: bycount(d, 1, 0, 1); break;
  case 8: bycount(d, 0, 0, 0); break;
  case 9:
    for(i = 0; i < ne; ++i) if(inside(E[i].p, d)) E[i].gone = 1;
    break;
  case 10:
    for(i = 0; i < ne; ++i)
      if(inside(E[i].p, d) && !E[i].dir && strrchr(E[i].p, '/')[1] == '0') E[i].gone = 1;
    break;
  case 2:
    for(i = 0; i < ne; ++i)
      if(!E[i].gone && direct(E[i].p, d) && E[i].old && !E[i].dir) invfile(&E[i]);
    for(i = 0; i < ne; ++i)
      if(!E[i].gone && direct(E[i].p, d) && E[i].old && E[i].dir){
	for(again = 0; again < ne; ++again)
	  if(!E[again].gone && inside(E[again].p, E[i].p) && !E[again].dir) invfile(&E[again]);
	if(nleft(E[i].p) == 0) E[i].gone = 1;
      }
    break;
  }
}
static void tree(int withinv){
  char b[700];
  ne = 0;
  ent("data", 1, 0, NULL); ent("data/a", 1, 0, NULL); ent("data/b", 1, 0, NULL);
  ent("data/a/sub", 1, 0, NULL); ent("data/a/e", 1, 1, NULL);
  ent("inv", 1, 0, NULL); ent("out", 1, 0, NULL);
  ent("data/top", 0, 1, NULL); ent("data/uop", 0, 0, NULL); ent("data/vop", 0, 1, NULL);
  ent("data/a/01", 0, 1, NULL); ent("data/a/02", 0, 0, NULL); ent("data/a/03", 0, 1, NULL);
  ent("data/a/04 4", 0, 1, NULL); ent("data/a/keep[1]", 0, 1, NULL); ent("data/a/zz", 0, 0, NULL);
  ent("data/a/sub/01", 0, 1, NULL); ent("data/a/sub/02", 0, 0, NULL); ent("data/a/sub/05", 0, 1, NULL);
  ent("data/b/01", 0, 1, NULL); ent("data/b/09", 0, 0, NULL);
  ent("out/01", 0, 1, NULL); ent("out/p", 0, 0, NULL); ent("out/q", 0, 1, NULL);
  ent("out/r", 0, 0, NULL); ent("out/s", 0, 0, NULL); ent("out/t", 0, 0, NULL);
  if(withinv){
    ent("inv/h1", 1, 1, NULL); ent("inv/h2", 1, 0, NULL);
    snprintf(b, sizeof(b), "%s/out/p\nq\nnone\n", R); ent("inv/i1", 0, 1, b);
    snprintf(b, sizeof(b), "%s/out/r\n", R); ent("inv/i2", 0, 0, b);
    snprintf(b, sizeof(b), "%s/out/s\n", R); ent("inv/h1/j1", 0, 1, b);
    snprintf(b, sizeof(b), "%s/out/01\n", R); ent("inv/h1/j2", 0, 0, b);
    snprintf(b, sizeof(b), "%s/out/t\n", R); ent("inv/h2/j3", 0, 0, b);
  }
}
static char cd[3][512];
static void cleanup_main(void){
  static const char *DIRS[] = { "data/a", "data", "inv", "missing", "data/top" };
  static const char *SPEC[] = { "H", "H=11|12", "H/5", "bad", "D=0712g" };
  static const int runs[] = { 1, 1, 0, 0, 1 };
  struct { const char *dir; int run, x, excl; } L[4];
  int nl, i, j, k, st, f_ = 0, l_ = 0, nu = 0;
  char text[3][2000] = { "# comment\n\n", "", "" }, cmd[800];
  now_ = t_day(2024, 3, 7) + 12*3600 + 100;
  tree(1);
  int x0 = mc_choose(14, "expression");
  nl = 1 + mc_choose(mc_tier ? 3 : 2, "lines");
  if(nl == 1){ f_ = mc_choose(2, "-f"); l_ = mc_choose(2, "-l"); }
  for(i = 0; i < nl; ++i){
    int d, sp, x, ex = 0, file;
    x = i ? mc_choose(7, "expression") : x0;
    if(i == 0){
      d = mc_choose(nl == 1 ? 5 : 3, "directory");
      sp = mc_choose(nl == 1 ? 5 : 1, "time");
    }else{
      d = mc_choose(3, "directory");
      sp = mc_choose(mc_tier ? 3 : 1, "time");
      if(sp) ++sp;
    }
    file = i ? (mc_choose(2, "file") ? 2 : 0) : (nl == 1 ? mc_choose(3, "file") : 0);
    if(f_) file = 0;
    if(d == 1) ex = mc_choose(2, "exclude");
    sprintf(text[file] + strlen(text[file]), "%s:%s/%s:%s %s  \n", SPEC[sp], R, DIRS[d], ex ? "^b|zz:" : "", EXPR[x]);
    if(nl == 1 && mc_choose(2, "wrong line"))
      sprintf(text[file] + strlen(text[file]), "nothing\nH:%s/data/b\nH:%s/data/b:x:y:-c 0\n", R, R);
    /* the last for a directory, read in the order of the files */
    L[i].dir = DIRS[d]; L[i].run = runs[sp]; L[i].x = x; L[i].excl = ex;
    L[i].run |= file << 4;
  }
  /* in the order in which they are read */
  struct { const char *dir; int run, x, excl; } U[4];
  for(k = 0; k < 3; ++k)
    for(i = 0; i < nl; ++i){
      if((L[i].run >> 4) != k) continue;
      for(j = 0; j < nu && strcmp(U[j].dir, L[i].dir); ++j) ;
      if(j == nu) ++nu;
      U[j].dir = L[i].dir; U[j].run = L[i].run & 1; U[j].x = L[i].x; U[j].excl = L[i].excl;
    }
  mktree();
  for(i = 0; i < nu; ++i){
    if(!U[i].run) continue;
    if(!U[i].excl) apply(U[i].dir, U[i].x);
    else
      for(j = 0; j < ne; ++j)
	if(E[j].dir && direct(E[j].p, U[i].dir) && strcmp(strrchr(E[j].p, '/'), "/b")) apply(E[j].p, U[i].x);
  }
  static const char *sub[] = { "", "/defaults", "/site" };
  for(i = 0; i < 3; ++i){
    snprintf(cd[i], sizeof(cd[i]), "%s/conf%s", mc_scratch, sub[i]);
    mkdir(cd[i], 0755);
    snprintf(cmd, sizeof(cmd), "%s/c.conf", cd[i]);
    unlink(cmd);
    if(text[i][0] && !(i == 0 && L[0].run >= 16 && nl == 1)) t_write(cmd, "%s", text[i]);
  }
  snprintf(conf_, sizeof(conf_), "%s/filters.conf", cd[0]);
  t_write(conf_, "set common(confdir) %s\nset common(localconfdirs) [list %s %s]\n", cd[0], cd[1], cd[2]);
  snprintf(cmd, sizeof(cmd), "%s/clog", mc_scratch);
  unlink(cmd);
  if(I_) Tcl_DeleteInterp(I_);
  Tcl_SetTimeProc(NULL, NULL, NULL);
  t_new();
  t_eval("lappend auto_path /usr/share/tcltk/tcllib1.21; set env(PATH) %s/bin:$env(PATH); set env(TZ) UTC; "
	 "package ifneeded nbsp::hscheduler 1.0 [list source %s/filters/filterlib/tcl/hscheduler.tcl]; "
	 "rename exec _exec0; package require fileutil; rename puts puts0", mc_scratch, REPO_TREE);
  Tcl_CreateObjCommand(I_, "exec", c_exec, NULL, NULL);
  Tcl_CreateObjCommand(I_, "puts", c_puts, NULL, NULL);
  noutp = 0; outp[0] = 0;
  if(chdir(R)) mc_die("chdir");
  t_eval("cd %s", R);
  if(l_) t_eval("set argv [list -l %s]", cmd);
  if(f_) t_eval("lappend argv -f %s/c.conf", cd[0]);
  else t_eval("lappend argv c.conf");
  t_eval("set argc [llength $argv]");
  mc_note("-f %d -l %d\n%s--\n%s--\n%s", f_, l_, text[0], text[1], text[2]);
  t_virtual();
  st = t_file("scripts/nbspcleanup.tcl");
  mc_step();
  if(chdir(mc_scratch)) mc_die("chdir");
  if(getenv("MC_LOGS") && mc_replaying()) fprintf(stderr, "%s\n", outp);
  {
    char *log = t_slurp(cmd, NULL);
    int diff = st;
    if(l_ && log == NULL) mc_fail("no log file (%s)", t_err());
    if(!l_ && log) mc_fail("a log file");
    if(l_ && noutp) mc_fail("with a log file it writes: %s", outp);
    compare(t_err());
    if(diff) mc_fail("ends with status %d: %s", st, t_err());
    for(i = 0; i < ne; ++i){
      /* with its directory */
      for(j = 0; j < ne && !(E[j].gone && E[j].dir && inside(E[i].p, E[j].p)); ++j) ;
      if(j == ne && E[i].gone && strstr(l_ ? log : outp, strrchr(E[i].p, '/') + 1) == NULL)
	mc_fail("%s was deleted and not shown", E[i].p);
    }
    free(log);
  }
  mc_outcome(oh);
}
static void init(void){
  nenv_init();
  flt_init();
  tool_reg(T, 1);
}
static void body(void){
  char exe[600], b[600];
  int n;
  static int once;
  flt_reset();
  snprintf(R, sizeof(R), "%s/r", mc_scratch);
  if(!once++){
    /* from here on, a user who can only delete what is in the scratch directory */
    if(chown(mc_scratch, ID, ID)) mc_die("chown");
    mkdir(R, 0755);
    if(chown(R, ID, ID)) mc_die("chown");
    snprintf(b, sizeof(b), "%s/bin", mc_scratch);
    mkdir(b, 0755);
    n = (int)readlink("/proc/self/exe", exe, sizeof(exe) - 1);
    if(n < 0) mc_die("exe");
    exe[n] = 0;
    strcat(b, "/nbspinvrm");
    unlink(b);
    if(symlink(exe, b)) mc_die("symlink");
    if(setgid(ID) || setuid(ID) || geteuid() != ID) mc_die("setuid");
  }
  if(!strcmp(mc_arg, "inv")) inv_main();
  else if(!strcmp(mc_arg, "cleanup")) cleanup_main();
  else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 1, 50 };
  const char *n = strrchr(argv[0], '/');
  if(!strcmp(n ? n + 1 : argv[0], "nbspinvrm")){
    if(geteuid() == 0) return(77);
    tool_err = stderr; tool_out = stdout; tool_in = stdin;
    return(tool_run(nbspinvrm_main, argv));
  }
  return(mc_main(argc, argv, &o, init, body));
}
