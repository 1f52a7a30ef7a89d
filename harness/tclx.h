/* exec and open of a pipe for the scripts of tclh.h: the programs of the table T
   are the real ones, in this process; others do not exist */
#ifndef TCLX_H
#define TCLX_H
/* ---- exec and open of a pipe ---- */
static char ran[2000];			/* the programs executed */
static unsigned char pbuf[2][1024*1024];
static int fail_(Tcl_Interp *ip, const char *m){
  Tcl_SetObjResult(ip, Tcl_NewStringObj(m, -1));
  return(TCL_ERROR);
}
static void append(const char *f, const void *b, int n){
  FILE *fp = fopen(f, "a");
  if(fp == NULL) mc_die("append %s", f);
  fwrite(b, 1, n, fp);
  fclose(fp);
}
static int c_exec(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]){
  int i = 1, k = 0, np = 0, st = TCL_OK, infile, j, code;
  const char *to = NULL, *from;
  char *a[40]; int na;
  const char *what = NULL;
  (void)c;
  while(i < n){
    na = 0; from = NULL; to = NULL;
    for(; i < n && strcmp(Tcl_GetString(v[i]), "|"); ++i){
      char *s = Tcl_GetString(v[i]);
      if(!strcmp(s, "<") && i + 1 < n) from = Tcl_GetString(v[++i]);
      else if(!strcmp(s, ">") && i + 1 < n) to = Tcl_GetString(v[++i]);
      else if(na < 38) a[na++] = s;
    }
    ++i;
    a[na] = NULL;
    if(na == 0) return(fail_(ip, "illegal use of | or |& in command"));
    snprintf(ran + strlen(ran), sizeof(ran) - strlen(ran), "%s ", a[0]);
    infile = np;
    if(from){
      if(access(from, R_OK)) return(fail_(ip, "couldn't read file"));
      np = nenv_slurp(from, pbuf[k], sizeof(pbuf[k])); infile = 1;
    }
    for(j = 0; j < NT && strcmp(T[j].name, a[0]); ++j) ;
    if(!strcmp(a[0], "sink") && na == 2){
      append(a[1], pbuf[k], np);
      np = 0;
    }else if(j == NT){
      return(fail_(ip, "couldn't execute: no such file or directory"));
    }else{
      int outn;
      tool_feed(infile ? pbuf[k] : (unsigned char *)"", infile ? np : 0, 0);
      tool_err = fopen(P_("stderr"), "w+");
      tool_capture(P_("stdout"));
      code = tool_run(T[j].fn, a);
      outn = tool_output(pbuf[1 - k], sizeof(pbuf[0]));
      fflush(tool_err);
      if(ftell(tool_err) > 0 && !what) what = "error messages of a program";
      fclose(tool_err); tool_err = NULL;
      tool_nofeed();
      if(code) what = "child process exited abnormally";
      k = 1 - k; np = outn;
      mc_step();
    }
  }
  if(to){
    FILE *fp = fopen(to, "w");
    if(fp == NULL) return(fail_(ip, "couldn't write file"));
    fwrite(pbuf[k], 1, np, fp); fclose(fp);
    np = 0;
  }
  if(what) return(fail_(ip, what));
  if(np && pbuf[k][np - 1] == '\n') --np;
  Tcl_SetObjResult(ip, Tcl_NewStringObj((char *)pbuf[k], np));
  return(st);
}
/* "|sink file", "|full", "|none" */
static int c_open(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]){
  Tcl_Obj *w[6];
  int i, st;
  char *s = Tcl_GetString(v[1]);
  (void)c;
  if(n > 5) return(fail_(ip, "open"));
  w[0] = Tcl_NewStringObj("_open0", -1);
  for(i = 1; i < n; ++i) w[i] = v[i];
  if(s[0] == '|'){
    if(!strncmp(s, "|sink ", 6)) w[1] = Tcl_NewStringObj(s + 6, -1);
    else if(!strcmp(s, "|full")) w[1] = Tcl_NewStringObj("/dev/full", -1);
    else return(fail_(ip, "couldn't execute: no such file or directory"));
    if(n > 2 && Tcl_GetString(v[2])[0] == 'w') w[2] = Tcl_NewStringObj("a", -1);
    snprintf(ran + strlen(ran), sizeof(ran) - strlen(ran), "%s ", s);
  }
  for(i = 0; i < n; ++i) Tcl_IncrRefCount(w[i]);
  st = Tcl_EvalObjv(ip, n, w, TCL_EVAL_GLOBAL);
  for(i = 0; i < n; ++i) Tcl_DecrRefCount(w[i]);
  return(st);
}
static char logs[8000]; static int nlogs;
static int c_log(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]){
  (void)c; (void)ip;
  ++nlogs;
  snprintf(logs + strlen(logs), sizeof(logs) - strlen(logs), "%s\n", Tcl_GetString(v[n - 1]));
  return(TCL_OK);
}
static int openfds(void){
  int i, n = 0;
  for(i = 3; i < 200; ++i) if(fcntl(i, F_GETFD) != -1) ++n;
  return(n);
}
static int tclchans(void){
  int n = 0;
  t_eval("set _n [llength [file channels]]");
  if(Tcl_GetIntFromObj(I_, Tcl_GetVar2Ex(I_, "_n", NULL, TCL_GLOBAL_ONLY), &n) != TCL_OK) mc_die("_n");
  return(n);
}
/* a command of the library; its status */
static int call(const char *fmt, ...) __attribute__((format(printf,1,2)));
static int call(const char *fmt, ...){
  char *b;
  int st, ch = tclchans(), fds = openfds();
  va_list ap;
  va_start(ap, fmt);
  if(vasprintf(&b, fmt, ap) < 0) abort();
  va_end(ap);
  nlogs = 0; logs[0] = 0; ran[0] = 0;
  Tcl_SetVar(I_, "errorInfo", "", TCL_GLOBAL_ONLY);
  mc_note("%s\n", b);
  st = Tcl_EvalEx(I_, b, -1, TCL_EVAL_GLOBAL);
  if(st == TCL_ERROR) Tcl_AddErrorInfo(I_, "");
  free(b);
  mc_step();
  if(getenv("MC_LOGS") && mc_replaying()) fprintf(stderr, "%s", logs);
  if(st == TCL_OK){
    Tcl_Obj *r = Tcl_GetObjResult(I_);
    Tcl_IncrRefCount(r);
    if(tclchans() != ch || openfds() != fds) mc_fail("a file is left open");
    Tcl_SetObjResult(I_, r);
    Tcl_DecrRefCount(r);
  }
  return(st);
}
static const char *res(void){ return(Tcl_GetStringResult(I_)); }
#endif
