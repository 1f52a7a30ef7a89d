/* The Tcl scripts of the tree, run in an interpreter of this process: with the
   time, the programs executed and the configuration of the harness. */
#ifndef TCLH_H
#define TCLH_H
#define _GNU_SOURCE
#include <tcl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "mc.h"

static Tcl_Interp *I_;
static long long now_;			/* the time of the scripts */
static int exited, exitcode;
static char conf_[512];			/* instead of filters.conf */

static void tgettime(Tcl_Time *t, ClientData c){ (void)c; t->sec = now_; t->usec = 0; }
static void tscale(Tcl_Time *t, ClientData c){ (void)t; (void)c; }
/* only while the scripts run: tclsh itself waits for its children with it */
static void t_virtual(void){ Tcl_SetTimeProc(tgettime, tscale, NULL); }

static int c_exit(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]){
  (void)c;
  exited = 1; exitcode = 0;
  if(n > 1) Tcl_GetIntFromObj(ip, v[1], &exitcode);
  return(TCL_BREAK);			/* at the level of the script */
}
static char *t_slurp(const char *f, long *n){
  FILE *fp = fopen(f, "r");
  char *b;
  long k;
  if(fp == NULL) return(NULL);
  fseek(fp, 0, SEEK_END); k = ftell(fp); rewind(fp);
  b = malloc(k + 1);
  if(fread(b, 1, k, fp) != (size_t)k) mc_die("read %s", f);
  b[k] = 0; fclose(fp);
  if(n) *n = k;
  return(b);
}
static char *t_sub(char *s, const char *a, const char *b){
  char *p, *r = malloc(strlen(s)*2 + 4096), *d = r;
  size_t la = strlen(a);
  while((p = strstr(s, a)) != NULL){
    memcpy(d, s, p - s); d += p - s;
    d = stpcpy(d, b);
    s = p + la;
  }
  strcpy(d, s);
  return(r);
}
static void t_eval(const char *fmt, ...) __attribute__((format(printf,1,2)));
static void t_eval(const char *fmt, ...){
  char *b;
  va_list ap;
  va_start(ap, fmt);
  if(vasprintf(&b, fmt, ap) < 0) abort();
  va_end(ap);
  if(Tcl_EvalEx(I_, b, -1, TCL_EVAL_GLOBAL) == TCL_ERROR)
    mc_die("tcl: %s: %s", b, Tcl_GetVar(I_, "errorInfo", TCL_GLOBAL_ONLY));
  free(b);
}
static Tcl_Interp *t_new(void){
  static int once;
  if(!once++) Tcl_FindExecutable("/usr/bin/tclsh");
  I_ = Tcl_CreateInterp();
  if(Tcl_Init(I_) != TCL_OK) mc_die("Tcl_Init: %s", Tcl_GetStringResult(I_));
  Tcl_CreateObjCommand(I_, "exit", c_exit, NULL, NULL);
  t_eval("set tcl_interactive 0; set argv0 script; set argv {}; set argc 0");
  return(I_);
}
/* evaluate a file of the tree as tclsh does; its status: 0, or the code of
   exit, or 1 after an error (which is in errorInfo) */
static int t_file(const char *rel){
  char p[600], *s, *r;
  int st;
  if(rel[0] == '/') snprintf(p, sizeof(p), "%s", rel);
  else snprintf(p, sizeof(p), "%s/%s", REPO_TREE, rel);
  s = t_slurp(p, NULL);
  if(s == NULL) mc_die("no %s", p);
  r = t_sub(s, "/usr/local/etc/nbsp/filters.conf", conf_);
  free(s);
  exited = 0;
  Tcl_ResetResult(I_);
  Tcl_SetVar(I_, "errorInfo", "", TCL_GLOBAL_ONLY);
  st = Tcl_EvalEx(I_, r, -1, TCL_EVAL_GLOBAL);
  free(r);
  if(exited) return(exitcode);
  if(st == TCL_ERROR) return(1);
  return(0);
}
static const char *t_err(void){
  const char *e = Tcl_GetVar(I_, "errorInfo", TCL_GLOBAL_ONLY);
  static char b[300];
  snprintf(b, sizeof(b), "%.250s", e ? e : "");
  for(char *q = b; *q; ++q) if(*q == '\n') *q = ' ';
  return(b);
}
static int t_write(const char *f, const char *fmt, ...) __attribute__((format(printf,2,3)));
static int t_write(const char *f, const char *fmt, ...){
  FILE *fp = fopen(f, "w");
  va_list ap;
  if(fp == NULL) mc_die("cannot write %s", f);
  va_start(ap, fmt);
  vfprintf(fp, fmt, ap);
  va_end(ap);
  fclose(fp);
  return(0);
}
/* start of the epoch days of a date */
static long long t_day(int y, int m, int d){
  struct tm t = { 0 };
  t.tm_year = y - 1900; t.tm_mon = m - 1; t.tm_mday = d;
  return(timegm(&t));
}
#endif
