/* The times of the scheduled tasks: nbsp::mscheduler, nbsp::hscheduler, the
   scheduler of the daemon, nbspscheduler, nbsp::periodic and the dates of the
   products (nbsp::util::date), against what their documentation says. */
#include "tclh.h"

static uint64_t oh;
static const char *TZS[] = { "UTC", "AST4", "EST5EDT,M3.2.0,M11.1.0" };
static char tz_[64];
static void settz(int k){
  strcpy(tz_, TZS[k]);
  setenv("TZ", tz_, 1); tzset();
  t_eval("set env(TZ) {%s}", tz_);
}
static void libs(void){
  static const char *L[] = { "errx", "hscheduler", "mscheduler", "util", "periodic" };
  unsigned i;
  t_eval("lappend auto_path /usr/share/tcltk/tcllib1.21");
  for(i = 0; i < sizeof(L)/sizeof(*L); ++i)
    t_eval("package ifneeded nbsp::%s 1.0 [list source %s/filters/filterlib/tcl/%s.tcl]",
	   L[i], REPO_TREE, L[i]);
  t_eval("package ifneeded nbsp::syslog 1.0 [list source %s/filters/filterlib/tcl/syslog.tcl]", REPO_TREE);
}

/* ---- specifications ---- */
/* a specification: its text, and what it asks */
static struct { char unit; int list, gmt, n, nv, v[8]; char text[128]; } S;
/* does it include this minute? (hourly: the minutes do not count) */
static int includes(int hourly, long long t){
  struct tm tm;
  time_t x = t;
  int i, key, mod = 0, w;
  if(S.gmt) gmtime_r(&x, &tm); else localtime_r(&x, &tm);
  w = hourly ? tm.tm_hour : tm.tm_hour*100 + tm.tm_min;
  switch(S.unit){
  case 'M': key = tm.tm_min; mod = tm.tm_min; break;
  case 'H':
    if(hourly) key = tm.tm_hour;
    else key = S.list ? w : tm.tm_min;
    mod = tm.tm_hour; break;
  case 'D': key = S.list ? tm.tm_mday*(hourly ? 100 : 10000) + w : w; mod = tm.tm_mday; break;
  default: key = S.list ? tm.tm_wday*(hourly ? 100 : 10000) + w : w; mod = tm.tm_wday; break;
  }
  if(S.n > 0 && mod % S.n != 0) return(0);
  if(S.nv == 0) return(1);
  for(i = 0; i < S.nv; ++i) if(S.v[i] == key) return(1);
  return(0);
}
static char *put(char *d, int v, int w){ return(d + sprintf(d, "%0*d", w, v)); }
static const int MM[] = { 0, 1, 8, 9, 10, 30, 59 };
static const int HH[] = { 0, 1, 3, 8, 9, 12, 23 };
static const int DD[] = { 1, 2, 8, 9, 10, 28, 29, 30, 31 };
#define N_(a) ((int)(sizeof(a)/sizeof(*(a))))
static void mkspec(int hourly){
  char *d = S.text;
  int i, w, units = hourly ? 3 : 4;
  memset(&S, 0, sizeof(S));
  S.unit = "MHDW"[mc_choose(units, "unit") + 4 - units];
  *d++ = S.unit;
  S.list = 0; S.n = 0;
  {
    int simple = (S.unit == (hourly ? 'H' : 'M'));
    /* "M", "M=..", "M/n"; the others have always a list */
    int form = mc_choose(simple ? 3 : 2, "form");
    if(simple && form == 0) goto end;
    if(form == (simple ? 1 : 0)){ S.list = 1; *d++ = '='; }
    if(simple && !S.list){ S.n = 1 + mc_choose(hourly ? 24 : 60, "every"); d += sprintf(d, "/%d", S.n); goto end; }
    S.nv = 1 + mc_choose(mc_tier ? 3 : 2, "entries");
    for(i = 0; i < S.nv; ++i){
      int m, h, day = -1, k = 0;
      w = 2;
      if(i) *d++ = '|';
      if(S.unit == 'M'){ m = MM[mc_choose(N_(MM), "minute")]; S.v[i] = m; d = put(d, m, 2); continue; }
      if(S.unit == 'H' && !S.list){ m = MM[mc_choose(N_(MM), "minute")]; S.v[i] = m; d = put(d, m, 2); continue; }
      if(S.list && S.unit == 'D'){ day = DD[i ? 3*mc_choose(3, "day") : mc_choose(N_(DD), "day")]; d = put(d, day, 2); }
      if(S.list && S.unit == 'W'){ day = i ? 3*mc_choose(3, "weekday") : mc_choose(7, "weekday"); d = put(d, day, 1); }
      if(hourly){
	h = HH[mc_choose(i ? 3 : N_(HH), "hour")];
	k = h; w = 2;
      }else{
	static const int HM[] = { 0, 1, 300, 930, 1200, 2359 };
	k = HM[mc_choose(i ? 3 : N_(HM), "time")]; w = 4;
      }
      S.v[i] = (day >= 0 ? day * (hourly ? 100 : 10000) : 0) + k;
      d = put(d, k, w);
    }
    if(!S.list){ S.n = 1 + mc_choose(S.unit == 'H' ? 13 : 8, "every"); d += sprintf(d, "/%d", S.n); }
  }
end:
  S.gmt = mc_choose(2, "gmt");
  if(S.gmt) *d++ = 'g';
  *d = 0;
}
static long long *TT; static int ntt;
static void mktimes(void){
  /* the interesting minutes of every day of 14 months, and all those of some days */
  static const int hm[] = { 0, 1, 8, 9, 10, 30, 59, 180, 209, 480, 540, 570, 720, 730, 1380, 1439 };
  long long d0 = t_day(2023, 12, 25), d;
  int i, k;
  TT = malloc(sizeof(*TT) * 200000);
  for(d = d0; d < t_day(2024, 3, 25); d += 86400)
    for(i = 0; i < N_(hm); ++i) TT[ntt++] = d + hm[i]*60 + (i % 60);
  static const int days[][3] = { {2024,2,29}, {2024,3,10} };
  for(k = 0; k < N_(days); ++k)
    for(i = 0; i < 1440; i += (mc_tier ? 1 : 3)) TT[ntt++] = t_day(days[k][0], days[k][1], days[k][2]) + i*60;
}
static void spec_main(int hourly){
  static Tcl_Obj *cmd;
  int i, st, r = 0, nm = 0, k;
  k = mc_choose(3, "zone");
  mkspec(hourly);
  if(I_ == NULL){
    t_new(); libs();
    t_eval("package require nbsp::mscheduler; package require nbsp::hscheduler");
    t_virtual();
  }
  settz(k);
  mc_note("%s in %s", S.text, TZS[k]);
  {
    Tcl_Obj *v[2] = { Tcl_NewStringObj(hourly ? "nbsp::hscheduler::match_timespec"
				       : "nbsp::mscheduler::match_timespec", -1),
		      Tcl_NewStringObj(S.text, -1) };
    cmd = Tcl_NewListObj(2, v);
    Tcl_IncrRefCount(cmd);
  }
  /* the zone 'k' sees other minutes: shift so that all of them see their limits */
  for(i = 0; i < ntt; ++i){
    now_ = TT[i] + (S.gmt || k == 0 ? 0 : k == 1 ? 4*3600 : 5*3600);
    int want = includes(hourly, now_);
    /* most of those that do not match are alike */
    if(!want && nm > 30 && (i % 13) != 0) continue;
    st = Tcl_EvalObjEx(I_, cmd, TCL_EVAL_GLOBAL);
    mc_step();
    if(st != TCL_OK)
      mc_fail("the specification %s is refused: %s", S.text, Tcl_GetStringResult(I_));
    if(Tcl_GetIntFromObj(I_, Tcl_GetObjResult(I_), &r) != TCL_OK)
      mc_fail("the specification %s gives %s", S.text, Tcl_GetStringResult(I_));
    if(want != r){
      struct tm tm; time_t x = now_; char b[64];
      if(S.gmt) gmtime_r(&x, &tm); else localtime_r(&x, &tm);
      strftime(b, sizeof(b), "%a %d %b %H:%M", &tm);
      mc_fail("%s (zone %s) %s %s", S.text, TZS[k], want ? "does not include" : "includes", b);
    }
    if(want) oh = mc_hashi(oh, now_), ++nm; else ++nm;
  }
  Tcl_DecrRefCount(cmd);
  mc_outcome(mc_hashs(oh, S.text));
}

/* ---- the scripts that run the schedules ---- */
/* stand-ins for exec: what would be executed */
static char ran[4000];
static const char *fails;
static int c_exec(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]){
  int i;
  const char *a0 = n > 1 ? Tcl_GetString(v[1]) : "";
  (void)c;
  if(!strcmp(a0, "logger")){ strcat(ran, "!"); return(TCL_OK); }
  for(i = 1; i < n; ++i){
    strcat(ran, i > 1 ? " " : "");
    strcat(ran, "<"); strcat(ran, Tcl_GetString(v[i])); strcat(ran, ">");
  }
  strcat(ran, ";");
  if(fails && !strcmp(a0, fails)){
    Tcl_SetObjResult(ip, Tcl_NewStringObj("child process exited abnormally", -1));
    return(TCL_ERROR);
  }
  return(TCL_OK);
}
static int c_puts(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]){
  (void)c; (void)ip; (void)n; (void)v;
  strcat(ran, "!");
  return(TCL_OK);
}
static int c_periodic(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]);
static void fresh(void){
  if(I_) Tcl_DeleteInterp(I_);
  Tcl_SetTimeProc(NULL, NULL, NULL);
  t_new(); libs();
  Tcl_CreateObjCommand(I_, "exec", c_exec, NULL, NULL);
  Tcl_CreateObjCommand(I_, "puts", c_puts, NULL, NULL);
  Tcl_CreateObjCommand(I_, "task", c_periodic, NULL, NULL);
  t_virtual();
  ran[0] = 0; fails = NULL;
}
static char dirs[3][512];
static void confdirs(void){
  int i;
  static const char *sub[] = { "", "/defaults", "/site" };
  for(i = 0; i < 3; ++i){
    snprintf(dirs[i], sizeof(dirs[i]), "%s/conf%s", mc_scratch, sub[i]);
    mkdir(dirs[i], 0755);
  }
  snprintf(conf_, sizeof(conf_), "%s/filters.conf", dirs[0]);
  t_write(conf_, "set common(confdir) %s\nset common(localconfdirs) [list %s %s]\n",
	  dirs[0], dirs[1], dirs[2]);
}
/* the lines of a schedule, and what they execute (in this minute: Thu 7 Mar
   2024, 12:30 UTC) and at how many messages */
static const struct { const char *m, *h, *out; int msgs; } LN[] = {
  { "schedule M p1 -a {b c} &", "schedule H p1 -a {b c} &", "<p1> <-a> <b c> <&>;", 0 },
  { "schedule M=29|31 p2", "schedule H=11|13 p2", "", 0 },
  { "schedule H=1230g p3 $v(x)", "schedule H=12g p3 $v(x)", "<p3> <y z>;", 0 },
  { "schedule bad p4", "schedule bad p4", "", 1 },
  { "schedule M pf x", "schedule H pf x", "<pf> <x>;", 1 },
  { "schedule M/0 p5", "schedule H/0 p5", "", 1 },
  { "schedule W41230 p6", "schedule W412 p6", "", 1 },
  { "schedule D=071230 p7", "schedule D=0712 p7", "<p7>;", 0 },
  { "schedule W=41230g p8", "schedule W=412g p8", "<p8>;", 0 },
  { "schedule M= p9", "schedule Q=1 p9", NULL, 0 },
  { "schedule M p11 [::nbsp::util::get_var q]", "schedule H p11 [::nbsp::util::get_var q]", "<p11> <a=b c>;", 0 },
  { "foreach h {1 2} { schedule M/3 p10 $h }", "foreach h {1 2} { schedule H/3 p10 $h }", "<p10> <1>;<p10> <2>;", 0 },
};
static void script_main(void){
  static const char *names[] = { "scheduler.conf", "sched.rc" };
  int prog = mc_choose(4, "program");	/* scheduler, nbspscheduler -m, -h, and none */
  int hourly = prog >= 2, st, i, k, n, where, msgs = 0;
  char want[1000] = "", text[2000] = "set v(x) {y z}\n", f[600];
  int files = mc_choose(8, "files");
  int f_ = 0, v_ = 0;
  now_ = t_day(2024, 3, 7) + 12*3600 + 30*60 + 17;
  fresh(); settz(0);
  confdirs();
  n = 1 + mc_choose(mc_tier ? 3 : 2, "lines");
  if(files != 7 && files != 2) n = 1;
  for(i = 0; i < n; ++i){
    k = mc_choose(N_(LN), "line");
    if(LN[k].out == NULL && !hourly) k = 0;
    if(prog == 0 && strstr(LN[k].m, "get_var")) k = 0;
    sprintf(text + strlen(text), "%s\n", hourly ? LN[k].h : LN[k].m);
    if(LN[k].out) strcat(want, LN[k].out), msgs += LN[k].msgs;
    else ++msgs;
  }
  fails = "pf";
  if(prog > 0 && files == 2){ f_ = mc_choose(2, "-f"); v_ = mc_choose(2, "-v"); }
  /* the last one found is used; the others would be seen */
  for(where = -1, i = 0; i < 3; ++i){
    snprintf(f, sizeof(f), "%s/%s", dirs[i], names[prog > 0]);
    unlink(f);
    if(files & (1 << i)){
      where = i;
      t_write(f, "schedule %s other%d\n", hourly ? "H" : "M", i);
    }
  }
  if(f_ && where >= 0){
    /* -f: the file given, not another of its name */
    where = 0;
    if(!(files & 1)) where = -1;
  }
  if(where >= 0){
    snprintf(f, sizeof(f), "%s/%s", dirs[where], names[prog > 0]);
    t_write(f, "%s", text);
  }
  mc_note("%d files %x -f %d -v %d: %s", prog, files, f_, v_, text);
  if(prog == 0) st = t_file("filters/scheduler/tcl/scheduler.tcl");
  else{
    t_eval("set argv [list %s %s %s -M {q=a=b c} %s/%s]; set argc [llength $argv]", prog == 1 ? "-m" : prog == 2 ? "-h" : "",
	   f_ ? "-f" : "", v_ ? "-v" : "", dirs[0], names[1]);
    st = t_file("filters/scheduler/tcl/nbspscheduler.tcl");
  }
  mc_step();
  /* the messages are not in order with the programs */
  {
    char *a = ran, *b = ran;
    int m = 0;
    for(; *a; ++a) if(*a == '!') ++m; else *b++ = *a;
    *b = 0;
    if(where < 0){
      if(ran[0]) mc_fail("no schedule, and it executes %s", ran);
      if(m == 0) mc_fail("no schedule, and it does not say it");
    }else{
      if(strcmp(ran, want)) mc_fail("executes %s instead of %s (status %d, %s)", ran, want, st, t_err());
      if(!v_ && m != msgs) mc_fail("%d messages instead of %d", m, msgs);
      if(st != 0) mc_fail("ends with status %d: %s", st, t_err());
    }
  }
  mc_outcome(mc_hashs(MC_H0, ran));
}

/* ---- nbsp::periodic ---- */
static struct { const char *period; int secs; long long last; int count; } PT[4];
static int npt, throwing = -1;
static int c_periodic(ClientData c, Tcl_Interp *ip, int n, Tcl_Obj *const v[]){
  int k = 0;
  (void)c;
  if(n != 2 || Tcl_GetIntFromObj(ip, v[1], &k) != TCL_OK || k < 0 || k >= npt) mc_die("task");
  PT[k].last = now_;
  PT[k].count++;
  if(k == throwing){
    Tcl_SetObjResult(ip, Tcl_NewStringObj("failure", -1));
    return(TCL_ERROR);
  }
  return(TCL_OK);
}
/* the first instant of the period after that of t */
static long long nextof(int k, long long t){
  struct tm tm;
  time_t x = t;
  localtime_r(&x, &tm);
  if(PT[k].secs > 0) return(t + PT[k].secs);
  tm.tm_sec = 0;
  if(PT[k].secs == 0) return(t - x % 60 + 60);
  if(PT[k].secs == -1) return(t - (tm.tm_min*60 + (t % 60)) + 3600);
  tm.tm_hour = tm.tm_min = 0; tm.tm_mday += 1; tm.tm_isdst = -1;
  return(mktime(&tm));
}
static void periodic_main(void){
  static const char *PN[] = { "minutely", "hourly", "daily", "120", "3600" };
  static const int PS[] = { 0, -1, -2, 120, 3600 };
  static const int step[] = { 60, 1, 7, 3600, 59 };
  int i, j, st, zd = mc_choose(9, "zone, day"), zone = zd % 3;
  int day = zd / 3, start = mc_choose(mc_tier ? 6 : 4, "start");
  static const int at[] = { 0, 43245, 82799, 59, 43200, 86399 };
  int sk = mc_choose(mc_tier ? 5 : 4, "step");
  long long due[4], t;
  npt = 1 + mc_choose(2, "tasks");
  fresh(); settz(zone);
  for(i = 0; i < npt; ++i){
    int p = mc_choose(N_(PN) - !mc_tier, "period");
    PT[i].period = PN[p]; PT[i].secs = PS[p]; PT[i].count = 0;
  }
  throwing = npt > 1 ? mc_choose(2, "fails") - 1 : -1;
  now_ = t = (day == 0 ? t_day(2024, 3, 10) : day == 1 ? t_day(2024, 11, 3) : t_day(2023, 12, 31)) + at[start];
  t_eval("package require nbsp::periodic; ::nbsp::syslog::usesyslog 1");
  for(i = 0; i < npt; ++i){
    t_eval("::nbsp::periodic::register {task %d} %s", i, PT[i].period);
    due[i] = nextof(i, t);
  }
  mc_note("zone %s, from %lld, calls each %d s, %s %s, fails %d", TZS[zone], t, step[sk], PT[0].period,
	  npt > 1 ? PT[1].period : "", throwing);
  {
    /* long enough to see a day go by; or, with short steps, the limit of an
       hour, reached by a jump */
    long long span = step[sk] == 3600 ? 3*86400 : step[sk] >= 59 ? (mc_tier ? 2*86400 : 30*3600) : 400;
    for(j = 0; (long long)j*step[sk] < span; ++j){
      int c[4];
      now_ += step[sk];
      for(i = 0; i < npt; ++i) c[i] = PT[i].count;
      st = Tcl_EvalEx(I_, "::nbsp::periodic::run", -1, TCL_EVAL_GLOBAL);
      mc_step();
      if(st != TCL_OK) mc_fail("run: %s", Tcl_GetStringResult(I_));
      for(i = 0; i < npt; ++i){
	int r = PT[i].count - c[i];
	/* with the granularity of a minute, which is that of the package */
	if(r > 1) mc_fail("%s runs %d times at once", PT[i].period, r);
	if(r == 1 && now_ < due[i])
	  mc_fail("%s runs %lld seconds before its time", PT[i].period, due[i] - now_);
	if(r == 0 && now_ >= due[i] + (PT[i].secs > 0 || 1 ? 60 : 0) + step[sk] - 1 && PT[i].secs > 0)
	  mc_fail("%s does not run %lld seconds after its time", PT[i].period, now_ - due[i]);
	if(r == 0 && now_ >= due[i] && PT[i].secs <= 0)
	  mc_fail("%s does not run at its time: %lld seconds", PT[i].period, now_ - due[i]);
	if(r == 1) due[i] = nextof(i, now_);
      }
    }
  }
  for(i = 0; i < npt; ++i) oh = mc_hashi(oh, PT[i].count);
  mc_outcome(oh);
}

/* ---- the date of a product from its day, hour and minute ---- */
static int mdays(int y, int m){
  static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
  return(m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 29 : d[m - 1]);
}
static void guess_main(void){
  static const int ym[][2] = { {2023,12}, {2024,1}, {2024,2}, {2024,3}, {2023,2}, {2023,3}, {2024,4},
			       {2024,5}, {2000,2}, {2100,2}, {2023,8}, {2023,9} };
  int k = mc_choose(N_(ym), "month"), day = mc_choose(31, "day") + 1, hm = mc_choose(4, "time"), d, h;
  int zone = mc_choose(2, "zone");
  static const int HMS[] = { 0, 43200, 29999, 86399 };
  char b[100];
  if(day > mdays(ym[k][0], ym[k][1])) day = mdays(ym[k][0], ym[k][1]);
  if(I_ == NULL){ t_new(); libs(); t_eval("package require nbsp::util"); t_virtual(); }
  settz(zone);
  now_ = t_day(ym[k][0], ym[k][1], day) + HMS[hm];
  for(d = 1; d <= 31; ++d)
    for(h = 0; h < 4; ++h){
      static const int HM[][2] = { {0,0}, {8,9}, {12,0}, {23,59} };
      long long best = -1, got = 0;
      int m;
      for(m = -1; m <= 1; ++m){
	int y = ym[k][0], mm = ym[k][1] + m;
	long long c;
	if(mm == 0){ mm = 12; --y; }
	if(mm == 13){ mm = 1; ++y; }
	if(d > mdays(y, mm)) continue;
	c = t_day(y, mm, d) + HM[h][0]*3600 + HM[h][1]*60;
	if(best < 0 || llabs(c - now_) < llabs(best - now_)) best = c;
      }
      snprintf(b, sizeof(b), "::nbsp::util::date::clock_seconds %02d%02d%02d", d, HM[h][0], HM[h][1]);
      if(best < 0) mc_die("no candidate");
      if(Tcl_EvalEx(I_, b, -1, TCL_EVAL_GLOBAL) != TCL_OK)
	mc_fail("%s: %s", b, Tcl_GetStringResult(I_));
      Tcl_Obj *o = Tcl_GetObjResult(I_);
      Tcl_WideInt w;
      if(Tcl_GetWideIntFromObj(I_, o, &w) != TCL_OK) mc_fail("%s gives %s", b, Tcl_GetString(o));
      got = w;
      mc_step();
      if(llabs(got - now_) != llabs(best - now_))
	mc_fail("%s on %d-%02d-%02d (+%d s) is %lld, instead of %lld", b, ym[k][0], ym[k][1], day, HMS[hm], got, best);
      oh = mc_hashi(oh, got);
    }
  /* not a date: the present */
  for(h = 0; h < 3; ++h){
    snprintf(b, sizeof(b), "::nbsp::util::date::clock_seconds {%s}", (const char *[]){ "", "ab", "12345" }[h]);
    if(Tcl_EvalEx(I_, b, -1, TCL_EVAL_GLOBAL) != TCL_OK || atoll(Tcl_GetStringResult(I_)) != now_)
      mc_fail("%s gives %s", b, Tcl_GetStringResult(I_));
  }
  mc_outcome(oh);
}

static void init(void){ mktimes(); }
static void body(void){
  oh = MC_H0;
  if(!strcmp(mc_arg, "mspec")) spec_main(0);
  else if(!strcmp(mc_arg, "hspec")) spec_main(1);
  else if(!strcmp(mc_arg, "script")) script_main();
  else if(!strcmp(mc_arg, "periodic")) periodic_main();
  else if(!strcmp(mc_arg, "guess")) guess_main();
  else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 120, 0, 0 };
  return(mc_main(argc, argv, &o, init, body));
}
