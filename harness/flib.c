/*
 * C31: the library of the filters (filters.lib, filters-gribid.lib, util.tcl,
 * with their configuration), in an interpreter of this process. The programs
 * that the library executes are the real ones, in this process too.
 */
#include "flt.h"
#undef _GNU_SOURCE
#include "tclh.h"
TOOL_DECL(nbspgrib); TOOL_DECL(nbspgrib2); TOOL_DECL(nbspradinfo);
TOOL_DECL(nbsprad2info); TOOL_DECL(nbspunz); TOOL_DECL(nbspfile); TOOL_DECL(nbsppipe);
static struct tool_prog T[] = { TOOL_PROG(nbspgrib), TOOL_PROG(nbspgrib2),
  TOOL_PROG(nbspradinfo), TOOL_PROG(nbsprad2info), TOOL_PROG(nbspunz),
  TOOL_PROG(nbspfile), TOOL_PROG(nbsppipe) };
#define NT ((int)(sizeof(T)/sizeof(*T)))
#define N_(a) ((int)(sizeof(a)/sizeof(*(a))))

#include "tclx.h"
static void interp(void){
  static char gone_[600];
  if(I_) return;
  t_new();
  t_eval("lappend auto_path /usr/share/tcltk/tcllib1.21; package require fileutil; package require cmdline");
  t_eval("set env(TZ) UTC; clock format 0 -gmt true -format {%%Y%%m%%d%%H%%M}; "
	 "rename exec _exec0; rename open _open0");
  Tcl_CreateObjCommand(I_, "exec", c_exec, NULL, NULL);
  Tcl_CreateObjCommand(I_, "open", c_open, NULL, NULL);
  Tcl_CreateObjCommand(I_, "log_msg", c_log, NULL, NULL);
  Tcl_CreateObjCommand(I_, "log_radinfo_msg", c_log, NULL, NULL);
  /* neither has a configuration of this machine */
  snprintf(gone_, sizeof(gone_), "%s/none", mc_scratch);
  {
    char *s, *r, p[600];
    snprintf(p, sizeof(p), "%s/filters/filterlib/tcl/filters.conf.in", REPO_TREE);
    if((s = t_slurp(p, NULL)) == NULL) mc_die("filters.conf.in");
    r = t_sub(s, "/usr/local", gone_);
    if(Tcl_EvalEx(I_, r, -1, TCL_EVAL_GLOBAL) == TCL_ERROR)
      mc_fail("filters.conf: %s", Tcl_GetVar(I_, "errorInfo", TCL_GLOBAL_ONLY));
    free(s); free(r);
  }
  if(t_file("filters/filterlib/tcl/util.tcl") || t_file("filters/filterlib/tcl/filters.lib") ||
     t_file("filters/filterlib/tcl/filters-gribid.lib") ||
     t_file("filters/filterlib/tcl/filters-gribid.def")) mc_fail("cannot be loaded: %s", t_err());
}
/* ---- the values expected ---- */
#define NK 90
static struct { const char *k; char v[600]; } K[NK]; static int nk;
static const char *KEYS[] = { "seq", "type", "cat", "code", "npchidx", "fname", "fpath",
  "metadata", "meta,fsize", "fpathout", "fbasename", "station", "wmoid", "wmoid1", "wmoid2", "awips",
  "awips1", "awips2", "nawips", "wmotime", "WMOHEADER", "STATION", "WMOID", "WMOID1",
  "WMOID2", "AWIPS", "AWIPS1", "AWIPS2", "NAWIPS", "body", "seconds", "gribcenternum",
  "gribsubcnum", "gribmodelnum", "gribmodel", "gribmodelldm", "gribmodelgridldm",
  "gribreftime", "gribymdh", "gribymd", "gribforecasttimeu", "gribforecasttime1",
  "gribforecasttime2", "gribforecasttimeri", "gribforecasttime", "gribforecasttimev",
  "gribforecasttimehhh", "radlat", "radlon", "radheight", "radseconds", "radmode", "radcode",
  "rad2seconds", "rad2site", "satsource", "satcreatingentity", "satsector", "satchannel",
  "satres", "satseconds", "ymdhm", "yyyy", "m", "d", "H", "M", "ymd", "hm", "ymd_hm", "ymd_h",
  "ymdh", "ym", "txtflag", "gribedition", "gribstatus", "gribgrid" };
static void expect(const char *k, const char *f, ...) __attribute__((format(printf,2,3)));
static void expect(const char *k, const char *f, ...){
  int i;
  va_list ap;
  for(i = 0; i < nk && strcmp(K[i].k, k); ++i) ;
  if(i == nk) mc_die("key %s", k);
  va_start(ap, f);
  vsnprintf(K[i].v, sizeof(K[i].v), f, ap);
  va_end(ap);
}
static const char *val(const char *k){
  int i;
  for(i = 0; i < nk && strcmp(K[i].k, k); ++i) ;
  return(i < nk ? K[i].v : "?");
}
static void upper(const char *to, const char *from){
  char b[600]; int i;
  strcpy(b, val(from));
  for(i = 0; b[i]; ++i) if(b[i] >= 'a' && b[i] <= 'z') b[i] = (char)(b[i] - 32);
  expect(to, "%s", b);
}
static void expect_none(void){
  for(nk = 0; nk < N_(KEYS); ++nk){ K[nk].k = KEYS[nk]; K[nk].v[0] = 0; }
  expect("txtflag", "0"); expect("gribedition", "0"); expect("gribstatus", "0"); expect("gribgrid", "0");
}
static void expect_seconds(long long s){
  time_t t = s;
  struct tm m;
  char b[40];
  gmtime_r(&t, &m);
  expect("seconds", "%lld", s);
#define F(k, f) strftime(b, sizeof(b), f, &m); expect(k, "%s", b)
  F("ymdhm", "%Y%m%d%H%M"); F("yyyy", "%Y"); F("m", "%m"); F("d", "%d"); F("H", "%H"); F("M", "%M");
  F("ymd", "%Y%m%d"); F("hm", "%H%M"); F("ymd_hm", "%Y%m%d_%H%M"); F("ymd_h", "%Y%m%d_%H");
  F("ymdh", "%Y%m%d%H"); F("ym", "%Y%m");
#undef F
}
static int ptype = 1, pcat = 2, pcode = 3, pch = 4; static long pseq = 123456;
static char pname[100], pbase[200], pmeta[60];
/* its name: station, wmoid, the rest ("", "-awips", "+nawips"); the time is that
   of the product when it has one */
static void expect_name(const char *st, const char *wmo, const char *rest, const char *time_){
  expect("seq", "%ld", pseq); expect("type", "%d", ptype); expect("cat", "%d", pcat);
  expect("code", "%d", pcode); expect("npchidx", "%d", pch);
  expect("fname", "%s", pname); expect("fpath", "%s", P_(pbase)); expect("fbasename", "%s", pbase);
  expect("metadata", "%s", pmeta);
  if(pmeta[0]) expect("meta,fsize", "%.*s", (int)strcspn(pmeta, ":"), pmeta);
  expect("station", "%s", st);
  expect("wmoid", "%s", wmo);
  expect("wmoid1", "%.3s", wmo); expect("wmoid2", "%s", strlen(wmo) > 3 ? wmo + 3 : "");
  if(rest[0] == '-'){
    expect("awips", "%s", rest + 1);
    expect("awips1", "%.3s", rest + 1);
    expect("awips2", "%s", strlen(rest + 1) > 3 ? rest + 4 : "");
  }else if(rest[0] == '+') expect("nawips", "%s", rest + 1);
  upper("STATION", "station"); upper("WMOID", "wmoid"); upper("WMOID1", "wmoid1"); upper("WMOID2", "wmoid2");
  upper("AWIPS", "awips"); upper("AWIPS1", "awips1"); upper("AWIPS2", "awips2"); upper("NAWIPS", "nawips");
  if(time_[0]){
    char h[600];
    expect("wmotime", "%s", time_);
    snprintf(h, sizeof(h), "%s %s %s", val("WMOID"), val("STATION"), time_);
    expect("WMOHEADER", "%s", h);
  }
}
static int anybody;			/* do not look at the body */
static unsigned char wbody[600]; static int nwbody;
static void compare(const char *what){
  int i, n;
  for(i = 0; i < nk; ++i){
    Tcl_Obj *o = Tcl_GetVar2Ex(I_, "rc", K[i].k, TCL_GLOBAL_ONLY);
    if(o == NULL) mc_fail("%s: rc(%s) is not set", what, K[i].k);
    if(!strcmp(K[i].k, "body")){
      unsigned char *b = Tcl_GetByteArrayFromObj(o, &n);
      if(!anybody && (n != nwbody || memcmp(b, wbody, n)))
	mc_fail("%s: rc(body) has %d bytes, should be the first %d", what, n, nwbody);
      continue;
    }
    if(!strcmp(K[i].k, "txtflag") && anybody) continue;
    if(strcmp(Tcl_GetString(o), K[i].v))
      mc_fail("%s: rc(%s) is %s, should be %s", what, K[i].k, Tcl_GetString(o), K[i].v);
    oh = mc_hash(oh, K[i].v, strlen(K[i].v));
  }
}
static void product(const char *st, const char *wmo, const char *rest, const char *tail){
  snprintf(pname, sizeof(pname), "%s%s%s%s", st, wmo[0] ? "_" : "", wmo, rest);
  snprintf(pbase, sizeof(pbase), "%s%s", pname, tail);
}
static int rcvars(const char *flags){
  return(call("filterlib_get_rcvars rc {%ld %d %d %d %d %s %s%s%s} %s", pseq, ptype, pcat, pcode, pch,
	      pname, P_(pbase), pmeta[0] ? " " : "", pmeta, flags));
}
static void pbody(const void *b, int n){ nenv_writefile(P_(pbase), b, n); }
static void reset(void){
  static char g_[600];
  flt_reset();
  interp();
  ptype = 1; pcat = 2; pcode = 3; pch = 4; pseq = 123456; pmeta[0] = 0; anybody = 0; nwbody = 0;
  now_ = t_day(2024, 3, 7) + 12*3600;
  snprintf(g_, sizeof(g_), "unset -nocomplain rc; set filterslib(ccbsaved) 1");
  t_eval("%s", g_);
  t_virtual();
}
static const char TEXT[] = "TTAA00 KWBC 071200\r\r\nAFDSJU\r\r\nSome text.\r\r\n";
static const char CCB[] = "\001\002CCB\0\0\0\377CCB CCB CCB CCB .";	/* 24 */
static void names_main(void){
  static const char *ST[] = { "kwbc", "tjsj", "a1b2c3" };
  static const char *WMO[] = { "noaa11", "sdus52", "tius01", "ixtx99", "level2", "x9" };
  static const char *REST[] = { "", "-afdsju", "-ptajua", "-nmdabc", "-abc", "-x", "+grib", "+bufr" };
  static const char *TIMES[] = { "071159", "070000", "292359", "" };
  static const char *TAIL[] = { ".%s_123456", ".%s_7.txt", ".%s_123456-1", ".x%s" };
  static const long long off[] = { 12*3600 - 60, 0, 86400 - 60 };
  int first = mc_choose(3, "before"), s, w, r, t, k, m, nobody;
  char tail[40];
  reset();
  if(first){
    product("kwbe", "yeus85", first == 1 ? "+grib" : "-afdsju", ".061234_99");
    strcpy(pmeta, "777:1"); pbody(TEXT, sizeof(TEXT) - 1);
    if(rcvars("-noccb") != TCL_OK) mc_fail("error: %s", t_err());
    pmeta[0] = 0;
  }
  s = mc_choose(N_(ST), "station"); w = mc_choose(N_(WMO), "wmoid"); r = mc_choose(N_(REST), "rest");
  t = mc_choose(N_(TIMES), "time"); k = t == 3 ? 3 : mc_choose(3, "form");
  m = mc_choose(3, "metadata"); nobody = mc_choose(2, "-nobody");
  snprintf(tail, sizeof(tail), TAIL[k], TIMES[t]);
  product(ST[s], WMO[w], REST[r], tail);
  if(m) strcpy(pmeta, m == 1 ? "5120" : "0:x:y");
  ptype = 5 + m; pcat = 7; pcode = 0; pch = 3; pseq = 4294967295L;
  expect_none();
  expect_name(ST[s], WMO[w], REST[r], TIMES[t]);
  if(t == 3) expect_seconds(now_);
  else expect_seconds((t == 2 ? t_day(2024, 2, 29) : t_day(2024, 3, 7)) + (t == 2 ? 86400 - 60 : off[t]));
  pbody(TEXT, sizeof(TEXT) - 1);
  if(!nobody && w != 1 && w != 2 && w != 3 && REST[r][0] != '+'){
    nwbody = sizeof(TEXT) - 1; memcpy(wbody, TEXT, nwbody);
    expect("txtflag", "1");
  }
  if(rcvars(nobody ? "-nobody -noccb" : "-noccb") != TCL_OK) mc_fail("error: %s", t_err());
  compare(pname);
  if(ran[0]) mc_fail("%s was executed", ran);
  mc_outcome(oh);
}
static void body_main(void){
  static const int LEN[] = { 0, 1, 23, 24, 25, 26, 60, 511, 512, 513, 536, 537, 2000 };
  int ccb = mc_choose(3, "ccb"), n, i, pos, skip = ccb == 0 ? 24 : 0, txt, v = -1, at = -1;
  unsigned char b[2100];
  reset();
  if(ccb == 1) t_eval("set filterslib(ccbsaved) 0");
  product("kwbc", "noaa11", "-afdsju", ".071200_5");
  n = LEN[mc_choose(N_(LEN), "size")];
  for(i = 0; i < n; ++i) b[i] = (unsigned char)"Text of A 1.\r\n\t"[i % 15];
  for(i = 0; i < skip && i < n; ++i) b[i] = (unsigned char)CCB[i];
  pos = mc_choose(7, "where");
  if(pos){
    /* the first, the last, one in the middle, the limits of the part read, in the ccb */
    at = (int[]){ 0, skip, n - 1, n/2, 511, 512, 5 }[pos];
    if(at >= 0 && at < n){
      v = mc_choose(256, "byte");
      b[at] = (unsigned char)v;
    }else at = -1;
  }
  if(pos == 0 && mc_choose(2, "no file")) n = -1;
  expect_none();
  expect_name("kwbc", "noaa11", "-afdsju", "071200");
  expect_seconds(now_);
  if(n >= 0) pbody(b, n); else unlink(P_(pbase));
  nwbody = n < 0 ? 0 : n > 512 ? 512 : n;
  memcpy(wbody, b, nwbody);
  txt = nwbody > skip;
  for(i = skip; i < nwbody; ++i){
    int c = b[i];
    if(!((c > 32 && c < 127) || c == ' ' || (c >= 9 && c <= 13) || c == 1 || c == 3 || c == 0x1e || c == 0x17))
      txt = 0;
  }
  /* the characters outside of ascii are not defined */
  if(v >= 128 && at >= skip && at < nwbody){
    t_eval("unset -nocomplain rc");
    if(rcvars(ccb == 2 ? "-noccb" : "") != TCL_OK) mc_fail("error: %s", t_err());
    txt = atoi(Tcl_GetVar2(I_, "rc", "txtflag", TCL_GLOBAL_ONLY));
    if(nwbody <= skip && txt) mc_fail("nothing is text");
  }
  expect("txtflag", "%d", txt);
  if(rcvars(ccb == 2 ? "-noccb" : "") != TCL_OK) mc_fail("error: %s", t_err());
  compare("body");
  if((n < 0) != (nlogs > 0)) mc_fail("%d messages: %s", nlogs, logs);
  mc_outcome(oh);
}
static void put(unsigned v, int n){
  while(n-- > 0){ unsigned char c = (unsigned char)(v >> (8*n)); iput(&c, 1); }
}
static void zframe(int from){
  static unsigned char z[200000];
  uLongf l = sizeof(z);
  if(compress2(z, &l, in_ + from, nin - from, 9) != Z_OK) mc_die("compress2");
  nin = from; iput(z, (int)l);
}
/* a radar product; how: 0 as it is, 1 with the header compressed, 2 cut, 3 not
   a radar product, 4 none at all, 5 compressed and damaged */
static void radfile(int ccb, int how, int k){
  int from, i;
  nin = 0;
  if(ccb) iput(CCB, 24);
  iput("SDUS54 KSJT 071155\r\r\nN0RSJT\r\r\n", 30);
  if(how == 1 || how == 5){
    from = nin;
    if(ccb) iput(CCB, 24);
    iput("SDUS54 KSJT 071155\r\r\nN0RSJT\r\r\n", 30);
  }else from = 0;
  put(19, 2); put(k ? 18001 : 19789, 2); put(k ? 86399 : 42901, 4); put(220, 4);
  put(300, 2); put(0, 2); put(3, 2); put(0xffff, 2);
  put(k ? (unsigned)-31371 : 18116, 4); put(k ? 100492 : (unsigned)-66078, 4);
  put(k ? 1903 : 2845, 2); put(k ? 94 : 19, 2); put(k ? 1 : 2, 2);
  for(i = 34; i < 120; ++i) put((unsigned)i, 1);
  for(i = 0; i < 100; ++i) put('d', 1);
  if(how == 1 || how == 5){ zframe(from); iput("x\332 more", 7); }
  if(how == 2) nin = 100;
  if(how == 3) for(i = 24; i < nin; ++i) in_[i] = 'A';
  if(how == 5) in_[from + 20] ^= 0x55, in_[from + 21] ^= 0xff, nin -= 30;
  if(how == 4) unlink(P_(pbase));
  else pbody(in_, nin);
}
static void rad_main(void){
  static const char *REST[] = { "-n0rsjt", "-nmdsjt", "", "-n0x", "-anmdsj" };
  int w = mc_choose(8, "wmoid"), r = mc_choose(N_(REST), "rest"), dorad = mc_choose(2, "-dorad");
  int ccb = mc_choose(3, "ccb"), how, k, first, useful;
  char wmo[20], flags[60];
  reset();
  sprintf(wmo, w == 7 ? "noaa54" : "sdus%d4", w + 2);
  how = mc_choose(6, "file"); k = mc_choose(2, "values");
  first = mc_choose(2, "before");
  snprintf(flags, sizeof(flags), "%s%s", dorad ? "-dorad " : "", ccb == 2 ? "-noccb" : "");
  if(ccb == 1) t_eval("set filterslib(ccbsaved) 0");
  if(first){				/* another of those, complete */
    product("tjsj", "sdus32", "-n0qjua", ".071111_4");
    radfile(ccb == 0, 0, 1 - k);
    if(rcvars("-dorad") != TCL_OK) mc_fail("error: %s", t_err());
  }
  product("ksjt", wmo, REST[r], ".071155_5");
  radfile(ccb == 0, how, k);
  expect_none();
  anybody = w == 7;
  expect_name("ksjt", wmo, REST[r], "071155");
  expect_seconds(now_ - 300);
  useful = dorad && (w == 0 || w == 1 || w == 3 || w == 5 || w == 6) && r != 1;
  if(useful && how < 2){
    long long s = k ? 18000*86400LL + 86399 : 19788*86400LL + 42901;
    expect("radlat", "%s", k ? "-31.371" : "18.116"); expect("radlon", "%s", k ? "100.492" : "-66.078");
    expect("radheight", "%s", k ? "1903" : "2845"); expect("radseconds", "%lld", s);
    expect("radmode", "%s", k ? "1" : "2"); expect("radcode", "%s", k ? "94" : "19");
    expect_seconds(s);
  }
  if(rcvars(flags) != TCL_OK) mc_fail("error: %s", t_err());
  compare(wmo);
  if(useful && how >= 2 && nlogs == 0) mc_fail("that it has no data of the radar is not reported");
  if(!useful && ran[0]) mc_fail("%s was executed", ran);
  mc_outcome(oh);
}
static void rad2_main(void){
  int dorad = mc_choose(2, "-dorad"), how = mc_choose(3, "file"), k = mc_choose(2, "values");
  static const char *WMO[] = { "level2", "level2x", "xlevel2", "level3" };
  int w = mc_choose(4, "wmoid");
  unsigned jd = k ? 14680 : 19790, ms = k ? 61966123 : 43199999;
  reset();
  product("tjua", WMO[w], k ? "-tjua" : "", ".071155_6");
  nin = 0;
  iput("AR2V0006.137", 12); put(jd, 4); put(ms, 4); iput("TJUA", 4); iput("data data", 9);
  if(how == 1) nin = 20;
  if(how == 2) unlink(P_(pbase)); else pbody(in_, nin);
  expect_none();
  expect_name("tjua", WMO[w], k ? "-tjua" : "", "071155");
  expect_seconds(now_ - 300);
  if(dorad && w < 2 && how == 0){
    expect("rad2seconds", "%u", (jd - 1)*86400 + ms/1000); expect("rad2site", "tjua");
    expect_seconds((jd - 1)*86400 + ms/1000);
  }
  if(rcvars(dorad ? "-nobody -dorad" : "-nobody") != TCL_OK) mc_fail("error: %s", t_err());
  compare("level2");
  mc_outcome(oh);
}
/* a GRIB product, as received */
static void gribfile(int ccb, int ed, unsigned c, unsigned s, unsigned m, unsigned g, unsigned u, unsigned p1,
		     unsigned p2, unsigned tri){
  int i;
  nin = 0;
  if(ccb) iput(CCB, 24);
  iput("YEUS85 KWBC 071155\r\r\n", 21);
  if(ed == 2){
    iput("GRIB", 4); put(2, 4); put(0, 4); put(999, 4);
    put(21, 4); put(1, 1); put(c, 2); put(s, 2); put(2, 1); put(1, 1); put(1, 1); put(2024, 2);
    put(3, 1); put(7, 1); put(6, 1); put(30, 1); put(0, 1); put(0, 1); put(1, 1);
    put(34, 4); put(4, 1); put(0, 2); put(0, 2); put(0, 2); put(2, 1); put(0, 1); put(m, 1); put(0, 2); put(0, 1);
    put(u, 1); put(p1, 4);
    while(nin % 2) put(0, 1);
    for(i = 0; i < 60; ++i) put(0, 1);
  }else{
    iput("GRIB", 4); put(1234, 3); put((unsigned)ed, 1);
    put(28, 3); put(2, 1); put(c, 1); put(m, 1); put(g, 1); put(0, 2); put(0, 1); put(0, 2);
    put(24, 1); put(3, 1); put(7, 1); put(6, 1); put(30, 1); put(u, 1); put(p1, 1); put(p2, 1); put(tri, 1);
    put(0, 3); put(21, 1); put(s, 1); put(0, 2);
    iput("more data more data", 19);
  }
}
static const char *tab(const char *f, ...) __attribute__((format(printf,1,2)));
static const char *tab(const char *f, ...){
  char k[200];
  va_list ap;
  va_start(ap, f); vsnprintf(k, sizeof(k), f, ap); va_end(ap);
  return(Tcl_GetVar2(I_, "filtersgribid", k, TCL_GLOBAL_ONLY));
}
static void expect_grib(int ed, const char *st, const char *wmo, unsigned c, unsigned s, unsigned m, unsigned g,
			const char *u, unsigned p1, unsigned p2, unsigned tri){
  const char *x, *t1 = strchr("lmyz", wmo[0]) ? "yz" : NULL;
  char b[20], grid[20], ldm[100];
  unsigned v;
  expect("gribedition", "%d", ed);
  if(!(x = tab("model,%u,%s", c, st)) && !(x = tab("model,%u,%u,%u", c, s, m)) && !(x = tab("model,%u,%u", c, m)) &&
     !(x = tab("subc,%u,%u", c, s)) && !(x = tab("subc,%u,%s", c, st))){
    snprintf(b, sizeof(b), "k-%s", st); x = b;
  }
  expect("gribmodel", "%s", x);
  if((x = tab("modelldm,%u,%u", c, m))) snprintf(ldm, sizeof(ldm), "%s", x);
  else if((x = tab("center,%u", c))) snprintf(ldm, sizeof(ldm), "%s_%u", x, m);
  else snprintf(ldm, sizeof(ldm), "%u_%u", c, m);
  expect("gribmodelldm", "%s", ldm);
  snprintf(grid, sizeof(grid), "%u", g);
  if(ed == 2){
    char t[2] = { wmo[0], 0 };
    if(t1 == NULL && strchr("hoe", wmo[0])) t1 = t;
    x = NULL;
    if(t1 && strlen(wmo) == 6){
      if(!strncmp(st, "kwb", 3) && t1[0] != 'h' && t1[0] != 'o') x = tab("gridid,%s,%s,%c", st, t1, wmo[2]);
      if(x == NULL || !strcmp(x, "0")) x = tab("gridid,%s,%c", t1, wmo[2]);
    }
    snprintf(grid, sizeof(grid), "%s", x ? x : "0");
  }
  expect("gribgrid", "%s", grid);
  expect("gribmodelgridldm", "%s/#%s", ldm, grid);
  expect("gribreftime", "202403070630"); expect("gribymdh", "2024030706"); expect("gribymd", "20240307");
  expect("gribcenternum", "%u", c); expect("gribsubcnum", "%u", s); expect("gribmodelnum", "%u", m);
  expect("gribforecasttimeu", "%s", u); expect("gribforecasttime1", "%u", p1);
  expect("gribforecasttime2", "%u", p2); expect("gribforecasttimeri", "%u", tri);
  v = p2 ? p2 : p1;
  expect("gribforecasttimev", "%u", v); expect("gribforecasttime", "%u%s", v, u);
  if(!strcmp(u, "h")) expect("gribforecasttimehhh", "%03u", v);
}
static void grib_main(void){
  static const unsigned CEN[] = { 7, 8, 9, 58, 98, 200 }, SUB[] = { 0, 4, 14, 255 }, MOD[] = { 0, 96, 120, 151, 182 };
  static const char *ST[] = { "kwbc", "kwbe", "kwbo", "kwbn", "kknc", "kwnh" };
  static const char *WMO[] = { "yeus85", "laaa98", "mraa98", "ziqz98", "heac89", "oebk10", "epcr10", "sdus52", "yea" };
  int ed = 1 + mc_choose(2, "edition"), s = mc_choose(N_(ST), "station"), w = mc_choose(N_(WMO), "wmoid");
  unsigned c = CEN[mc_choose(N_(CEN), "center")], sc, m, g = 0;
  reset();
  if(ed == 1){ g = (unsigned[]){ 0, 218 }[mc_choose(2, "grid")]; w = w % 2 ? 0 : w; }
  sc = SUB[mc_choose(N_(SUB), "subcenter")]; m = MOD[mc_choose(N_(MOD), "model")];
  if(ed == 2 && c == 8 && sc == 255) sc = 65535;
  product(ST[s], WMO[w], "+grib", ".071155_5");
  gribfile(1, ed, c, sc, m, g, 1, 12, 0, 0);
  pbody(in_, nin);
  expect_none();
  expect_name(ST[s], WMO[w], "+grib", "071155");
  expect_seconds(now_ - 300);
  expect_grib(ed, ST[s], WMO[w], c, sc, m, g, "h", 12, 0, 0);
  if(rcvars("-dogrib") != TCL_OK) mc_fail("error: %s", t_err());
  compare(pname);
  mc_outcome(oh);
}
static void gribtime_main(void){
  static const struct { unsigned u; const char *one, *two; } U[] = { { 0, "M", "M" }, { 1, "h", "h" },
    { 2, "d", "d" }, { 3, "m", "m" }, { 4, "y", "y" }, { 5, "d10", "d10" }, { 6, "y30", "y30" },
    { 7, "y100", "y100" }, { 8, "x", "x" }, { 10, "h3", "h3" }, { 11, "h6", "h6" }, { 12, "h12", "h12" },
    { 13, "M15", "s" }, { 14, "M30", "x" }, { 254, "s", "x" }, { 255, "x", "x" } };
  static const unsigned PP[] = { 0, 3, 24, 144, 255 };
  int ed = 1 + mc_choose(2, "edition"), u = mc_choose(N_(U), "unit"), how, flag, first, ccb;
  unsigned p1 = PP[mc_choose(N_(PP), "p1")], p2 = 0, tri = 0;
  reset();
  if(ed == 1){ p2 = PP[mc_choose(N_(PP), "p2")]; tri = p2 ? 4 : 0; }
  else if(p1 == 255) p1 = 100000;
  /* good; cut in the headers; another edition; not GRIB; no file */
  how = mc_choose(5, "file");
  flag = mc_choose(2, "-dogrib"); ccb = mc_choose(2, "ccb"); first = mc_choose(2, "before");
  if(!ccb) t_eval("set filterslib(ccbsaved) 0");
  if(first){
    product("kwbe", "zrab98", "+grib", ".071122_4");
    gribfile(ccb, 3 - ed, 7, 4, 84, 3, 1, 99, 0, 1);
    pbody(in_, nin);
    if(rcvars("-dogrib") != TCL_OK) mc_fail("error: %s", t_err());
  }
  product("kwbc", "sdus85", "+grib", ".071155_5");
  gribfile(ccb, how == 2 ? 3 : ed, 7, 0, 96, 5, U[u].u, p1, p2, tri);
  if(how == 1) nin = 50;
  if(how == 3) memset(in_ + 20, 'z', 40);
  if(how == 4) unlink(P_(pbase)); else pbody(in_, nin);
  expect_none();
  expect_name("kwbc", "sdus85", "+grib", "071155");
  expect_seconds(now_ - 300);
  if(flag){
    if(how == 0) expect_grib(ed, "kwbc", "sdus85", 7, 0, 96, ed == 1 ? 5 : 0, ed == 1 ? U[u].one : U[u].two, p1, p2, tri);
    else{
      expect("gribstatus", "1");
      if(how == 2) expect("gribedition", "3");
    }
  }
  if(rcvars(flag ? "-dogrib" : "") != TCL_OK) mc_fail("error: %s", t_err());
  compare("grib");
  if(!flag && ran[0]) mc_fail("%s was executed", ran);
  mc_outcome(oh);
}
/* ---- saving and piping ---- */
static unsigned char fb[5000]; static int nfb;
static void fput(const void *b, int n){ memcpy(fb + nfb, b, n); nfb += n; }
static void save_main(void){
  static const long SEQ[] = { 0, 7, 42, 999, 1000, 123456, 4294967295L };
  int fn = mc_choose(6, "function"), ccb = mc_choose(2, "ccb"), n, h = 0, a = 0, exist, missing, i, st;
  const char *cmd = "sink";
  char dir[600], data[3000], full[700], seq[20];
  reset();
  if(!ccb) t_eval("set filterslib(ccbsaved) 0");
  n = (int[]){ 100, 24, 25, 2500 }[mc_choose(4, "size")];
  if(n < 60 && (fn == 1 || fn == 3)) n += 46;	/* the programs refuse less than the headers */
  for(i = 0; i < n; ++i) data[i] = (char)((i*7 + i/256) % 256);
  snprintf(seq, sizeof(seq), "%ld", SEQ[mc_choose(N_(SEQ), "seq")]);
  h = mc_choose(2, "headers");
  if(fn < 2) a = mc_choose(2, "-a");
  exist = mc_choose(2, "existing");
  /* the input or the output cannot be used */
  missing = n == 100 ? mc_choose(3, "missing") : 0;
  snprintf(dir, sizeof(dir), "%s/d", mc_scratch);
  mkdir(dir, 0755);
  snprintf(full, sizeof(full), "%s/o.t", dir); unlink(full);
  snprintf(full, sizeof(full), "%s/o t", dir); unlink(full);
  if(fn >= 2 ) snprintf(full, sizeof(full), "%s/o.t", dir);
  if(exist) nenv_writefile(full, "before", 6);
  strcpy(pbase, "input");
  pbody(data, n);
  if(missing == 1) unlink(P_(pbase));
  nfb = 0;
  if(exist && (a || fn >= 2 || missing == 2)) fput("before", 6);
  if(!missing){
    char hd[20];
    sprintf(hd, "\001\r\r\n%03ld \r\r\n", atol(seq) % 1000);
    if(h) fput(hd, 11);
    if(n > (ccb ? 24 : 0)) fput(data + (ccb ? 24 : 0), n - (ccb ? 24 : 0));
    if(h) fput("\r\r\n\003", 4);
  }
  switch(fn){
  case 0: case 1:
    if(fn == 0 && missing == 2 && mc_choose(2, "how"))
      st = call("filterlib_nbspfile %s %s /dev full%s%s", seq, P_(pbase), a ? " -a" : "", h ? "" : " -t");
    else st = call("%s %s %s %s {o t}%s%s", fn ? "filterlib_exec_nbspfile" : "filterlib_nbspfile", seq, P_(pbase),
	      missing == 2 ? P_("nodir") : dir, a ? " -a" : "", h ? "" : " -t");
    break;
  case 2:
    if(missing == 2) cmd = mc_choose(2, "how") ? "full" : "none";
    if(strcmp(cmd, "sink") == 0) st = call("filterlib_nbsppipe %s %s {sink %s}%s", seq, P_(pbase), full, h ? " -g" : "");
    else st = call("filterlib_nbsppipe %s %s %s%s", seq, P_(pbase), cmd, h ? " -g" : "");
    break;
  case 3:
    if(missing == 2) st = call("filterlib_exec_nbsppipe %s %s none%s", seq, P_(pbase), h ? " -g" : "");
    else st = call("filterlib_exec_nbsppipe %s %s {sink %s}%s", seq, P_(pbase), full, h ? " -g" : "");
    break;
  case 4:				/* the file of the caller, open before */
    t_eval("set F [_open0 %s a]; fconfigure $F -translation binary", missing == 2 ? "/dev/full" : full);
    if(missing == 2) t_eval("fconfigure $F -buffering none");
    st = call("filterlib_nbsppipe_F %s %s $F%s", seq, P_(pbase), h ? " -g" : "");
    /* here the caller is told */
    if((st != TCL_OK) != (missing != 0)) mc_fail("status %d, %s", st, t_err());
    { const char *e = res();
      if(missing && (e[0] == 0 || strstr(e, "bad completion") != NULL)) mc_fail("the error is: %s", e); }
    t_eval("catch {close $F}");
    break;
  default:
    if(missing == 1) mc_choose(1, "-");
    st = call(missing == 2 ? "filterlib_pipe |full {some text}" : missing ? "filterlib_pipe |none x"
	      : "filterlib_pipe {|sink %s} {some text}", full);
    if(st == TCL_OK && (atoi(res()) != 0) != (missing == 1) && missing != 2) mc_fail("it returns %s", res());
    nfb = 0; if(exist) fput("before", 6);
    if(!missing) fput("some text", 9);
    break;
  }
  if(fn != 4 && st != TCL_OK) mc_fail("the error is passed on: %s", t_err());
  if(fn != 4 && missing && nlogs == 0 && !(fn == 5 && missing == 2)) mc_fail("the error is not reported");
  if(!missing && nlogs) mc_fail("messages: %s", logs);
  if(missing == 0 || missing == 2 || exist){
    slurp(full);
    if(missing == 1 && fn == 0 && !a) nout = nfb = 0;	/* nothing to save */
    if(missing == 1 && nout >= 0 && nout >= nfb && memcmp(out_, fb, nfb) == 0) nout = nfb;
    if(nout < 0) nout = 0;
    if(nout != nfb || memcmp(out_, fb, nfb)) mc_fail("%s has %d bytes, should be %d", full, nout, nfb);
  }
  oh = mc_hash(oh, fb, nfb);
  mc_outcome(mc_hashi(oh, fn));
}
/* ---- the configuration, and the rest ---- */
static void wild_main(void){
  static const struct { const char *p; int neg; const char *re; } PT[] = { { "abc", 0, "abc" }, { "!abc", 1, "abc" },
    { "^k", 0, "^k" }, { "!^k", 1, "^k" }, { " j$ ", 0, "j$" }, { "  !b", 1, "b" }, { ".", 0, "." }, { "!.", 1, "." },
    { "-x", 0, "-x" } };
  static const char *STR[] = { "", "abc", "kabc", "kj", "b-x" };
  static const char M[9][5] = { { 0,1,1,0,0 }, { 0,1,1,0,0 }, { 0,0,1,1,0 }, { 0,0,1,1,0 }, { 0,0,0,1,0 },
    { 0,1,1,0,1 }, { 0,1,1,1,1 }, { 0,1,1,1,1 }, { 0,0,0,0,1 } };
  int n = mc_choose(mc_tier ? 5 : 4, "patterns"), s = mc_choose(N_(STR), "string"), i, p, w = 0;
  char l[200] = "";
  reset();
  for(i = 0; i < n; ++i){
    p = mc_choose(N_(PT), "pattern");
    sprintf(l + strlen(l), "%s%s", i ? "," : "", PT[p].p);
    if(M[p][s]) w = !PT[p].neg;
  }
  if(call("filterlib_uwildmat {%s} {%s}", l, STR[s]) != TCL_OK) mc_fail("error: %s", t_err());
  if(atoi(res()) != w) mc_fail("{%s} with %s: %s", l, STR[s], res());
  mc_outcome(mc_hash(mc_hashi(MC_H0, w), l, strlen(l)));
}
static void conf_main(void){
  int which = mc_choose(3, "function"), i, e, sub, form;
  char d[3][500], f[4][600], want[3000] = "";
  struct { const char *n; } D[] = { { "c1" }, { "c2" }, { "c3" } };
  reset();
  for(i = 0; i < 3; ++i){
    snprintf(d[i], 500, "%s/%s", mc_scratch, D[i].n); mkdir(d[i], 0755);
    snprintf(f[0], 600, "%s/s", d[i]); mkdir(f[0], 0755);
    snprintf(f[0], 600, "%s/x.rc", d[i]); unlink(f[0]);
    snprintf(f[0], 600, "%s/s/x.rc", d[i]); unlink(f[0]);
  }
  if(which < 2){
    sub = mc_choose(2, "subdir"); form = mc_choose(3, "name");
    e = mc_choose(64, "which exist");
    if(form == 0) strcpy(f[3], "x.rc");
    else snprintf(f[3], 600, form == 1 ? "%s/none/x.rc" : "%s/c1/x.rc", mc_scratch);
    if(form || which) strcpy(want, f[3]);
    for(i = 0; i < 3; ++i){
      snprintf(f[0], 600, "%s/x.rc", d[i]); if(e & 1 << i) t_write(f[0], "x");
      snprintf(f[1], 600, "%s/s/x.rc", d[i]); if(e & 8 << i) t_write(f[1], "x");
      if(sub ? e & 8 << i : e & 1 << i) strcpy(want, sub ? f[1] : f[0]);
    }
    if(call("%s %s {%s %s %s}%s", which ? "::nbsp::util::find_local_rcfile" : "filterlib_find_conf", f[3],
	    d[0], d[1], d[2], sub ? " s" : "") != TCL_OK) mc_fail("error: %s", t_err());
    if(strcmp(res(), want)) mc_fail("it is %s, should be %s", res(), want);
    mc_outcome(mc_hash(MC_H0, want, strlen(want)));
    return;
  }
  /* the pre file, the last of the directories, all in rc.d, the post file */
  e = mc_choose(256, "which exist");
  { static const char *A[] = { "pre", "post", "rcd/a.rc", "rcd/b.rc", "rcd/c.txt" };
    char r[600]; int last = -1;
    snprintf(r, 600, "%s/rcd", mc_scratch); mkdir(r, 0755);
    for(i = 0; i < 5; ++i){ unlink(P_(A[i])); if(e & 1 << i) t_write(P_(A[i]), "x"); }
    if(!(e & 28)) rmdir(r);
    for(i = 0; i < 3; ++i){
      snprintf(f[i], 600, "%s/x.rc", d[i]); if(e & 32 << i){ t_write(f[i], "x"); last = i; }
    }
    if(call("filterlib_get_rcfiles x.rc {%s %s %s} %s %s %s", d[0], d[1], d[2], r, P_("pre"), P_("post")) != TCL_OK)
      mc_fail("error: %s", t_err());
    { int n, k = 0; Tcl_Obj **o; Tcl_Obj *rr = Tcl_DuplicateObj(Tcl_GetObjResult(I_));
      const char *W[6]; int nw = 0, mid;
      if(Tcl_ListObjGetElements(NULL, rr, &n, &o) != TCL_OK) mc_fail("not a list");
      if(e & 1) W[nw++] = strdup(P_("pre"));
      if(last >= 0) W[nw++] = f[last];
      mid = nw;
      if(e & 4) W[nw++] = strdup(P_("rcd/a.rc"));
      if(e & 8) W[nw++] = strdup(P_("rcd/b.rc"));
      if(e & 2) W[nw++] = strdup(P_("post"));
      if(n != nw) mc_fail("%d files, should be %d", n, nw);
      for(k = 0; k < n; ++k){
	const char *g = Tcl_GetString(o[k]);
	/* those of rc.d in any order */
	if((e & 12) == 12 && k >= mid && k < mid + 2){
	  if(strcmp(g, W[mid]) && strcmp(g, W[mid + 1])) mc_fail("%s is not one of rc.d", g);
	  if(k == mid + 1 && !strcmp(g, Tcl_GetString(o[mid]))) mc_fail("%s twice", g);
	}else if(strcmp(g, W[k])) mc_fail("%s should be %s", g, W[k]);
	oh = mc_hash(oh, g, strlen(g));
      } }
  }
  mc_outcome(oh);
}
static void strs_main(void){
  static const char *S[] = { "a", "a=b", "a==b", "=b", "a=", "=", "a=b=c", "a= b", "key=/dir/=x=" };
  static const char *X[] = { "a::b", "::b", "a::", "a:b::c", "a:::b", "a::::b" };
  static const char *XA[] = { "a", "", "a", "a:b", "a", "a" }, *XB[] = { "b", "b", "", "c", ":b", "::b" };
  static const char *L[] = { "", "x", "x \t", "x\\r", "x\\r\\r", "  y", "a b\\r" };
  static const char *LW[] = { "", "x", "x", "x", "x", "  y", "a b" };
  static const char *D[] = { "", "x", "x\\n", "x\\n\\n", "x\\r", "a b\\nc" };
  static const int LAST[] = { 0, 0, 1, 1, 0, 0 };
  static const char *DD[] = { "", "x", "x\n", "x\n\n", "x\r", "a b\nc" };
  int w = mc_choose(4, "function"), i, k, n;
  char b[600] = "", t[600] = "";
  reset();
  if(w == 0){
    const char *eq;
    i = mc_choose(N_(S) + N_(X), "string");
    if(call("::nbsp::util::split_first {%s} %s", i < N_(S) ? S[i] : X[i - N_(S)], i < N_(S) ? "=" : "::") != TCL_OK)
      mc_fail("error: %s", t_err());
    if(i == 0) mc_outcome(1);		/* without it: not defined */
    else{
      int a; Tcl_Obj **o;
      if(Tcl_ListObjGetElements(NULL, Tcl_GetObjResult(I_), &a, &o) != TCL_OK || a != 2) mc_fail("%d parts", a);
      if(i < N_(S)){
	eq = strchr(S[i], '=');
	sprintf(b, "%.*s", (int)(eq - S[i]), S[i]); strcpy(t, eq + 1);
      }else{ strcpy(b, XA[i - N_(S)]); strcpy(t, XB[i - N_(S)]); }
      if(strcmp(Tcl_GetString(o[0]), b) || strcmp(Tcl_GetString(o[1]), t))
	mc_fail("%s: {%s} and {%s}", i < N_(S) ? S[i] : X[i - N_(S)], Tcl_GetString(o[0]), Tcl_GetString(o[1]));
      mc_outcome(mc_hash(MC_H0, b, strlen(b)) + i);
    }
  }else if(w == 1){
    n = 1 + mc_choose(3, "lines");
    for(i = 0; i < n; ++i){
      k = mc_choose(N_(L), "line");
      sprintf(b + strlen(b), "%s%s", i ? "\\n" : "", L[k]);
      sprintf(t + strlen(t), "%s\n", LW[k]);
    }
    if(b[0] == 0) t[0] = 0;		/* no line */
    if(call("filterlib_stripcr \"%s\"", b) != TCL_OK) mc_fail("error: %s", t_err());
    if(strcmp(res(), t)) mc_fail("\"%s\": %s", b, res());
    mc_outcome(mc_hash(MC_H0, t, strlen(t)));
  }else if(w == 2){
    int app, ex;
    char f[600];
    i = mc_choose(N_(D), "data"); app = mc_choose(2, "append"); ex = mc_choose(2, "existing");
    strcpy(f, P_("ff")); unlink(f);
    if(ex) t_write(f, "before\n");
    if(call("filterlib_file_%s %s \"%s\"", app ? "append" : "write", f, D[i]) != TCL_OK) mc_fail("error: %s", t_err());
    nfb = 0; if(app && ex) fput("before\n", 7);
    fput(DD[i], (int)strlen(DD[i])); if(!LAST[i]) fput("\n", 1);
    slurp(f);
    if(nout != nfb || memcmp(out_, fb, nfb)) mc_fail("%d bytes, should be %d", nout, nfb);
    if(call("filterlib_file_cat %s", f) != TCL_OK) mc_fail("error: %s", t_err());
    { char *q, *e; fb[nfb] = 0; q = (char *)fb; while(*q == '\n' || *q == '\r') ++q;
      e = q + strlen(q); while(e > q && (e[-1] == '\n' || e[-1] == '\r')) *--e = 0;
      if(strcmp(q, res())) mc_fail("cat gives {%s}", res()); }
    mc_outcome(mc_hashi(mc_hash(MC_H0, D[i], strlen(D[i])), app*2 + ex));
  }else{
    /* options: x a flag, o with a value, m with values, in any order; then arguments */
    static const char *O[] = { "-x", "-o v1", "-o {v 2}", "-m a", "-m {b c}", "-z", "-o" };
    int x = 0, nm = 0, bad = 0, na = mc_choose(2, "arguments");
    const char *o = "", *m[5] = { 0 };
    n = mc_choose(mc_tier ? 5 : 4, "options");
    for(i = 0; i < n && !bad; ++i){
      k = mc_choose(N_(O), "option");
      sprintf(b + strlen(b), " %s", O[k]);
      switch(k){
      case 0: x = 1; break;
      case 1: o = "v1"; break;
      case 2: o = "v 2"; break;
      case 3: m[nm++] = "a"; break;
      case 4: m[nm++] = "b c"; break;
      default: bad = 1; break;
      }
    }
    if(na && !bad) strcat(b, " arg1 {arg 2}");
    t_eval("unset -nocomplain option; set argv [list%s]", b);
    i = call("array set option [::nbsp::util::cmdline_getoptions argv {x o.arg m.marg} usage]");
    if((i != TCL_OK) != bad) mc_fail("{%s}: status %d", b, i);
    if(!bad){
      Tcl_Obj *mo = Tcl_GetVar2Ex(I_, "option", "m", TCL_GLOBAL_ONLY), **e; int ne;
      if(atoi(Tcl_GetVar2(I_, "option", "x", TCL_GLOBAL_ONLY)) != x) mc_fail("-x is not %d", x);
      if(strcmp(Tcl_GetVar2(I_, "option", "o", TCL_GLOBAL_ONLY), o)) mc_fail("-o is not %s", o);
      if(Tcl_ListObjGetElements(NULL, mo, &ne, &e) != TCL_OK || ne != nm) mc_fail("%d values of -m", ne);
      for(i = 0; i < nm; ++i) if(strcmp(Tcl_GetString(e[i]), m[i])) mc_fail("-m: %s", Tcl_GetString(e[i]));
      if(strcmp(Tcl_GetVar(I_, "argv", TCL_GLOBAL_ONLY), na ? "arg1 {arg 2}" : "")) mc_fail("arguments");
    }
    mc_outcome(mc_hash(MC_H0, b, strlen(b)));
  }
}
static void init(void){
  nenv_init();
  flt_init();
  tool_reg(T, NT);
  interp();
}
static void body(void){
  static const struct { const char *n; void (*f)(void); } P[] = { { "names", names_main }, { "body", body_main },
    { "rad", rad_main }, { "rad2", rad2_main }, { "grib", grib_main }, { "gribtime", gribtime_main },
    { "save", save_main }, { "wild", wild_main }, { "conf", conf_main }, { "strs", strs_main } };
  unsigned i;
  for(i = 0; i < sizeof(P)/sizeof(*P) && strcmp(P[i].n, mc_arg); ++i) ;
  if(i == sizeof(P)/sizeof(*P)) mc_die("part %s", mc_arg);
  P[i].f();
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 1, 200 };
  return(mc_main(argc, argv, &o, init, body));
}
