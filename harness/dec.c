/*
 * C27: the programs that decode what the products hold: nbspgrib, nbspgrib2,
 * nbspradinfo, nbspradgis, nbsprad2info. Each input is decoded by the program
 * and by the reference below; each run is repeated with other contents in the
 * memory that the program has not written.
 */
#include "dec.h"
#include <bzlib.h>
TOOL_DECL(nbspgrib); TOOL_DECL(nbspgrib2); TOOL_DECL(nbspradinfo);
TOOL_DECL(nbspradgis); TOOL_DECL(nbsprad2info);
static struct tool_prog T[] = { TOOL_PROG(nbspgrib), TOOL_PROG(nbspgrib2),
  TOOL_PROG(nbspradinfo), TOOL_PROG(nbspradgis), TOOL_PROG(nbsprad2info) };


/* --------------------------------------------------------------------- GRIB */
static int gopt_e, ghdr;
/* what follows the headers is b[n] */
static int gribref(const unsigned char *b, int n, int two){
  unsigned ed, c = 0, s = 0, m = 0, g = 0, y = 0, mo = 0, d = 0, h = 0, mi = 0,
    f = 0, p1 = 0, p2 = 0, t = 0;
  int done = 0;
  nwant = 0;
  if(n < (two ? 16 : 36) || memcmp(b, "GRIB", 4)) return(-1);
  ed = b[7];
  if(!two && ed == 1){
    const unsigned char *q = b + 8;
    time_t now = time(NULL);
    c = q[4]; m = q[5]; g = q[6]; s = q[25];
    y = (unsigned)((gmtime(&now)->tm_year + 1900)/100*100 + q[12]);
    mo = q[13]; d = q[14]; h = q[15]; mi = q[16];
    f = q[17]; p1 = q[18]; p2 = q[19]; t = q[20];
  }
  if(two && ed == 2){
    int i = 16;
    while(!done){
      unsigned sz;
      if(n - i < 5) return(-1);
      sz = be(b + i, 4);
      if(sz < 5 || sz > (unsigned)(n - i)) return(-1);
      if(b[i + 4] == 1){
	const unsigned char *q = b + i;
	if(sz < 18) return(-1);
	if(sz < 21) done = 2;	/* too short, but it has all of that */
	c = be(q + 5, 2); s = be(q + 7, 2); y = be(q + 12, 2);
	mo = q[14]; d = q[15]; h = q[16]; mi = q[17];
      }else if(b[i + 4] == 4){
	if(sz < 22) return(-1);
	m = b[i + 13]; f = b[i + 17]; p1 = be(b + i + 18, 4);
	if(sz < 34) done = 2;
	if(!done) done = 1;
	break;
      }
      if(done == 2) done = 0;
      i += (int)sz;
    }
  }
  wprint("%u %u %u %u %u %02u%02u%02u%02u%02u", ed, c, s, m, g, y, mo, d, h, mi);
  if(gopt_e && !(two && ed != 2)) wprint(" %u %u %u %u", f, p1, p2, t);
  wprint("\n");
  return(0);
}
static const char HDR[] = "HHHHHHHHHHHHHHHHHHHHHHHHYEUS85 KWBC 010000\r\r\nGEMPAK HEADER";
static void gribhead(const char *prog){
  static const int SZ[4] = { 45, 0, 32, 21 };
  begin(prog);
  if(gopt_e) arg("-e");
  if(ghdr) arg((const char *[]){ "", "-l", "-m", "-n" }[ghdr]);
  nin = 0;
  iput(HDR, SZ[ghdr]);
}
static int gribhsz(void){ return((int[]){ 45, 0, 32, 21 }[ghdr]); }
static void grib1(int k, int ed){
  int i;
  iput("GRIB", 4); put(1234, 3); put((unsigned)ed, 1);
  put(28, 3);
  for(i = 3; i < 28; ++i){
    /* each pattern has other values in each place */
    unsigned v = k == 0 ? (unsigned)(10 + i) : k == 1 ? (unsigned)(255 - i) : k == 2 ? 0 : 255;
    put(v, 1);
  }
  iput("more data", 9);
}
static const unsigned SZ2[] = { 40, 0, 4, 5, 6, 17, 18, 21, 22, 33, 34, 0x7fffffff,
				0x80000000u, 0xffffffffu, 0x00010000 };
static void section(int num, unsigned size, int k){
  unsigned i;
  put(size, 4); put((unsigned)num, 1);
  for(i = 5; i < size && i < 100; ++i) put((unsigned)(k*40 + (int)i) & 0xff, 1);
}
static void grib_main(void){
  int w = mc_choose(16, "headers, options, program"), two = w & 1, hdr, in;
  gopt_e = (w >> 1) & 1;
  hdr = ghdr = w >> 2;
  in = mc_choose(2, "input");
  gribhead(two ? "nbspgrib2" : "nbspgrib");
  if(!two){
    int k = mc_choose(4, "contents"), ed = (int[]){ 1, 0, 2, 255 }[mc_choose(4, "edition")];
    grib1(k, ed);
  }else{
    int ed = (int[]){ 2, 1, 0, 3 }[mc_choose(4, "edition")];
    int i, n = mc_choose(4, "sections");
    iput("GRIB", 4); put(0, 2); put(0, 1); put((unsigned)ed, 1); put(0, 4); put(9999, 4);
    for(i = 0; i < n; ++i)
      switch(mc_choose(5, "section")){
      case 0: section(1, 21, i + 1); break;
      case 1: section(1, 40, i + 2); break;
      case 2: section(3, 72, i); break;
      case 3: section(2, 5, i); break;
      case 4: section(7, 300, i); nin += 200; memset(in_ + nin - 200, i, 200); break;
      }
    section(4, 34, 5);
    section(8, 40, 0);
  }
  { int r; input(in);
    r = gribref(in_ + gribhsz(), nin - gribhsz(), two);
    twice(two ? nbspgrib2_main : nbspgrib_main, two ? "nbspgrib2" : "nbspgrib", r); }
  ghdr = hdr;
  mc_outcome(oh);
}
static void gribdmg_main(void){
  int two = mc_choose(2, "program"), r, h;
  gopt_e = 1;
  ghdr = mc_choose(2, "headers");
  gribhead(two ? "nbspgrib2" : "nbspgrib");
  if(!two) grib1(0, 1);
  else{
    int w = mc_choose(3, "section");	/* whose size is odd */
    unsigned sz = w ? SZ2[mc_choose((int)(sizeof(SZ2)/sizeof(SZ2[0])), "size")] : 0;
    iput("GRIB", 4); put(2, 4); put(0, 4); put(9999, 4);
    section(1, w == 1 ? sz : 21, 1);
    section(3, 30, 2);
    if(w == 2) section(4, sz, 3);
    else section(4, 34, 3);
    put(0x37373737, 4);
    if(w && !mc_tier){
      int k = mc_choose(nin + 1, "cut");
      nin -= k;
    }else damage(0);
  }
  if(!two) damage(0);
  h = gribhsz();
  if(nin < h) r = -1; else r = gribref(in_ + h, nin - h, two);
  input(0);
  twice(two ? nbspgrib2_main : nbspgrib_main, two ? "nbspgrib2" : "nbspgrib", r);
  mc_outcome(oh);
}

/* -------------------------------------------------------------------- radar */
#define R10 1000
struct nids {
  int reject;
  unsigned days, secs, length, height, code, mode;
  int lat, lon;
  long long unix_;
  int unixok;
  char awips[7];
  const unsigned char *d; int nd;	/* what follows */
};
static int word(const unsigned char *p, int n){
  while(n-- > 0) if(*p < 32 || *p++ > 126) return(0);
  return(1);
}
static int al(int c){ return((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')); }
/* 0; -1 rejected; 2 without a message block */
static int nidsref(const unsigned char *b, int n, int skip, struct nids *r){
  int i;
  memset(r, 0, sizeof(*r));
  if(n < skip + 1) return(-1);
  b += skip; n -= skip;
  if(!al(*b)){
    if(n < 11) return(-1);
    b += 11; n -= 11;
  }
  if(n < 150) return(-1);
  if(!word(b, 18) || memcmp(b + 18, "\r\r\n", 3)) return(-1);
  if(!word(b + 21, 6) || memcmp(b + 27, "\r\r\n", 3)) return(-1);
  for(i = 0; i < 6; ++i){
    if(b[21 + i] == '/') return(-1);
    r->awips[i] = (char)(b[21 + i] >= 'A' && b[21 + i] <= 'Z' ? b[21 + i] + 32 : b[21 + i]);
  }
  b += 30; n -= 30;
  if(be(b + 18, 2) != 0xffff) return(2);
  r->days = be(b + 2, 2); r->secs = be(b + 4, 4); r->length = be(b + 8, 4);
  r->lat = (int)be(b + 20, 4); r->lon = (int)be(b + 24, 4);
  r->height = be(b + 28, 2); r->code = be(b + 30, 2); r->mode = be(b + 32, 2);
  r->unix_ = ((long long)r->days - 1)*86400 + r->secs;
  r->unixok = r->unix_ >= 0 && r->unix_ < 0xffffffffLL;
  r->d = b + 120; r->nd = n - 120;
  return(0);
}
/* the headers of a product with len bytes of data */
static struct { int ccb, gpk; const char *wmo, *awips; unsigned days, secs, code, mode;
  int lat, lon; unsigned height; } H;
static void hset(void){
  H.ccb = H.gpk = 0;
  H.wmo = "SDUS54 KSJT 010203\r\r\n"; H.awips = "N0RSJT\r\r\n";
  H.days = 18001; H.secs = 45296; H.code = 19; H.mode = 2;
  H.lat = 31371; H.lon = -100492; H.height = 1903;
}
static int atlen;
static void head(int len){
  int i;
  if(H.ccb) iput(HDR, 24);
  if(H.gpk) iput("\001\r\r\n123 \r\r\n", 11);
  iput(H.wmo, (int)strlen(H.wmo)); iput(H.awips, (int)strlen(H.awips));
  put(H.code, 2); put(H.days, 2); put(H.secs, 4);
  atlen = nin;
  put((unsigned)(120 + len), 4);
  put(300, 2); put(0, 2); put(3, 2);
  put(0xffff, 2); put((unsigned)H.lat, 4); put((unsigned)H.lon, 4);
  put(H.height, 2); put(H.code, 2); put(H.mode, 2);
  for(i = 34; i < 120; ++i) put((unsigned)i, 1);
}
static struct nids N;
static int lopt, topt, qopt;
static int radinforef(int skip){
  int r = nidsref(in_, nin, skip, &N);
  nwant = 0;
  if(r < 0) return(-1);
  if(r == 2) return(qopt ? 2 : -1);
  if(!N.unixok && !(lopt && !topt)) return(R10);
  if(topt) wprint("%lld", N.unix_);
  if(topt && lopt) wprint(" ");
  if(lopt) wprint("%u", N.length);
  if(!topt && !lopt) wprint("%.3f %.3f %u %lld %u %u", N.lat/1000.0, N.lon/1000.0,
			     N.height, N.unix_, N.mode, N.code);
  return(0);
}
static void radinfo_cmd(void){
  begin("nbspradinfo");
  if(lopt) arg("-l");
  if(topt) arg("-t");
  if(qopt) arg("-q");
}
static void radinfo_main(void){
  int skip, in, r;
  lopt = mc_choose(2, "-l"); topt = mc_choose(2, "-t"); qopt = mc_choose(2, "-q");
  radinfo_cmd();
  hset();
  skip = mc_choose(3, "to skip");
  H.gpk = mc_choose(2, "gempak header");
  nin = 0;
  if(skip == 1){ H.ccb = 1; arg("-C"); skip = 24; }
  else if(skip == 2){
    skip = (int[]){ 1, 5000, 4096 }[mc_choose(3, "bytes")];
    memset(in_, 'x', skip); nin = skip;
    arg("-c"); arg("%d", skip);
  }
  switch(mc_choose(7, "values")){
  case 1: H.lat = -31371; H.lon = 100492; H.height = 65535; break;
  case 2: H.lat = 0; H.lon = 0; H.height = 0; H.days = 1; H.secs = 0; break;
  case 3: H.days = 24855; H.secs = 86399; H.mode = 1; H.code = 94; break;
  case 4: H.days = 30000; H.secs = 1; H.mode = 0; H.code = 255; break;
  case 5: H.wmo = "SDUS54 KSJT 010203\r\n "; break;
  case 6: H.awips = "N0R  \001\r\r\n"; break;
  }
  head(100);
  if(mc_choose(2, "compressed")) in_[nin - 120 + 18] = 120;
  memset(in_ + nin, 'd', 100); nin += 100;
  in = mc_choose(4, "input");
  r = radinforef(skip);
  input(in);
  twice(nbspradinfo_main, "nbspradinfo", r);
  mc_outcome(oh);
}
static void infodmg_main(void){
  int skip = 0, r;
  lopt = mc_choose(2, "-l"); topt = qopt = 0;
  radinfo_cmd();
  hset();
  H.gpk = mc_choose(2, "gempak header");
  if((H.ccb = mc_choose(2, "ccb"))){ arg("-C"); skip = 24; }
  nin = 0;
  head(100);
  iput("more", 4);
  damage(0);
  r = radinforef(skip);
  input(mc_choose(2, "input")*3);
  twice(nbspradinfo_main, "nbspradinfo", r);
  mc_outcome(oh);
}
static void rad2_main(void){
  int topt_ = mc_choose(2, "-t"), cut, skip = (int[]){ 0, 1, 5000 }[mc_choose(3, "-c")];
  int in = mc_choose(4, "input"), k = mc_choose(3, "values"), r;
  unsigned jd = (unsigned[]){ 14680, 1, 20000 }[k], ms = (unsigned[]){ 61966123, 0, 86399999 }[k];
  begin("nbsprad2info");
  if(topt_) arg("-t");
  if(skip){ arg("-c"); arg("%d", skip); }
  nin = 0;
  memset(in_, 'x', skip); nin = skip;
  iput("AR2V0006.137", 12); put(jd, 4); put(ms, 4); iput("TJUA", 4);
  iput("data data", 9);
  cut = mc_choose(nin + 1 > 40 ? 40 : nin + 1, "cut");
  nin -= cut;
  nwant = 0;
  r = nin - skip < 24 ? -1 : 0;
  if(r == 0){
    unsigned s = (jd - 1)*86400 + ms/1000;
    if(topt_) wprint("%u tjua", s);
    else wprint("AR2V0006 137 %u %u %u tjua", jd, ms, s);
  }
  input(in);
  twice(nbsprad2info_main, "nbsprad2info", r);
  mc_outcome(oh);
}

/* ----------------------------------------------------------- radar polygons */
struct cell { double lon[4], lat[4]; int code, level; };
static struct cell *C; static int nC;
#define MAXC 150000
static int either, huge_;	/* both outcomes are right; very many cells */
static double BB[4];
static int lmin_, lmax_, luser;
static int level(const struct nids *r, int pkt, int c, int *l){
  static const int V[16] = { -65, -64, -50, -36, -26, -20, -10, -1, 0, 10, 20, 26, 36, 50, 64, 65 };
  static const int P[16] = { 0, 5, 10, 25, 50, 75, 100, 125, 150, 175, 200, 250, 300, 400, 600, 800 };
  static const int S[16] = { -65, -50, -40, -30, -22, -10, -5, -1, 0, 5, 10, 22, 30, 40, 50, 65 };
  if(pkt == 16){
    if(r->code == 94){
      if(r->mode != 1 && r->mode != 2) return(-1);
      *l = c/2 - 32;
    }else if(r->code == 99) *l = (int)(0.5*(c - 1) - 63.5);
    else return(-1);
    return(0);
  }
  switch(r->code){
  case 19: case 20:
    if(r->mode == 2) *l = 5*c;
    else if(r->mode == 1) *l = 4*c - 32;
    else return(-1);
    break;
  case 27: *l = V[c]; break;
  case 78: case 80: *l = P[c]; break;
  case 56: *l = S[c]; break;
  default: return(-1);
  }
  return(0);
}
static void point(const struct nids *r, double rad, double th, double *lon, double *lat){
  double x = rad*sin(th*RAD), y = rad*cos(th*RAD);
  double la0 = r->lat/1000.0;
  *lat = la0 + y/111.111;
  *lon = r->lon/1000.0 + x/(111.111*cos((la0 + y/111.111/2.0)*RAD));
}
static void ring(const struct nids *r, double r1, double r2, double t1, double del, int keep,
		 int code, int lev){
  double t = t1, t2 = t1 + del, dt = 57.2173/r2, u;
  if(del < dt) dt = del;
  while(t < t2){
    u = t + dt;
    if(u > t2) u = t2;
    if(keep){
      if(nC < MAXC){
	struct cell *c = &C[nC];
	point(r, r1, t, &c->lon[0], &c->lat[0]);
	point(r, r2, t, &c->lon[1], &c->lat[1]);
	point(r, r2, u, &c->lon[2], &c->lat[2]);
	point(r, r1, u, &c->lon[3], &c->lat[3]);
	c->code = code; c->level = lev;
      }
      ++nC;
    }
    if(++huge_ > 3000000) return;
    t = u;
  }
}
/* 0: decoded; -1: rejected */
static int gisref(const struct nids *r){
  static unsigned char z[2000000];
  const unsigned char *b = r->d;
  unsigned n;
  int pkt, scale, nr, i, j, ok, lo, hi;
  nC = 0; either = huge_ = 0;
  if(r->length <= 120 || r->length - 120 > (unsigned)r->nd) return(-1);
  n = r->length - 120;
  if(n < 2) return(-1);
  if(be(b, 2) != 0xffff){
    unsigned m = sizeof(z);
    if(BZ2_bzBuffToBuffDecompress((char *)z, &m, (char *)b, n, 0, 0) != BZ_OK) return(-1);
    b = z; n = m;
  }
  if(n < 30 || be(b, 2) != 0xffff) return(-1);
  pkt = (int)be(b + 16, 2);
  if(pkt != 0xaf1f && pkt != 16) return(-1);
  scale = (int)be(b + 26, 2); nr = (int)be(b + 28, 2);
  switch(r->code){
  case 19: case 20: case 94: lo = 1; hi = 96; break;
  case 27: case 99: lo = -64; hi = 64; break;
  case 78: case 80: lo = 5; hi = 800; break;
  case 56: lo = -50; hi = 50; break;
  default: return(-1);
  }
  if(luser){ lo = lmin_; hi = lmax_; }
  b += 30; n -= 30;
  for(i = 0; i < nr; ++i){
    int m, bins = 0;
    double t1, del;
    if(n < 6) return(-1);
    m = (int)be(b, 2)*(pkt == 16 ? 1 : 2);
    t1 = (short)be(b + 2, 2)/10.0; del = be(b + 4, 2)/10.0;
    b += 6; n -= 6;
    if(n < (unsigned)m) return(-1);
    for(j = 0; j < m; ++j){
      int c, k, l = 0, keep;
      double r1, r2;
      if(pkt == 16){ c = b[j]; k = 1; }
      else{ c = b[j] & 15; k = b[j] >> 4; }
      if(k == 0) continue;
      r1 = (double)bins*scale/1000.0;
      bins += k;
      r2 = (double)bins*scale/1000.0;
      if(pkt == 16 && c < 2) continue;
      ok = level(r, pkt, c, &l) == 0;
      if(!ok) return(-1);
      keep = l >= lo && l <= hi;
      if(pkt == 16) ring(r, r1, r2, t1, del, keep, c, l);
      else{
	double q = r1;
	while(q < r2){
	  ring(r, q, q + 1, t1, del, keep, c, l);
	  q += 1;
	  if(huge_ > 3000000) break;
	}
      }
      if(huge_ > 3000000) return(0);
    }
    b += m; n -= (unsigned)m;
  }
  BB[0] = BB[1] = 180; BB[2] = BB[3] = -180;
  for(i = 0; i < nC && i < MAXC; ++i)
    for(j = 0; j < 4; ++j){
      if(C[i].lon[j] < BB[0]) BB[0] = C[i].lon[j];
      if(C[i].lon[j] > BB[2]) BB[2] = C[i].lon[j];
      if(C[i].lat[j] < BB[1]) BB[1] = C[i].lat[j];
      if(C[i].lat[j] > BB[3]) BB[3] = C[i].lat[j];
    }
  return(0);
}
static void shphead(const unsigned char *b, int n, const char *w){
  int i;
  if(n < 100) mc_fail("the %s file has %d bytes", w, n);
  if(be(b, 4) != 9994 || le(b + 28, 4) != 1000 || le(b + 32, 4) != 5)
    mc_fail("the header of the %s file", w);
  if(be(b + 24, 4)*2 != (unsigned)n) mc_fail("the header of the %s file of %d bytes says %u",
					     w, n, be(b + 24, 4)*2);
  for(i = 0; i < 4; ++i) near_(ld(b + 36 + 8*i), BB[i], 1e-9, "the bounding box", -1);
}
static void ck_shp(const unsigned char *b, int n){
  int i, j;
  shphead(b, n, "shp");
  if(n != 100 + 136*nC) mc_fail("the shp file has %d bytes with %d cells", n, nC);
  for(i = 0; i < nC; ++i){
    const unsigned char *p = b + 100 + 136*i;
    double lo[2] = { 180, 180 }, hi[2] = { -180, -180 };
    if(be(p, 4) != (unsigned)(i + 1) || be(p + 4, 4) != 64 || le(p + 8, 4) != 5 ||
       le(p + 44, 4) != 1 || le(p + 48, 4) != 5 || le(p + 52, 4) != 0)
      mc_fail("the header of record %d of the shp file", i);
    for(j = 0; j < 5; ++j){
      near_(ld(p + 56 + 16*j), C[i].lon[j % 4], 1e-9, "longitude", i);
      near_(ld(p + 64 + 16*j), C[i].lat[j % 4], 1e-9, "latitude", i);
    }
    for(j = 0; j < 4; ++j){
      if(C[i].lon[j] < lo[0]) lo[0] = C[i].lon[j];
      if(C[i].lon[j] > hi[0]) hi[0] = C[i].lon[j];
      if(C[i].lat[j] < lo[1]) lo[1] = C[i].lat[j];
      if(C[i].lat[j] > hi[1]) hi[1] = C[i].lat[j];
    }
    for(j = 0; j < 2; ++j){
      near_(ld(p + 12 + 8*j), lo[j], 1e-9, "box", i);
      near_(ld(p + 28 + 8*j), hi[j], 1e-9, "box", i);
    }
  }
}
static void ck_shx(const unsigned char *b, int n){
  int i;
  shphead(b, n, "shx");
  if(n != 100 + 8*nC) mc_fail("the shx file has %d bytes with %d cells", n, nC);
  for(i = 0; i < nC; ++i)
    if(be(b + 100 + 8*i, 4) != (unsigned)(50 + 68*i) || (be(b + 104 + 8*i, 4) != 68 &&
       be(b + 104 + 8*i, 4) != 64)) mc_fail("record %d of the shx file", i);
}
static void ck_dbf(const unsigned char *b, int n){
  int i, h, rs;
  char s[64];
  if(n < 97) mc_fail("the dbf file has %d bytes", n);
  if(le(b + 4, 4) != (unsigned)nC) mc_fail("the dbf file says %u records, not %d", le(b + 4, 4), nC);
  h = (int)le(b + 8, 2); rs = (int)le(b + 10, 2);
  if(h != 97 || rs != 7 || b[96] != 13) mc_fail("the header of the dbf file");
  if(strcmp((char *)b + 32, "code") || strcmp((char *)b + 64, "level") || b[43] != 'N' ||
     b[75] != 'N' || b[48] != 3 || b[80] != 3 || b[49] || b[81]) mc_fail("the fields of the dbf file");
  if(n != h + rs*nC && n != h + rs*nC + 1) mc_fail("the dbf file has %d bytes with %d cells", n, nC);
  for(i = 0; i < nC; ++i){
    snprintf(s, sizeof(s), " %3d%3d", C[i].code, C[i].level);
    if(memcmp(b + h + rs*i, s, 7)) mc_fail("record %d of the dbf file: \"%.7s\", should be \"%s\"",
					   i, b + h + rs*i, s);
  }
}
static void ck_csv(char *b, int n){
  int i, j;
  char *p = b;
  b[n] = 0;
  for(i = 0; i < nC; ++i){
    char *e;
    for(j = 0; j < 5; ++j){
      near_(strtod(p, &e), C[i].lon[j % 4], 0.00051, "longitude (csv)", i); p = e;
      near_(strtod(p, &e), C[i].lat[j % 4], 0.00051, "latitude (csv)", i); p = e;
    }
    if(*p++ != ',') mc_fail("line %d of the csv file", i);
    if(strtol(p, &e, 10) != C[i].code || *e != ',') mc_fail("code %d of the csv file", i);
    if(strtol(e + 1, &e, 10) != C[i].level || *e != '\n') mc_fail("level %d of the csv file", i);
    p = e + 1;
  }
  if(p != b + n) mc_fail("the csv file has more than the %d cells", nC);
}
static void ck_info(char *b, int n, const struct nids *r, int pkt){
  char s[1000];
  int k;
  b[n] = 0;
  k = snprintf(s, sizeof(s), "radseconds: %lld\n", r->unix_);
  if(r->unixok && strncmp(b, s, k)) mc_fail("the info file: \"%s\", should have \"%s\"", b, s);
  k = snprintf(s, sizeof(s), "\nradmode: %u\nprodcode: %u\npacketcode: %d\nlon: %.3f\nlat: %.3f\n"
	       "height: %u\n", r->mode, r->code, pkt, r->lon/1000.0, r->lat/1000.0, r->height);
  if(strstr(b, s) == NULL) mc_fail("the info file: \"%s\", should have \"%s\"", b, s);
  { double v[4]; char *q = strstr(b, "bb: ");
    if(q == NULL || sscanf(q, "bb: %lf %lf %lf %lf\n", v, v + 1, v + 2, v + 3) != 4)
      mc_fail("the info file: \"%s\"", b);
    for(k = 0; k < 4; ++k) near_(v[k], BB[k], 0.0000006, "the bounding box", -1); }
}
enum { SHP = 1, SHX = 2, DBF = 4, INFO = 8, CSV = 16 };
static const char *EXT[5] = { "shp", "shx", "dbf", "info", "csv" };
/* runs nbspradgis on in_ and looks at what it wrote in the directory out/g;
   files is the set to be written, name their base name or NULL */
static char *base_;
static void gis(int skip, int files, int stdout_csv, int pkt, int what){
  int i, k, r, c[2];
  const char *dir = P_("g");
  r = nidsref(in_, nin, skip, &N);
  if(r == 0) r = gisref(&N); else r = -1;
  for(i = 0; i < (faults ? 1 : 2); ++i){
    int big;
    fill_ = FILL[i];
    rmdir_(dir);
    if(chunk_ >= 0) tool_feed(data_, ndata, chunk_);
    stackfill();
    toobig = 0;
    if(getcwd(home, sizeof(home)) == NULL) mc_die("getcwd");
    if(chdir(dir) != 0) mc_die("chdir");
    c[i] = runprog(nbspradgis_main, 1);
    if(chdir(home) != 0) mc_die("chdir");
    tool_nofeed();
    big = toobig;
    if(i && c[0] != c[1]) mc_fail("nbspradgis ends with %d or %d, as the memory it "
				  "has not written happens to be", c[0], c[1]);
    if(faults && nfails && c[i] != 0){ oh = mc_hashi(oh, 7); return; }
    if(r < 0){
      if(c[i] == 0) mc_fail("nbspradgis accepts a damaged product");
      if(nfiles(dir) != 0) mc_fail("nbspradgis fails with files");
      continue;
    }
    if(huge_ > 3000000 || (huge_ > 100000 && c[i] != 0)) continue;
    if(big && c[i]) continue;
    if(c[i] != what) mc_fail("nbspradgis ends with %d, should be %d", c[i], what);
    if(c[i]) continue;
    if(nC > MAXC) continue;
    { int nf = 0;
      char nm[700], bn[200];
      if(base_) snprintf(bn, sizeof(bn), "%s", base_);
      else{
	time_t t = (time_t)N.unix_;
	struct tm tm;
	gmtime_r(&t, &tm);
	snprintf(bn, sizeof(bn), "%s_%d%02d%02d_%02d%02d", N.awips, tm.tm_year + 1900,
		 tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min);
      }
      if(!base_ && !N.unixok) continue;
      if(stdout_csv){ if(nout >= 0) ck_csv((char *)out_, nout); }
      for(k = 0; k < 5; ++k){
	if(!(files & (1 << k))) continue;
	if(k == 4 && stdout_csv) continue;
	++nf;
	snprintf(nm, sizeof(nm), "%s/%s.%s", dir, bn, EXT[k]);
	if(slurp(nm) < 0) mc_fail("no %s", nm + strlen(dir) + 1);
	switch(1 << k){
	case SHP: ck_shp(out_, nout); break;
	case SHX: ck_shx(out_, nout); break;
	case DBF: ck_dbf(out_, nout); break;
	case CSV: ck_csv((char *)out_, nout); break;
	case INFO: ck_info((char *)out_, nout, &N, pkt); break;
	}
	if(k != 3) oh = mc_hash(oh, out_, nout);
      }
      if(nfiles(dir) != nf) mc_fail("%d files, should be %d", nfiles(dir), nf);
    }
  }
  oh = mc_hashi(oh, (uint64_t)(r*1000 + c[0]));
}
/* the data of a product: pkt, radials */
static const unsigned char *RUN[] = { (const unsigned char *)"", (const unsigned char *)"\x3f\x00",
  (const unsigned char *)"\x1f\x27", (const unsigned char *)"\x21\x4e\x1c\x00",
  (const unsigned char *)"\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f",
  (const unsigned char *)"\xff\xff" };
static const int NRUN[] = { 0, 2, 2, 4, 16, 2 };
static const unsigned char *DIG[] = { (const unsigned char *)"", (const unsigned char *)"\x00\x01\x02\xff",
  (const unsigned char *)"\x42\x43\x80", (const unsigned char *)"\x03",
  (const unsigned char *)"\x82\x83\x00\x84\xc0\xfe" };
static const int NDIG[] = { 0, 4, 3, 1, 6 };
static unsigned char db[100000]; static int ndb;
static void dput(unsigned v, int n){
  int i;
  for(i = n - 1; i >= 0; --i) db[ndb++] = (unsigned char)(v >> 8*i);
}
static void blockhead(int pkt, int scale, int nr){
  ndb = 0;
  dput(0xffff, 2); dput(1, 2); dput(5000, 4); dput(1, 2);
  dput(0xffff, 2); dput(4984, 4);
  dput((unsigned)pkt, 2); dput(0, 2); dput(230, 2); dput(0, 2); dput(280, 2);
  dput((unsigned)scale, 2); dput((unsigned)nr, 2);
}
static void radial(int pkt, int k, int start, int delta){
  int n = pkt == 16 ? NDIG[k] : NRUN[k];
  dput((unsigned)(pkt == 16 ? n : n/2), 2); dput((unsigned)start, 2); dput((unsigned)delta, 2);
  memcpy(db + ndb, pkt == 16 ? DIG[k] : RUN[k], n); ndb += n;
}
static void bz(void){
  static unsigned char t[200000];
  unsigned n = sizeof(t);
  if(BZ2_bzBuffToBuffCompress((char *)t, &n, (char *)db, (unsigned)ndb, 1, 0, 0) != BZ_OK) mc_die("bz");
  memcpy(db, t, n); ndb = (int)n;
}
static void product(void){
  nin = 0;
  head(ndb);
  iput(db, ndb);
}
static const int PC[2][6] = { { 19, 20, 27, 78, 80, 56 }, { 94, 99, 94, 99, 94, 99 } };
static void radgis_main(void){
  int q = mc_choose(8, "product"), p16 = q >= 6, pkt = p16 ? 16 : 0xaf1f;
  int nr, i, z;
  hset(); luser = 0; base_ = "b";
  H.code = (unsigned)PC[p16][p16 ? q - 6 : q];
  if(H.code == 19 || H.code == 20 || H.code == 94) H.mode = 2 - (unsigned)mc_choose(2, "mode");
  z = mc_choose(2, "bz2");
  nr = mc_choose(mc_tier ? 4 : 3, "radials");
  blockhead(pkt, (int[]){ 1000, 250, 2000 }[mc_choose(3, "scale")], nr);
  for(i = 0; i < nr; ++i){
    int k = mc_choose(p16 ? 5 : 6, "bins");
    radial(pkt, k, (int[]){ 0, 3595, -10, 901 }[nr == 1 ? mc_choose(4, "start") : i],
	   (int[]){ 10, 200, 3600, 0 }[nr == 1 ? mc_choose(4, "delta") : i % 2]);
  }
  if(z) bz();
  product();
  begin("nbspradgis"); arg("-a"); arg("-n"); arg("b");
  if(nr == 1 && mc_choose(2, "levels")){
    luser = 1; lmin_ = 10; lmax_ = 50;
    arg("-M"); arg("10"); arg("-N"); arg("50");
  }
  input(mc_choose(2, "input")*3);
  gis(0, 31, 0, pkt, 0);
  mc_outcome(oh);
}
/* the options and the headers */
static void gisopt_main(void){
  int k, skip = 0, files = 0, sc = 0;
  hset(); luser = 0; base_ = NULL;
  begin("nbspradgis");
  H.ccb = mc_choose(2, "ccb"); H.gpk = mc_choose(2, "gempak header");
  if(H.ccb){ skip = 24; if(mc_choose(2, "-c")){ arg("-c"); arg("24"); }else arg("-C"); }
  blockhead(0xaf1f, 1000, 1);
  radial(0xaf1f, 3, 100, 10);
  product();
  if((k = mc_choose(33, "files")) == 32){ arg("-a"); files = 31; }
  else if(k == 0) files = 15;	/* all but csv */
  else{
    int i;
    static const char *O[5] = { "-P", "-X", "-F", "-O", "-V" };
    for(i = 0; i < 5; ++i) if(k & (1 << i)) arg("%s", O[i]);
    files = k;
  }
  switch(mc_choose(4, "names")){
  case 0: break;
  case 1: arg("-n"); arg("some.base"); base_ = "some.base"; break;
  case 2: { /* each one with its own, the last letter of the option tells it */
      int i;
      static const char *O[5] = { "-p", "-x", "-f", "-o", "-v" };
      if(k == 0 || k == 32) break;
      for(i = 0; i < 5; ++i) if(k & (1 << i)){ arg("%s", O[i]); arg("own.%s", EXT[i]); }
      base_ = "own";
    } break;
  case 3: if(files & CSV){ arg("-v"); arg("-"); sc = 1; } break;
  }
  if(mc_choose(2, "-d")){ arg("-d"); arg("%s", P_("g")); }
  input(mc_choose(2, "input"));
  gis(skip, files, sc, 0xaf1f, 0);
  mc_outcome(oh);
}
/* a damaged product */
static void gisdmg_main(void){
  int p16 = mc_choose(2, "packet"), pkt = p16 ? 16 : 0xaf1f, z;
  hset(); luser = 0; base_ = "b";
  H.code = (unsigned)PC[p16][0];
  blockhead(pkt, 1000, 2);
  radial(pkt, 3, 0, 10);
  radial(pkt, 2, 10, 10);
  z = mc_choose(3, "bz2");
  if(z == 0){ product(); damage(0); }
  else if(z == 1){
    /* in the data, with the size changed too */
    nin = 0;
    iput(db, ndb);
    damage(0);
    memcpy(db, in_, nin); ndb = nin;
    if(mc_choose(2, "compressed") && ndb > 0) bz();
    product();
  }else{ bz(); product(); damage(nin - ndb - 12); }
  begin("nbspradgis"); arg("-a"); arg("-n"); arg("b");
  input(0);
  gis(0, 31, 0, z == 2 || nin < 200 ? pkt : pkt, 0);
  mc_outcome(oh);
}
/* the name of the files */
static void gisname_main(void){
  static const char *A[] = { "N0RSJT", "n0r a ", "../../", "a/../b", "/tmp/x", "......", "%s%n%d" };
  char w[20];
  int i = mc_choose(7, "awips id");
  snprintf(w, sizeof(w), "%s\r\r\n", A[i]);
  hset(); luser = 0; base_ = NULL; H.awips = w;
  if(mc_choose(2, "time")) { H.days = 1; H.secs = 59; }
  blockhead(0xaf1f, 1000, 1);
  radial(0xaf1f, 3, 100, 10);
  product();
  begin("nbspradgis");
  if(mc_choose(2, "-d")){ arg("-d"); arg("%s", P_("g")); }
  input(1);
  gis(0, 15, 0, 0xaf1f, 0);
  mc_outcome(oh);
}
static void gisfault_main(void){
  hset(); luser = 0; base_ = "b";
  blockhead(0xaf1f, 1000, 1);
  radial(0xaf1f, 3, 0, 10);
  if(mc_choose(2, "bz2")) bz();
  product();
  begin("nbspradgis"); arg("-a"); arg("-n"); arg("b");
  input(mc_choose(2, "input"));
  nfails = 0;
  iox_prefix = mc_scratch; iox_hook = ioh; iox_nfaults = 0;
  faults = 1;
  gis(0, 31, 0, 0xaf1f, 0);
  faults = 0; iox_hook = NULL; iox_prefix = NULL;
  mc_outcome(oh);
}
/* no space left */
static void gisfull_main(void){
  int k = mc_choose(5, "full"), c;
  hset(); luser = 0; base_ = "b";
  blockhead(0xaf1f, 1000, 1);
  radial(0xaf1f, 3, 0, 10);
  product();
  begin("nbspradgis"); arg((const char *[]){ "-P", "-X", "-F", "-O", "-V" }[k]);
  arg((const char *[]){ "-p", "-x", "-f", "-o", "-v" }[k]); arg("/dev/full");
  input(0);
  c = runprog(nbspradgis_main, 1);
  if(c == 0) mc_fail("nbspradgis -%s: a file that could not be written is not reported", EXT[k]);
  mc_outcome((uint64_t)k);
}
static void outfull_main(void){
  hset(); luser = 0; base_ = NULL; nin = 0;
  switch(mc_choose(5, "program")){
  case 0:
    gopt_e = mc_choose(2, "-e"); ghdr = 0; gribhead("nbspgrib");
    grib1(0, mc_choose(2, "edition") + 1); input(0); outfull(nbspgrib_main, "nbspgrib");
    break;
  case 1:
    gopt_e = mc_choose(2, "-e"); ghdr = 0; gribhead("nbspgrib2");
    iput("GRIB", 4); put(0, 2); put(0, 1); put((unsigned)mc_choose(2, "edition") + 1, 1); put(0, 4); put(9999, 4);
    section(1, 21, 1); section(4, 34, 5); input(0); outfull(nbspgrib2_main, "nbspgrib2");
    break;
  case 2:
    lopt = mc_choose(2, "-l"); topt = mc_choose(2, "-t"); qopt = 0;
    radinfo_cmd(); head(100); memset(in_ + nin, 'd', 100); nin += 100;
    input(0); outfull(nbspradinfo_main, "nbspradinfo");
    break;
  case 3:
    begin("nbsprad2info"); if(mc_choose(2, "-t")) arg("-t");
    iput("AR2V0006.137", 12); put(14680, 4); put(61966123, 4); iput("TJUA", 4); iput("data", 4);
    input(0); outfull(nbsprad2info_main, "nbsprad2info");
    break;
  case 4:
    blockhead(0xaf1f, 1000, 1); radial(0xaf1f, 3, 0, 10); product();
    begin("nbspradgis"); arg("-v"); arg("-"); input(0); outfull(nbspradgis_main, "nbspradgis");
    break;
  }
}
static void init(void){
  nenv_init();
  flt_init();
  saved_ = malloc(BIG);
  C = malloc(MAXC*sizeof(*C));
  tool_reg(T, 5);
}
static void body(void){
  flt_reset();
  faults = 0; iox_hook = NULL; iox_before = NULL; iox_prefix = NULL;
  mkdir(P_("g"), 0755);
  if(!strcmp(mc_arg, "grib")) grib_main();
  else if(!strcmp(mc_arg, "gribdmg")) gribdmg_main();
  else if(!strcmp(mc_arg, "radinfo")) radinfo_main();
  else if(!strcmp(mc_arg, "infodmg")) infodmg_main();
  else if(!strcmp(mc_arg, "rad2")) rad2_main();
  else if(!strcmp(mc_arg, "radgis")) radgis_main();
  else if(!strcmp(mc_arg, "gisopt")) gisopt_main();
  else if(!strcmp(mc_arg, "gisdmg")) gisdmg_main();
  else if(!strcmp(mc_arg, "gisname")) gisname_main();
  else if(!strcmp(mc_arg, "gisfault")) gisfault_main();
  else if(!strcmp(mc_arg, "gisfull")) gisfull_main();
  else if(!strcmp(mc_arg, "outfull")) outfull_main();
  else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 1, 100 };
  return(mc_main(argc, argv, &o, init, body));
}
