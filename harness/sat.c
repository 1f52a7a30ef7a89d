/*
 * C27: the programs that decode the satellite images: nbspsat, nbspsatinfo,
 * nbspsatgis; as in dec.c.
 */
#define MAXALLOC (8*1024*1024)
#include "dec.h"
#include <png.h>
TOOL_DECL(nbspsat); TOOL_DECL(nbspsatinfo); TOOL_DECL(nbspsatgis);
static struct tool_prog T[] = { TOOL_PROG(nbspsat), TOOL_PROG(nbspsatinfo), TOOL_PROG(nbspsatgis) };

#define HS (21 + 512)
#define RE 6371200.0
#define MAXP 4000000
struct sat {
  char id[7];
  int src, ent, sec, ch, nl, ls, Y, M, D, h, m, proj, pc, scan, nx, ny, res;
  int lat1, lon1, lov, dx, dy, latin, lat2, lon2, latur, lonur;
  long long t;
  unsigned char hdr[HS];
};
static int s24(const unsigned char *p){
  int v = (int)(be(p, 3) & 0x7fffff);
  return((p[0] & 0x80) ? -v : v);
}
/* the header is b[HS] */
static int hdrref(const unsigned char *b, struct sat *r){
  const unsigned char *p = b + 21;
  int i;
  struct tm tm;
  memset(r, 0, sizeof(*r));
  memcpy(r->hdr, b, HS);
  for(i = 0; i < 18; ++i) if(b[i] > 127 || b[i] == '/') return(-1);
  if(memcmp(b + 18, "\r\r\n", 3)) return(-1);
  for(i = 0; i < 6; ++i) r->id[i] = b[i] >= 'A' && b[i] <= 'Z' ? b[i] + 32 : b[i];
  r->src = p[0]; r->ent = p[1]; r->sec = p[2]; r->ch = p[3];
  r->nl = (int)be(p + 4, 2); r->ls = (int)be(p + 6, 2);
  r->Y = 1900 + p[8]; r->M = p[9]; r->D = p[10]; r->h = p[11]; r->m = p[12];
  r->proj = p[15]; r->nx = (int)be(p + 16, 2); r->ny = (int)be(p + 18, 2);
  r->pc = p[36] >> 7; r->scan = p[37]; r->res = p[41];
  r->lat1 = s24(p + 20); r->lon1 = s24(p + 23); r->latin = s24(p + 38);
  r->latur = s24(p + 55); r->lonur = s24(p + 58);
  if(r->proj == 1){
    r->lat2 = s24(p + 27); r->lon2 = s24(p + 30);
    r->dx = (int)be(p + 33, 2); r->dy = (int)be(p + 35, 2);
  }else{
    r->lov = s24(p + 27); r->dx = (int)be(p + 30, 3); r->dy = (int)be(p + 33, 3);
  }
  memset(&tm, 0, sizeof(tm));
  tm.tm_sec = p[13]; tm.tm_min = r->m; tm.tm_hour = r->h;
  tm.tm_mday = r->D; tm.tm_mon = r->M - 1; tm.tm_year = p[8];
  r->t = (long long)timegm(&tm);
  return(0);
}
/* a plain or compressed file b[n] */
static int pdbref(const unsigned char *b, int n, struct sat *r){
  unsigned char u[HS];
  if(n >= 23 && b[21] == 120 && b[22] == 218){
    int m = (n < HS ? n : HS) - 21, i;
    uLongf z = 0;
    for(i = 1; i + 1 < m; ++i){
      if(b[21 + i] != 120 || b[22 + i] != 218) continue;
      z = HS;
      if(uncompress(u, &z, b + 21, (uLong)i) == Z_OK) break;
      z = 0;
    }
    if(z != HS) return(-1);
    return(hdrref(u, r));
  }
  if(n < HS) return(-1);
  return(hdrref(b, r));
}
static struct sat S;
static const char *tstr(const struct sat *r){
  static char b[200];
  snprintf(b, sizeof(b), "%d%02d%02d_%02d%02d", r->Y, r->M, r->D, r->h, r->m);
  return(b);
}
static void ext(const struct sat *r){
  wprint(" %d %d %#x %d %d %d %d %d %d %d %d %d %d %d %d %d\n", r->proj, r->pc, r->scan,
	 r->lat1, r->lon1, r->lov, r->dx, r->dy, r->nx, r->ny, r->res, r->latin, r->lat2,
	 r->lon2, r->latur, r->lonur);
}
/* --------------------------------------------------------- making an image */
static struct { const char *wmo; int nl, ls, proj, nx, ny, south, Y, M, D, lov, latin, dx, scan; } H;
static void hset(void){
  memset(&H, 0, sizeof(H));
  H.wmo = "TIGE01 KNES 192345\r\r\n";
  H.nl = 2; H.ls = 3; H.proj = 3; H.nx = 3; H.ny = 2;
  H.Y = 110; H.M = 2; H.D = 19; H.lov = -950000; H.latin = 250000; H.dx = 5000000;
}
static unsigned m24(int v){ return(v < 0 ? (unsigned)(-v) | 0x800000u : (unsigned)v); }
static unsigned char hb[HS + 1];
static void mkhdr(void){
  unsigned char *p = hb + 21;
  int s = H.south ? -1 : 1;
#define P2(o,v) (p[o] = (unsigned char)((v) >> 8), p[(o)+1] = (unsigned char)(v))
#define P3(o,v) (p[o] = (unsigned char)((v) >> 16), P2((o)+1, v))
  memset(hb, 0, HS);
  memcpy(hb, H.wmo, 21);
  p[0] = 1; p[1] = 2; p[2] = 3; p[3] = 4;
  P2(4, H.nl); P2(6, H.ls);
  p[8] = (unsigned char)H.Y; p[9] = (unsigned char)H.M; p[10] = (unsigned char)H.D;
  p[11] = 23; p[12] = 45; p[13] = 6; p[14] = 7; p[15] = (unsigned char)H.proj;
  P2(16, H.nx); P2(18, H.ny);
  P3(20, m24(s*121900)); P3(23, m24(-1334590));
  P3(55, m24(s*572900)); P3(58, m24(-493850));
  P3(38, m24(H.latin));
  if(H.proj == 1){
    P3(27, m24(250000)); P3(30, m24(-600000)); P2(33, 800); P2(35, 801);
  }else{
    P3(27, m24(H.lov)); P3(30, (unsigned)H.dx); P3(33, (unsigned)(H.dx/2 + 7));
  }
  if(H.proj != 1 && H.south) p[36] = 0x80;
  p[37] = (unsigned char)H.scan; p[41] = 8;
}
static void pixels(int n, int pat){
  int i;
  for(i = 0; i < n; ++i){
    unsigned char v = pat == 0 ? 0 : pat == 1 ? (unsigned char)(i*37 + 11) : pat == 2 ?
      (i == n/2 ? 255 : 0) : (unsigned char)(i % 3 ? 100 + i : 0);
    iput(&v, 1);
  }
}
static void image(int n, int pat){ nin = 0; mkhdr(); iput(hb, HS); pixels(n, pat); }
static void zput(const void *b, int n){
  static unsigned char z[100000];
  uLongf m = sizeof(z);
  if(compress2(z, &m, b, (uLong)n, 9) != Z_OK) mc_die("compress");
  iput(z, (int)m);
}
static void zimage(int n){	/* as nbspsat -g has it */
  static unsigned char px[40000];
  int i;
  mkhdr(); nin = 0; pixels(n, 3);
  memcpy(px, in_, n);
  nin = 0;
  iput(hb, 21);
  zput(hb, HS);
  for(i = 0; i < n; i += 5120) zput(px + i, n - i > 5120 ? 5120 : n - i);
}
/* ------------------------------------------------------------ what it says */
static void info(int sat, int e){
  int k = pdbref(in_, nin, &S);
  nwant = 0;
  if(k == 0){
    if(sat) wprint("%d %d %d %d %d %s %s_%s.png", S.src, S.ent, S.sec, S.ch, S.res,
		   tstr(&S), S.id, tstr(&S));
    else wprint("%d %d %d %d %d %llu", S.src, S.ent, S.sec, S.ch, S.res, (unsigned long long)S.t);
    if(e) ext(&S); else wprint("\n");
  }
  twice(sat ? nbspsat_main : nbspsatinfo_main, sat ? "nbspsat -i" : "nbspsatinfo", k);
}
static void satinfo_main(void){
  int sat = mc_choose(2, "program"), e = mc_choose(2, "-e");
  begin(sat ? "nbspsat" : "nbspsatinfo");
  if(sat) arg("-i");
  if(e) arg("-e");
  hset();
  H.proj = (int[]){ 1, 3, 5, 0 }[mc_choose(4, "projection")];
  H.south = mc_choose(2, "south");
  H.Y = (int[]){ 110, 0, 255 }[mc_choose(3, "year")];
  H.M = (int[]){ 2, 0, 255 }[mc_choose(3, "month")];
  H.lov = (int[]){ -950000, 8388607 }[mc_choose(2, "lov")];
  H.latin = (int[]){ 250000, -8388607, 0 }[mc_choose(3, "latin")];
  if(mc_choose(2, "compressed")) zimage((int[]){ 6, 5120, 12000 }[mc_choose(3, "size")]);
  else image(6, 1);
  input(mc_choose(4, "input"));
  info(sat, e);
  mc_outcome(oh);
}
static void sinfodmg_main(void){
  int sat = mc_choose(2, "program");
  begin(sat ? "nbspsat" : "nbspsatinfo");
  if(sat) arg("-i");
  arg("-e");
  hset();
  switch(mc_choose(3, "form")){
  case 0: image(0, 0); break;
  case 1: zimage(6); break;
  case 2: /* the first frame has less */
    mkhdr(); iput(hb, 21); zput(hb, (int[]){ HS - 1, 21, 0, HS + 1 }[mc_choose(4, "frame")]); zput("abc", 3); break;
  }
  damage(0);
  input(0);
  info(sat, 1);
  mc_outcome(oh);
}
/* ----------------------------------------------------------------- nbspsat */
static unsigned char *px_;
static int rdpng(const char *path, int *w, int *h){
  png_image im;
  memset(&im, 0, sizeof(im));
  im.version = PNG_IMAGE_VERSION;
  if(!png_image_begin_read_from_file(&im, path)) return(-1);
  im.format = PNG_FORMAT_GRAY;
  if(im.width*im.height > BIG) return(-1);
  if(!png_image_finish_read(&im, NULL, px_, 0, NULL)) return(-1);
  *w = (int)im.width; *h = (int)im.height;
  return(0);
}
/* the file nbspsat wrote with mode 1 png, 2 gempak, and the name it has */
static void ckfile(int mode, const char *nm){
  if(mode == 1){
    int w = 0, h = 0;
    if(rdpng(nm, &w, &h)) mc_fail("%s is not an image", nm);
    if(w != S.ls || h != S.nl) mc_fail("the image has %d x %d pixels, not %d x %d", w, h, S.ls, S.nl);
    if(memcmp(px_, in_ + HS, (size_t)w*h)) mc_fail("the pixels of the image");
  }else{
    unsigned char u[6000];
    int at = 21, k = 0, done = 0;
    static unsigned char f[BIG];
    int n = nenv_slurp(nm, f, BIG);
    if(n < 21 || memcmp(f, in_, 21)) mc_fail("the file has no wmo header");
    while(at < n){
      z_stream z;
      int st;
      memset(&z, 0, sizeof(z));
      inflateInit(&z);
      z.next_in = f + at; z.avail_in = (unsigned)(n - at);
      z.next_out = u; z.avail_out = sizeof(u);
      st = inflate(&z, Z_FINISH);
      if(f[at] != 120 || f[at + 1] != 218 || st != Z_STREAM_END) mc_fail("frame %d of the file", k);
      if(k == 0 && z.total_out != HS) mc_fail("the first frame has %lu bytes", z.total_out);
      if(k > 0 && z.total_out > 5120) mc_fail("frame %d has %lu bytes", k, z.total_out);
      if(done + (int)z.total_out > nin || memcmp(u, in_ + done, z.total_out))
	mc_fail("frame %d is not the data at %d", k, done);
      done += (int)z.total_out; at += (int)z.total_in; ++k;
      inflateEnd(&z);
    }
    if(done != nin) mc_fail("the file has %d bytes of %d", done, nin);
  }
}
static void satrun(int mode, int silent, int e, const char *own, const char *prefix){
  int i, k, c[2];
  const char *dir = P_("g");
  char bn[300], nm[900];
  k = nin < HS ? -1 : hdrref(in_, &S);
  nwant = 0;
  if(k == 0){
    if(mode == 1 && (S.nl == 0 || S.ls == 0 || (long)S.nl*S.ls > nin - HS)) k = -1;
    snprintf(bn, sizeof(bn), "%s_%s%s", prefix ? prefix : S.id, tstr(&S), mode == 1 ? ".png" : "");
    if(own) snprintf(bn, sizeof(bn), "%s", own);
    if(mode == 0)
      wprint("%s\n%d %d %d\nnx, ny: %d %d\n source: %d\n entity: %d\n sector: %d\nchannel: %d\n"
	     "    res: %d\n", tstr(&S), S.nl, S.ls, (S.nl + 1)*S.ls + HS, S.nx, S.ny, S.src, S.ent,
	     S.sec, S.ch, S.res);
    else if(!silent){
      wprint("%d %d %d %d %d %s %s", S.src, S.ent, S.sec, S.ch, S.res, tstr(&S), bn);
      if(e) ext(&S); else wprint("\n");
    }
  }
  for(i = 0; i < (faults ? 1 : 2); ++i){
    fill_ = FILL[i];
    rmdir_(dir);
    if(chunk_ >= 0) tool_feed(data_, ndata, chunk_);
    stackfill();
    toobig = 0;
    if(getcwd(home, sizeof(home)) == NULL) mc_die("getcwd");
    if(chdir(dir) != 0) mc_die("chdir");
    c[i] = runprog(nbspsat_main, 1);
    if(chdir(home) != 0) mc_die("chdir");
    tool_nofeed();
    if(i && c[0] != c[1]) mc_fail("nbspsat ends with %d or %d, as the memory it "
				  "has not written happens to be", c[0], c[1]);
    if(faults && nfails && c[i] != 0){ oh = mc_hashi(oh, 7); return; }
    if(k < 0){
      if(c[i] == 0) mc_fail("nbspsat accepts a damaged image");
      if(nfiles(dir) != 0) mc_fail("nbspsat fails with files");
      if(nout) mc_fail("nbspsat fails with output");
      continue;
    }
    if(toobig && c[i]) continue;
    if(c[i] != 0) mc_fail("nbspsat ends with %d", c[i]);
    same("nbspsat: the output");
    if(nfiles(dir) != (mode != 0)) mc_fail("nbspsat: %d files", nfiles(dir));
    if(mode){ snprintf(nm, sizeof(nm), "%s/%s", dir, bn); ckfile(mode, nm); }
  }
  oh = mc_hash(mc_hashi(oh, (uint64_t)c[0]), want_, nwant);
}
static void sat_main(void){
  int mode, silent = 0, e = 0, n;
  const char *own = NULL, *prefix = NULL;
  hset();
  begin("nbspsat");
  switch(mode = mc_choose(4, "mode")){
  case 0: arg("-C"); break;
  case 1: arg("-n"); break;
  case 2: arg("-g"); break;
  case 3: mode = 1; break;
  }
  if(mode){
    if(mc_choose(2, "-s")){ arg("-s"); silent = 1; }
    else if(mc_choose(2, "-e")){ arg("-e"); e = 1; }
    switch(mc_choose(3, "name")){
    case 1: own = "my.file"; arg("-o"); arg("%s", own); break;
    case 2: prefix = "pre"; arg("-p"); arg("%s", prefix); break;
    }
    if(mc_choose(2, "-d")){ arg("-d"); arg("%s", P_("g")); }
  }
  H.nl = (int[]){ 2, 1, 0, 40, 300 }[mc_choose(5, "lines")];
  H.ls = (int[]){ 3, 1, 0, 128, 256 }[mc_choose(5, "line size")];
  n = H.nl*H.ls;
  if(n > 200000) n = 200000;
  switch(mc_choose(3, "data")){
  case 1: n += H.ls; break;	/* there may be one more line */
  case 2: if(n) --n; break;
  }
  image(n, 1);
  input((int[]){ 0, 1, 3 }[mc_choose(3, "input")]);
  satrun(mode, silent, e, own, prefix);
  mc_outcome(oh);
}
static void satdmg_main(void){
  int mode = mc_choose(3, "mode");
  hset();
  begin("nbspsat"); arg((const char *[]){ "-C", "-n", "-g" }[mode]);
  image(H.nl*H.ls, 1);
  damage(0);
  input(0);
  satrun(mode, 0, 0, NULL, NULL);
  mc_outcome(oh);
}
/* -------------------------------------------------------------- nbspsatgis */
static double *lon_, *lat_;
static double BB[4], LL[4];
static int nP;
static struct { double s, x1, y1, dx, dy, lov, cp, rE, lon0; } Q;
static void proj(const struct sat *r){
  double la = r->lat1/1e4*RAD, lo = r->lon1/1e4*RAD;
  Q.s = r->pc ? -1 : 1; Q.lov = r->lov/1e4*RAD;
  if(r->proj == 5){
    double q = RE*tan(M_PI_4 - Q.s*la/2), al = 1/(1 + sin(60*M_PI/180));
    Q.x1 = q*sin(lo - Q.lov); Q.y1 = -Q.s*q*cos(lo - Q.lov);
    Q.dx = al*r->dx/10.0; Q.dy = al*r->dy/10.0;
  }else if(r->proj == 3){
    double psi = M_PI_2 - fabs(r->latin/1e4*RAD), a, b, al;
    Q.cp = cos(psi); Q.rE = RE/Q.cp;
    al = pow(tan(psi/2), Q.cp)/sin(psi);
    a = pow(tan(M_PI_4 - Q.s*la/2), Q.cp); b = Q.cp*(lo - Q.lov);
    Q.x1 = Q.rE*a*sin(b); Q.y1 = -Q.s*Q.rE*a*cos(b);
    Q.dx = al*r->dx/10.0; Q.dy = al*r->dy/10.0;
  }else{
    double la2 = r->lat2/1e4*RAD, lo2 = r->lon2/1e4*RAD, b, x2, y2;
    Q.lon0 = (lo + lo2)/2;
    b = cos(la)*sin(lo - Q.lon0);
    Q.x1 = 0.5*log((1 + b)/(1 - b)); Q.y1 = atan2(tan(la), cos(lo - Q.lon0));
    b = cos(la2)*sin(lo2 - Q.lon0);
    x2 = 0.5*log((1 + b)/(1 - b)); y2 = atan2(tan(la2), cos(lo2 - Q.lon0));
    Q.dx = (x2 - Q.x1)/(r->nx - 1.0); Q.dy = (y2 - Q.y1)/(r->ny - 1.0);
  }
}
static void fwd(int p, int i, int j, double *lon, double *lat){
  double x = Q.x1 + i*Q.dx, y, r;
  if(p == 1){
    y = Q.y1 + j*Q.dy;
    *lon = (Q.lon0 + atan2(sinh(x), cos(y)))/RAD; *lat = asin(sin(y)/cosh(x))/RAD;
    return;
  }
  y = Q.y1 + Q.s*j*Q.dy; r = sqrt(x*x + y*y);
  if(p == 5){
    *lon = (Q.lov + atan2(x, -Q.s*y))/RAD; *lat = Q.s*(M_PI_2 - 2*atan2(r, RE))/RAD;
  }else{
    *lon = (Q.lov + atan2(x, -Q.s*y)/Q.cp)/RAD;
    *lat = Q.s*(M_PI_2 - 2*atan(pow(r/Q.rE, 1/Q.cp)))/RAD;
  }
}
static void inv(int p, double lon, double lat, double *ii, double *jj){
  double x, y, r, d;
  lon *= RAD; lat *= RAD;
  if(p == 1){
    d = lon - Q.lon0;
    r = cos(lat)*sin(d);
    x = 0.5*log((1 + r)/(1 - r)); y = atan2(tan(lat), cos(d));
    *ii = (x - Q.x1)/Q.dx; *jj = (y - Q.y1)/Q.dy;
    return;
  }
  if(p == 5){ r = RE*tan(M_PI_4 - Q.s*lat/2); d = lon - Q.lov; }
  else{ r = Q.rE*pow(tan(M_PI_4 - Q.s*lat/2), Q.cp); d = Q.cp*(lon - Q.lov); }
  x = r*sin(d); y = -Q.s*r*cos(d);
  *ii = (x - Q.x1)/Q.dx; *jj = (y - Q.y1)/(Q.s*Q.dy);
}
static struct { int on, user; double l1, b1, l2, b2, cell, nlon, nlat; int bad, either; } A;
static const char *llur; static int llq;
/* 0: decoded; -1: rejected */
static int gisref(const unsigned char *b, int n){
  const unsigned char *px = b + HS;
  int i, j, k = 0;
  double dlon, dlat;
  if(n < HS || hdrref(b, &S) != 0) return(-1);
  if((long)S.nl*S.ls > n - HS) return(-1);
  if(S.proj != 1 && S.proj != 3 && S.proj != 5) return(-1);
  if((long)S.nx*S.ny > (long)S.nl*S.ls) return(-1);
  nP = S.nx*S.ny;
  proj(&S);
  BB[0] = BB[1] = LL[0] = LL[1] = 180; BB[2] = BB[3] = LL[2] = LL[3] = -180;
  for(j = S.ny - 1; j >= 0; --j)
    for(i = 0; i < S.nx; ++i, ++k){
      fwd(S.proj, i, j, &lon_[k], &lat_[k]);
      if(lon_[k] < BB[0]) BB[0] = lon_[k];
      if(lat_[k] < BB[1]) BB[1] = lat_[k];
      if(lon_[k] > BB[2]) BB[2] = lon_[k];
      if(lat_[k] > BB[3]) BB[3] = lat_[k];
      if(px[k] == 0) continue;
      if(lon_[k] < LL[0]) LL[0] = lon_[k];
      if(lat_[k] < LL[1]) LL[1] = lat_[k];
      if(lon_[k] > LL[2]) LL[2] = lon_[k];
      if(lat_[k] > LL[3]) LL[3] = lat_[k];
    }
  A.bad = A.either = 0;
  if(!A.on) return(0);
  A.l1 = LL[0]; A.b1 = LL[1]; A.l2 = LL[2]; A.b2 = LL[3];
  if(llur){
    double v[4];
    if(sscanf(llur, "%lf,%lf,%lf,%lf", v, v + 1, v + 2, v + 3) != 4) return(-1);
    if(llq){ A.l1 += v[0]; A.b1 += v[1]; A.l2 -= v[2]; A.b2 -= v[3]; }
    else{ A.l1 = v[0]; A.b1 = v[1]; A.l2 = v[2]; A.b2 = v[3]; }
  }
  if(S.nx < 2 || S.ny < 2){ A.either = 1; return(0); }
  dlon = (BB[2] - BB[0])/(S.nx - 1); dlat = (BB[3] - BB[1])/(S.ny - 1);
  A.cell = dlat < dlon ? dlat : dlon;
  if(!(A.cell > 1e-9)){ A.either = 1; return(0); }
  A.nlon = (A.l2 - A.l1)/A.cell + 1; A.nlat = (A.b2 - A.b1)/A.cell + 1;
  if(!(A.nlon > 0.999999 && A.nlat > 0.999999 && A.nlon*A.nlat < 1e6)) A.either = 1;
  else if(A.nlon < 1.000001 || A.nlat < 1.000001) A.either = 1;
  return(0);
}
static void shphead(const unsigned char *b, int n, const char *w){
  int i;
  if(n < 100) mc_fail("the %s file has %d bytes", w, n);
  if(be(b, 4) != 9994 || le(b + 28, 4) != 1000 || le(b + 32, 4) != 1) mc_fail("the header of the %s file", w);
  if(be(b + 24, 4)*2 != (unsigned)n) mc_fail("the header of the %s file of %d bytes says %u", w, n, be(b + 24, 4)*2);
  for(i = 0; i < 4; ++i) near_(ld(b + 36 + 8*i), BB[i], 1e-8, "the bounding box", -1);
}
static void ck_shp(const unsigned char *b, int n){
  int i;
  shphead(b, n, "shp");
  if(n != 100 + 28*nP) mc_fail("the shp file has %d bytes with %d points", n, nP);
  for(i = 0; i < nP; ++i){
    const unsigned char *p = b + 100 + 28*i;
    if(be(p, 4) != (unsigned)(i + 1) || be(p + 4, 4) != 10 || le(p + 8, 4) != 1)
      mc_fail("the header of record %d of the shp file", i);
    near_(ld(p + 12), lon_[i], 1e-8, "longitude", i);
    near_(ld(p + 20), lat_[i], 1e-8, "latitude", i);
  }
}
static void ck_shx(const unsigned char *b, int n){
  int i;
  shphead(b, n, "shx");
  if(n != 100 + 8*nP) mc_fail("the shx file has %d bytes with %d points", n, nP);
  for(i = 0; i < nP; ++i)
    if(be(b + 100 + 8*i, 4) != (unsigned)(50 + 14*i) || (be(b + 104 + 8*i, 4) != 14 &&
       be(b + 104 + 8*i, 4) != 10)) mc_fail("record %d of the shx file", i);
}
static void ck_dbf(const unsigned char *b, int n){
  int i;
  char s[64];
  if(n < 65) mc_fail("the dbf file has %d bytes", n);
  if(le(b + 4, 4) != (unsigned)nP) mc_fail("the dbf file says %u records, not %d", le(b + 4, 4), nP);
  if(le(b + 8, 2) != 65 || le(b + 10, 2) != 4 || b[64] != 13) mc_fail("the header of the dbf file");
  if(strcmp((char *)b + 32, "level") || b[43] != 'N' || b[48] != 3 || b[49]) mc_fail("the field of the dbf file");
  if(n != 65 + 4*nP && n != 66 + 4*nP) mc_fail("the dbf file has %d bytes with %d points", n, nP);
  for(i = 0; i < nP; ++i){
    snprintf(s, sizeof(s), " %3d", in_[HS + i]);
    if(memcmp(b + 65 + 4*i, s, 4)) mc_fail("record %d of the dbf file", i);
  }
}
static void ck_csv(char *b, int n){
  int i;
  char *p = b, *e;
  b[n] = 0;
  for(i = 0; i < nP; ++i){
    near_(strtod(p, &e), lon_[i], 0.000501, "longitude (csv)", i);
    if(*e != ',') mc_fail("line %d of the csv file", i);
    near_(strtod(e + 1, &e), lat_[i], 0.000501, "latitude (csv)", i);
    if(*e != ',') mc_fail("line %d of the csv file", i);
    if(strtol(e + 1, &e, 10) != in_[HS + i] || *e != '\n') mc_fail("level %d of the csv file", i);
    p = e + 1;
  }
  if(p != b + n) mc_fail("the csv file has more than the %d points", nP);
}
static void ck_info(char *b, int n){
  char s[400];
  double v[8];
  int k, y[2];
  b[n] = 0;
  k = snprintf(s, sizeof(s), "seconds: %llu\nsector: %d\nchannel: %d\nresolution: %d\nbb: ",
	       (unsigned long long)S.t, S.sec, S.ch, S.res);
  if(strncmp(b, s, k)) mc_fail("the info file: \"%s\", should have \"%s\"", b, s);
  if(sscanf(b + k, "%lf %lf %lf %lf\nnx: %d\nny: %d\nllur: %lf %lf %lf %lf\n", v, v + 1, v + 2, v + 3,
	    y, y + 1, v + 4, v + 5, v + 6, v + 7) != 10) mc_fail("the info file: \"%s\"", b);
  for(k = 0; k < 4; ++k){
    near_(v[k], BB[k], 6e-7, "the bounding box", -1);
    near_(v[4 + k], LL[k], 6e-7, "the enclosing rectangle", -1);
  }
  if(y[0] != S.nx || y[1] != S.ny) mc_fail("the info file: nx %d ny %d", y[0], y[1]);
}
static int cellok(int v, double ii, double jj){
  double di, dj, t = 1e-6;
  if(!(ii >= -t && ii <= S.nx - 1 + t && jj >= -t && jj <= S.ny - 1 + t)) return(v == -1);
  if(v == -1) return(ii < t || jj < t || ii > S.nx - 1 - t || jj > S.ny - 1 - t);
  for(di = -t; di <= t; di += 2*t)
    for(dj = -t; dj <= t; dj += 2*t){
      int i = (int)floor(ii + di + 0.5), j = (int)floor(jj + dj + 0.5);
      if(i < 0) i = 0;
      if(j < 0) j = 0;
      if(i > S.nx - 1) i = S.nx - 1;
      if(j > S.ny - 1) j = S.ny - 1;
      if(v == in_[HS + (S.ny - 1 - j)*S.nx + i]) return(1);
    }
  return(0);
}
static void ck_asc(char *b, int n){
  long nc, nr;
  double x, y, c;
  int nd, at = 0;
  long k, l;
  char *p, *e;
  b[n] = 0;
  if(sscanf(b, "ncols %ld\nnrows %ld\nxllcorner %lf\nyllcorner %lf\ncellsize %lf\nnodata_value %d%n",
	    &nc, &nr, &x, &y, &c, &nd, &at) != 6 || nd != -1) mc_fail("the header of the asc file: \"%.200s\"", b);
  near_(c, A.cell, 6e-7, "cellsize", -1);
  near_(x, A.l1, 6e-7, "xllcorner", -1); near_(y, A.b1, 6e-7, "yllcorner", -1);
  if(nc > A.nlon + 1e-6 || nc < A.nlon - 1 - 1e-6 || nr > A.nlat + 1e-6 || nr < A.nlat - 1 - 1e-6)
    mc_fail("the asc file has %ld x %ld cells, should have %f x %f", nc, nr, A.nlon, A.nlat);
  p = b + at;
  if(*p++ != '\n') mc_fail("the header of the asc file");
  for(l = nr - 1; l >= 0; --l)
    for(k = 0; k < nc; ++k){
      double ii, jj;
      int v = (int)strtol(p, &e, 10);
      if(e == p || *e != (k == nc - 1 ? '\n' : ' ')) mc_fail("row %ld column %ld of the asc file", l, k);
      p = e + 1;
      inv(S.proj, A.l1 + k*A.cell, A.b1 + l*A.cell, &ii, &jj);
      if(!cellok(v, ii, jj)) mc_fail("row %ld column %ld of the asc file is %d; it is at %f %f of the image",
				     l, k, v, ii, jj);
    }
  if(p != b + n) mc_fail("the asc file has more than %ld x %ld cells", nr, nc);
}
static const char *EXT[6] = { "shp", "shx", "dbf", "info", "csv", "asc" };
static char *base_;
static void gis(int files, int sc){
  int i, k, r, c[2];
  const char *dir = P_("g");
  A.on = (files >> 5) & 1;
  r = gisref(in_, nin);
  for(i = 0; i < (faults ? 1 : 2); ++i){
    int nf = 0;
    char nm[900], bn[300];
    fill_ = FILL[i];
    rmdir_(dir);
    if(chunk_ >= 0) tool_feed(data_, ndata, chunk_);
    stackfill();
    toobig = 0;
    if(getcwd(home, sizeof(home)) == NULL) mc_die("getcwd");
    if(chdir(dir) != 0) mc_die("chdir");
    c[i] = runprog(nbspsatgis_main, 1);
    if(chdir(home) != 0) mc_die("chdir");
    tool_nofeed();
    if(i && c[0] != c[1]) mc_fail("nbspsatgis ends with %d or %d, as the memory it "
				  "has not written happens to be", c[0], c[1]);
    if(faults && nfails && c[i] != 0){ oh = mc_hashi(oh, 7); return; }
    if(r < 0){
      if(c[i] == 0) mc_fail("nbspsatgis accepts a damaged image");
      if(nfiles(dir) != 0) mc_fail("nbspsatgis fails with files");
      continue;
    }
    if(toobig && c[i]) continue;
    if(A.on && A.either && c[i]){
      if(nfiles(dir) != 0) mc_fail("nbspsatgis fails with files");
      continue;
    }
    if(c[i]) mc_fail("nbspsatgis ends with %d", c[i]);
    snprintf(bn, sizeof(bn), "%s_%s", S.id, tstr(&S));
    if(base_) snprintf(bn, sizeof(bn), "%s", base_);
    if(sc == 4) ck_csv((char *)out_, nout);
    if(sc == 5 && !A.either) ck_asc((char *)out_, nout);
    if(sc == 0 && nout) mc_fail("nbspsatgis writes in the output");
    for(k = 0; k < 6; ++k){
      if(!(files & (1 << k)) || (sc && k == sc)) continue;
      ++nf;
      snprintf(nm, sizeof(nm), "%s/%s.%s", dir, bn, EXT[k]);
      if(slurp(nm) < 0) mc_fail("no %s", nm + strlen(dir) + 1);
      switch(k){
      case 0: ck_shp(out_, nout); break;
      case 1: ck_shx(out_, nout); break;
      case 2: ck_dbf(out_, nout); break;
      case 3: ck_info((char *)out_, nout); break;
      case 4: ck_csv((char *)out_, nout); break;
      case 5: if(!A.either) ck_asc((char *)out_, nout); break;
      }
      oh = mc_hash(oh, out_, nout);
    }
    if(nfiles(dir) != nf) mc_fail("%d files, should be %d", nfiles(dir), nf);
  }
  oh = mc_hashi(oh, (uint64_t)(r*1000 + c[0]));
}
static const char *OPT = "PXFOVA";
static int all(void){ int i; for(i = 0; i < 6; ++i) arg("-%c", OPT[i]); return(63); }
static void satgis_main(void){
  int k = mc_choose(6, "projection"), n;
  hset(); base_ = "b"; llur = NULL;
  H.proj = (int[]){ 5, 5, 3, 3, 1, 2 }[k]; H.south = k == 1 || k == 3;
  if(H.proj == 3) H.latin = H.south ? -250000 : 250000;
  H.nx = (int[]){ 3, 2, 1, 7, 0 }[mc_choose(5, "nx")];
  H.ny = (int[]){ 2, 4, 1, 9, 0 }[mc_choose(5, "ny")];
  if(H.proj != 1){
    H.lov = (int[]){ -950000, -1334590, 100000 }[mc_choose(3, "lov")];
    H.dx = (int[]){ 5000000, 81000, 0 }[mc_choose(3, "dx")];
  }
  H.ls = H.nx; H.nl = H.ny;
  n = H.nl*H.ls;
  switch(mc_choose(4, "data")){
  case 1: ++H.nl; n += H.ls; break;
  case 2: if(n) --n; break;
  case 3: if(H.nl){ --H.nl; } break;	/* there is less than nx ny says */
  }
  image(n, mc_choose(4, "pixels"));
  begin("nbspsatgis"); arg("-n"); arg("b");
  if(mc_choose(2, "files")){ n = all(); }
  else { int i; n = 31; for(i = 0; i < 5; ++i) arg("-%c", OPT[i]); }
  input(mc_choose(2, "input")*3);
  gis(n, 0);
  mc_outcome(oh);
}
static void satasc_main(void){
  static const char *L[] = { "-130,15,-100,40", "-120,20,-119,21", "0,0,0,0", "-100,40,-130,15", "1,2,3",
    "", "nan,0,1,1", "inf,0,1,1", "-inf,-inf,inf,inf", "-1e300,0,1e300,1", "5,3,2,1", "x", "-190,-95,200,95",
    "-133,13,-132.9999999,13.0000001", "1,1,1,1,1" };
  int k;
  hset(); base_ = "b";
  k = mc_choose(5, "projection");
  H.proj = (int[]){ 5, 5, 3, 3, 1 }[k]; H.south = k == 1 || k == 3;
  if(H.proj == 3) H.latin = H.south ? -250000 : 250000;
  H.nx = H.ls = (int[]){ 3, 7, 1 }[mc_choose(3, "nx")];
  H.ny = H.nl = (int[]){ 4, 9, 1 }[mc_choose(3, "ny")];
  if(H.proj != 1) H.dx = (int[]){ 5000000, 810000 }[mc_choose(2, "dx")];
  image(H.nl*H.ls, mc_choose(4, "pixels"));
  begin("nbspsatgis"); arg("-n"); arg("b");
  k = mc_choose(2, "all") ? all() : (arg("-A"), 32);
  llur = L[mc_choose((int)(sizeof(L)/sizeof(L[0])), "limits")];
  arg("-r"); arg("%s", llur);
  if((llq = mc_choose(2, "-q"))) arg("-q");
  input(0);
  gis(k, 0);
  mc_outcome(oh);
}
static void satopt_main(void){
  int k, i, files, sc = 0;
  hset(); base_ = NULL; llur = NULL;
  H.nx = H.ls = 4; H.ny = H.nl = 3;
  image(12, 3);
  begin("nbspsatgis");
  if((k = files = mc_choose(64, "files")) == 0) files = 15;
  switch(mc_choose(5, "names")){
  case 1: arg("-n"); arg("some.base"); base_ = "some.base"; /* fall through */
  case 0: for(i = 0; i < 6; ++i) if(k & (1 << i)) arg("-%c", OPT[i]); break;
  case 2:
    for(i = 0; i < 6; ++i) if(k & (1 << i)){ arg("-%c", OPT[i] + 32); arg("own.%s", EXT[i]); }
    if(k) base_ = "own";
    break;
  case 3: case 4:
    for(i = 0; i < 4; ++i) if(k & (1 << i)) arg("-%c", OPT[i]);
    if((k & 48) == 16){ arg("-v"); arg("-"); sc = 4; }
    else if((k & 48) == 32){ arg("-a"); arg("-"); sc = 5; }
    else for(i = 4; i < 6; ++i) if(k & (1 << i)) arg("-%c", OPT[i]);
    break;
  }
  if(mc_choose(2, "-d")){ arg("-d"); arg("%s", P_("g")); }
  input(mc_choose(2, "input"));
  gis(files, sc);
  mc_outcome(oh);
}
static void sgisdmg_main(void){
  int k = mc_choose(3, "projection"), f;
  hset(); base_ = "b"; llur = NULL;
  H.proj = (int[]){ 5, 3, 1 }[k];
  image(H.nl*H.ls, 3);
  damage(0);
  begin("nbspsatgis"); arg("-n"); arg("b");
  if(mc_choose(2, "asc")) f = all();
  else { int i; f = 31; for(i = 0; i < 5; ++i) arg("-%c", OPT[i]); }
  input(0);
  gis(f, 0);
  mc_outcome(oh);
}
static void satname_main(void){
  static const char *W[] = { "TIGE01", "../../", "a/../b", "/tmp/x", "......", "%s%n%d", "      " };
  char w[40];
  int p = mc_choose(3, "program");
  snprintf(w, sizeof(w), "%s KNES 192345\r\r\n", W[mc_choose(7, "wmo id")]);
  hset(); base_ = NULL; llur = NULL; H.wmo = w;
  H.Y = (int[]){ 110, 255 }[mc_choose(2, "year")]; H.M = H.Y == 255 ? 255 : 2;
  begin(p ? "nbspsat" : "nbspsatgis");
  if(p) arg(p == 1 ? "-n" : "-g");
  if(mc_choose(2, "-d")){ arg("-d"); arg("%s", P_("g")); }
  image(H.nl*H.ls, 1);
  input(1);
  if(p) satrun(p, 0, 0, NULL, NULL); else gis(15, 0);
  mc_outcome(oh);
}
static void satfault_main(void){
  int p = mc_choose(4, "program");
  hset(); base_ = "b"; llur = NULL;
  H.nx = H.ls = 4; H.ny = H.nl = 3;
  image(12, 3);
  begin(p == 0 ? "nbspsatgis" : "nbspsat");
  if(p) arg((const char *[]){ "", "-C", "-n", "-g" }[p]);
  else { all(); arg("-n"); arg("b"); }
  input(mc_choose(2, "input"));
  nfails = 0;
  iox_prefix = mc_scratch; iox_hook = ioh; iox_nfaults = 0;
  faults = 1;
  if(p) satrun(p - 1, 0, 0, NULL, NULL); else gis(63, 0);
  faults = 0; iox_hook = NULL; iox_prefix = NULL;
  mc_outcome(oh);
}
static void satfull_main(void){
  int k = mc_choose(6, "full"), c;
  hset(); llur = NULL;
  H.nx = H.ls = 4; H.ny = H.nl = 3;
  image(12, 3);
  begin("nbspsatgis"); arg("-%c", OPT[k] + 32); arg("/dev/full");
  input(0);
  c = runprog(nbspsatgis_main, 1);
  if(c == 0) mc_fail("nbspsatgis -%s: a file that could not be written is not reported", EXT[k]);
  mc_outcome((uint64_t)k);
}
static void outfull_main(void){
  int k = mc_choose(6, "program");
  hset(); base_ = NULL; llur = NULL;
  H.nx = H.ls = 4; H.ny = H.nl = 3;
  image(12, 3);
  switch(k){
  case 0: begin("nbspsatinfo"); if(mc_choose(2, "-e")) arg("-e"); break;
  case 1: begin("nbspsat"); arg("-i"); if(mc_choose(2, "-e")) arg("-e"); break;
  case 2: begin("nbspsat"); arg("-C"); break;
  case 3: begin("nbspsat"); arg(mc_choose(2, "-g") ? "-g" : "-n"); break;
  case 4: case 5: begin("nbspsatgis"); arg(k == 4 ? "-v" : "-a"); arg("-"); break;
  }
  input(0);
  outfull(k == 0 ? nbspsatinfo_main : k < 4 ? nbspsat_main : nbspsatgis_main, av[0]);
}
static void init(void){
  nenv_init();
  flt_init();
  saved_ = malloc(BIG); px_ = malloc(BIG);
  lon_ = malloc(MAXP*sizeof(double)); lat_ = malloc(MAXP*sizeof(double));
  tool_reg(T, 3);
}
static void body(void){
  flt_reset();
  faults = 0; iox_hook = NULL; iox_before = NULL; iox_prefix = NULL;
  mkdir(P_("g"), 0755);
  if(!strcmp(mc_arg, "satinfo")) satinfo_main();
  else if(!strcmp(mc_arg, "sinfodmg")) sinfodmg_main();
  else if(!strcmp(mc_arg, "sat")) sat_main();
  else if(!strcmp(mc_arg, "satdmg")) satdmg_main();
  else if(!strcmp(mc_arg, "satgis")) satgis_main();
  else if(!strcmp(mc_arg, "satasc")) satasc_main();
  else if(!strcmp(mc_arg, "satopt")) satopt_main();
  else if(!strcmp(mc_arg, "sgisdmg")) sgisdmg_main();
  else if(!strcmp(mc_arg, "satname")) satname_main();
  else if(!strcmp(mc_arg, "satfault")) satfault_main();
  else if(!strcmp(mc_arg, "satfull")) satfull_main();
  else if(!strcmp(mc_arg, "outfull")) outfull_main();
  else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 1, 100 };
  return(mc_main(argc, argv, &o, init, body));
}
