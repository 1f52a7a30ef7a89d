/*
 * C13: the patterns: what each list of regular expressions accepts, with the
 * eight patterns of the configuration.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include "nenv.h"
#include "globals.h"
#include "nbspre.h"
#include "ure.h"

#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
#else
static size_t __sanitizer_get_current_allocated_bytes(void){ return(0); }
#endif
static int nomem_, nexec;
static int nomem(void){ return(nomem_ && mc_dev(2, "malloc")); }
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n){ return(nomem() ? NULL : __real_malloc(n)); }
void *__real_calloc(size_t n, size_t m);
void *__wrap_calloc(size_t n, size_t m){ return(nomem() ? NULL : __real_calloc(n, m)); }

/* --------------------------- the regular expressions, independently of the C */
static int mhere(const char *re, const char *re1, const char *s);
static int mchar(char c, char s){ return(s && (c == '.' || c == s)); }
static int mhere(const char *re, const char *e, const char *s){
  if(re == e) return(1);
  if(re[0] == '(' ){
    /* one group with two alternatives at the end of the expression */
    const char *b = strchr(re, '|'), *c = strchr(re, ')');
    return(mhere(re + 1, b, s) || mhere(b + 1, c, s));
  }
  if(re[0] == '$' && re + 1 == e) return(*s == 0);
  if(re[0] == '\\') return(*s == re[1] && mhere(re + 2, e, s + 1));
  if(re + 1 < e && re[1] == '*'){
    do{ if(mhere(re + 2, e, s)) return(1); }while(mchar(re[0], *s++));
    return(0);
  }
  return(mchar(re[0], *s) && mhere(re + 1, e, s + 1));
}
static int matches(const char *re, const char *s){
  const char *e = re + strlen(re);
  if(re[0] == '^') return(mhere(re + 1, e, s));
  do{ if(mhere(re, e, s)) return(1); }while(*s++);
  return(0);
}
static const char *NAME[] = { "tjsj_sxus51-abc001", "kwal_sdus53+grib", "kwbc_sxus20",
  "kwal_xxxx", "tjsj", "a", "kwbc_tigz99-N0RPAH", "xtjsj_kwal$!" };
#define NNAME 8
static const char *IT[] = { ".*", "tjsj", "^kw", "_s[ap]" /* see below */, "!kwal",
  "!\\+(grib|bufr)", "!.*", "_(sdus|tig)", "abc...$", "!^tjsj", "x*_", "(" , "!(",
  "", "!", "N0R", "!n0r", "*" };
#define NIT 18
static int item(const char *it, const char *s){
  if(strcmp(it, "_s[ap]") == 0) return(matches("_sa", s) || matches("_sp", s));
  return(matches(it, s));
}
/* 0 accepts, 1 rejects, -1 not valid */
static int want(int n, const int *it, const char *name){
  int i, r = 1;
  for(i = 0; i < n; ++i){
    const char *p = IT[it[i]];
    int neg = p[0] == '!';
    if(p[0] == 0) continue;
    p += neg;
    if(item(p, name)) r = neg;
  }
  return(r);
}
static int valid(int n, const int *it){
  int i;
  for(i = 0; i < n; ++i) if(strstr(IT[it[i]], "(") && !strstr(IT[it[i]], ")")) return(0);
  return(1);
}
static void init(void){
  nenv_init();
  if(!getenv("MC_LOGS")) nenv_log_format = 0;
}
static void match_body(void){
  int n, it[4], i, k, st, w, kind;
  char s[200] = "";
  struct uwildregex_st *r;
  uint64_t h = MC_H0;
  size_t m0;
  kind = mc_choose(6, "kind");
  n = kind < 4 ? kind : 0;
  for(i = 0; i < n; ++i){
    it[i] = mc_choose(NIT, "item");
    if(i) strcat(s, ",");
    strcat(s, IT[it[i]]);
  }
  if(kind == 5) strcpy(s, ",,");
  mc_note("{%s}", kind == 4 ? "NULL" : s);
  /* "*" alone at the beginning is left to the library */
  for(i = 0; i < n; ++i) if(strcmp(IT[it[i]], "*") == 0) return;
  for(i = 0; i < n; ++i) if(strcmp(IT[it[i]], "!") == 0) return;
  m0 = __sanitizer_get_current_allocated_bytes();
  r = uwildregex_create();
  if(r == NULL) mc_fail("cannot create");
  st = uwildregex_init(r, kind == 4 ? NULL : s);
  mc_step();
  if(valid(n, it) != (st == 0)) mc_fail("the list {%s} is %s", s, st ? "refused" : "accepted");
  if(st == 0)
    for(k = 0; k < NNAME; ++k){
      int g1 = uwildregex_match(r, (char *)NAME[k]);
      w = kind == 4 ? 0 : want(n, it, NAME[k]);
      if(g1 != w) mc_fail("the list {%s} %s %s", s, g1 == 0 ? "accepts" : g1 == 1 ?
			  "rejects" : "fails for", NAME[k]);
      h = mc_hashi(h, w);
    }
  uwildregex_free(r);
  if(nexec > 3 && __sanitizer_get_current_allocated_bytes() != m0)
    mc_fail("%ld bytes are left by the list {%s}",
	    (long)(__sanitizer_get_current_allocated_bytes() - m0), s);
  mc_outcome(h);
}
/* the eight of them: each is its own; and there may be no memory */
static void eight_body(void){
  char **p[8] = { &g.patt_accept, &g.filterq_patt_accept, &g.serverq_patt_accept,
    &g.nbs1_patt_accept, &g.nbs2_patt_accept, &g.emwin_patt_accept,
    &g.savez_patt_accept, &g.rtxdb_patt_accept };
  int (*f[8])(char *) = { np_regex_match, filterq_regex_match, serverq_regex_match,
    nbs1_regex_match, nbs2_regex_match, emwin_regex_match, savez_regex_match,
    rtxdb_regex_match };
  static const char *wh[8] = { "np", "filterq", "serverq", "nbs1", "nbs2", "emwin",
    "savez", "rtxdb" };
  int i, k, j, kind, st, bad = 0;
  static size_t left;
  size_t m0 = __sanitizer_get_current_allocated_bytes();
  i = mc_choose(8, "which"); kind = mc_choose(5, "kind");
  j = mc_choose(8, "other");
  for(k = 0; k < 8; ++k) *p[k] = NULL;
  *p[j] = "tjsj";
  *p[i] = kind == 0 ? "" : kind == 1 ? "^kw,!kwal" : kind == 2 ? "(" : kind == 3 ?
    "tjsj,!(,a" : "!kwal,x,.*";
  bad = kind == 2 || kind == 3;
  nomem_ = strcmp(mc_arg, "nomem") == 0;
  st = init_nbsp_regex();
  nomem_ = 0;
  mc_step();
  if(!bad && strcmp(mc_arg, "nomem") != 0 && st != 0) mc_fail("the patterns are refused");
  if(bad && st == 0) mc_fail("a pattern that is not valid is accepted for %s", wh[i]);
  if(st == 0)
    for(k = 0; k < 8; ++k){
      int n;
      for(n = 0; n < NNAME; ++n){
	int w = 0, r = f[k]((char *)NAME[n]);
	if(k == i) w = kind == 0 ? 1 : kind == 4 ? 0 :
		     !(matches("^kw", NAME[n]) && !matches("kwal", NAME[n]));
	else if(k == j) w = !matches("tjsj", NAME[n]);
	if(r != w) mc_fail("with the pattern of %s {%s} %s gives %d for %s", wh[i], *p[i],
			   wh[k], r, NAME[n]);
      }
    }
  free_nbsp_regex();
  g.np_regex = g.filterq_regex = g.serverq_regex = g.nbs1_regex = g.nbs2_regex =
    g.emwin_regex = g.savez_regex = g.rtxdb_regex = NULL;
  left = __sanitizer_get_current_allocated_bytes() - m0;
  if(nexec > 3 && left) mc_fail("%ld bytes are left", (long)left);
  mc_outcome(mc_hashi(mc_hashi(MC_H0, i*8 + kind), st));
}
static void body(void){
  ++nexec;
  if(strcmp(mc_arg, "match") == 0) match_body();
  else if(strcmp(mc_arg, "eight") == 0 || strcmp(mc_arg, "nomem") == 0) eight_body();
  else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 20, 0, 0 };
  return(mc_main(argc, argv, &o, init, body));
}
