/*
 * C09: the memory spool (libspoolbdb and its use by the daemon).
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "dbx.h"
#include "const.h"
#include "globals.h"
#include "spooltype.h"
#include "nbspmspoolbdb.h"

static void init(void){
  nenv_init();
  if(!getenv("MC_LOGS")) nenv_log_format = 0;
}
#define MAXSIZE 8192
static int ctype;		/* 0 memory, 1 shared memory, 2 cache (file) */
static void path(char *b, int id){
  sprintf(b, "%s/kwbc/kwbc_sxus%02d-abc.010203_%u", g.spooldir, id % 100,
	  id == 0 ? 7u : id == 1 ? 4294967295u : 70u + (unsigned)id*10);
}
static unsigned char fill(int id, int i){
  return((unsigned char)(id*37 + i*11 + i/251 + 1));
}
static int insert(int id, int n){
  static unsigned char b[MAXSIZE + 100];
  char p[600];
  int i;
  path(p, id);
  for(i = 0; i < n; ++i) b[i] = fill(id, i);
  mc_step();
  return(ctype == 2 ? nbsp_cspoolbdb_insert(p, b, n) :
	 nbsp_mspoolbdb_insert(p, b, n));
}
static int sopen(int id){
  char p[600];
  path(p, id);
  mc_step();
  return(ctype == 2 ? nbsp_cspoolbdb_open(p) : nbsp_mspoolbdb_open(p));
}
static size_t sread(int sd, void *b, size_t n){
  return(ctype == 2 ? nbsp_cspoolbdb_read(sd, b, n) :
	 nbsp_mspoolbdb_read(sd, b, n));
}
static size_t ssize(int sd){
  return(ctype == 2 ? nbsp_cspoolbdb_datasize(sd) : nbsp_mspoolbdb_datasize(sd));
}
static int sclose(int sd){
  return(ctype == 2 ? nbsp_cspoolbdb_close(sd) : nbsp_mspoolbdb_close(sd));
}
static void up(int ndb, int nslots){
  g.mspoolbdb_dbcache_mb = g.cspoolbdb_dbcache_mb = 1;
  g.mspoolbdb_maxsize_per128 = g.cspoolbdb_maxsize_per128 = 1;
  g.mspoolbdb_ndb = g.cspoolbdb_ndb = ndb;
  g.mspoolbdb_nslots = g.cspoolbdb_nslots = nslots;
  g.mspoolbdb = g.cspoolbdb = NULL;
  g.spooltype = ctype == 0 ? SPOOLTYPE_MBDB : ctype == 1 ? SPOOLTYPE_MBDB :
    SPOOLTYPE_FMBDB;
  if(g.spooltype == SPOOLTYPE_FMBDB) ctype = 0;
  if(nbsp_mspoolbdb_create() != 0) mc_fail("the memory spool is not created");
}
static void down(void){
  if(nbsp_mspoolbdb_destroy() != 0) mc_fail("the memory spool is not closed");
}
/* 1 there and right, 0 not there, -1 error */
static int lookup(int id, int n, int how){
  static unsigned char b[MAXSIZE + 4000];
  int sd = sopen(id), i, k = 0, c;
  if(sd == -2) return(0);
  if(sd < 0) return(-1);
  if((int)ssize(sd) != n)
    mc_fail("product %d has %d bytes in the memory spool, should be %d", id,
	    (int)ssize(sd), n);
  c = how == 0 ? n + 100 : how == 1 ? 4096 : 1000;
  for(;;){
    size_t r = sread(sd, b + k, c);
    if(r > (size_t)c || k + (int)r > n) mc_fail("more than the data is read");
    k += r;
    if(r == 0) break;
    if((int)r < c && k != n) mc_fail("short read");
  }
  if(k != n) mc_fail("%d bytes of %d are read", k, n);
  for(i = 0; i < n; ++i)
    if(b[i] != fill(id, i)) mc_fail("product %d has a wrong byte at %d", id, i);
  if(sclose(sd) != 0) mc_fail("a slot cannot be closed");
  return(1);
}

/* ---------------------------------------------------------- histories */
static struct { int n, in; } M[64];	/* in: data base, 0: none */
static int nm, M_ndb, M_wr, M_size;
static void m_trunc(int k){
  int i;
  for(i = 0; i < nm; ++i) if(M[i].in == k) M[i].in = 0;
}
static void m_next(void){
  M_wr = M_wr % M_ndb + 1; m_trunc(M_wr); M_size = 0;
}
static int enomem, eio;
static int hook(const char *op){
  if(strcmp(op, "db-put") != 0) return(0);
  if(enomem > 0){ --enomem; return(ENOMEM); }
  if(eio > 0){ --eio; return(EIO); }
  return(0);
}
static void check_all(void){
  int i, tot = 0;
  for(i = 0; i < nm; ++i){
    int r = lookup(i, M[i].n, i % 3);
    if(r < 0) mc_fail("product %d cannot be looked for", i);
    if(M[i].in && !r)
      mc_fail("product %d (%d bytes), the last but %d, is not in the spool", i,
	      M[i].n, nm - 1 - i);
    if(r) tot += M[i].n;
  }
  if(tot > M_ndb*MAXSIZE) mc_fail("%d bytes in the spool", tot);
}
static void body_hist(void){
  static const int sz[] = { 1, 3000, MAXSIZE/2, MAXSIZE };
  int first = mc_choose(27, "configuration, first"), d, depth = mc_tier ? 6 : 5;
  uint64_t h;
  M_ndb = 1 + first/9 ; nm = 0; M_wr = 1; M_size = 0;
  ctype = 0;
  h = mc_hashi(MC_H0, M_ndb);
  up(M_ndb, 1);
  dbx_hook = hook;
  for(d = 0; d < depth; ++d){
    int op = d == 0 ? first % 9 : mc_choose(9, "op"), st, n, want = 0;
    enomem = eio = 0;
    if(op < 4) n = sz[op];
    else if(op == 4) n = MAXSIZE + 1;
    else n = 3001;
    if(op >= 5 && op <= 7) enomem = op - 4;
    if(op == 8) eio = 1;
    st = insert(nm, n);
    M[nm].n = n; M[nm].in = 0;
    ++nm;
    if(op == 4) want = -1;
    else{
      if(M_size + n > MAXSIZE) m_next();
      if(op == 8) want = -1;
      if(op >= 5 && op <= 7) m_next();
      if(op >= 6 && op <= 7){
	int k;
	for(k = 1; k <= M_ndb; ++k) m_trunc(k);
	M_wr = 1; M_size = 0;
      }
      if(op == 7) want = -1;
      if(want == 0){ M[nm - 1].in = M_wr; M_size += n; }
    }
    if(st != want) mc_fail("insertion (op %d, %d bytes) gives %d", op, n, st);
    check_all();
    h = mc_hashi(mc_hashi(h, op), M_wr*10000 + M_size);
    mc_state(h);
  }
  dbx_hook = NULL;
  down();
  mc_outcome(h);
}

/* ------------------------------------------------------------- failures */
static void body_faults(void){
  static const int sz[] = { 3000, 3000, MAXSIZE/2, 3000, 10, MAXSIZE, 3000 };
  int c = mc_choose(3, "data bases"), i, ok[7], st;
  ctype = 0; dbx_faults = 0;
  up(c + 1, 1);
  for(i = 0; i < 7; ++i){
    unsigned f0 = dbx_nfaults;
    dbx_faults = 1;
    st = insert(i, sz[i]);
    dbx_faults = 0;
    ok[i] = st == 0;
    if(!ok[i] && f0 == dbx_nfaults) mc_fail("an insertion fails: %d", st);
    if(ok[i] && lookup(i, sz[i], 0) != 1)
      mc_fail("a product just inserted is not in the spool");
    if(!ok[i] && lookup(i, sz[i], 0) == 1)
      mc_fail("a product refused is in the spool");
    f0 = dbx_nfaults;
    dbx_faults = 1;
    st = lookup(i, sz[i], 1);
    dbx_faults = 0;
    if(ok[i] && st != 1 && f0 == dbx_nfaults) mc_fail("not found");
    if(st == 0 && ok[i] && f0 != dbx_nfaults)
      mc_fail("a failure is taken for an absent product");
    /* whatever failed before is as it should be now */
    if(ok[i] && lookup(i, sz[i], 2) != 1) mc_fail("not found again");
    if(c == 2 && i > 0 && ok[i - 1] && ok[i] && dbx_nfaults == 0 &&
       lookup(i - 1, sz[i - 1], 0) != 1) mc_fail("the last but one is gone");
  }
  down();
  if(dbx_open_handles != 0) mc_fail("%d handles left", dbx_open_handles);
  mc_state(mc_hashi(mc_hashs(MC_H0, dbx_last), c));
  mc_outcome(mc_hashi(mc_hashs(MC_H0, dbx_last), c));
}

/* ------------------------------------------------------------ schedules */
static int owner[8], nslots, rcount, missing, nopen;
static void *reader(void *a){
  int me = (int)(intptr_t)a, r, i;
  unsigned char b[4000];
  for(r = 0; r < rcount; ++r){
    int id = missing ? me == 1 ? 50 : me : (me + r) % 3, sd, n, k;
    sd = sopen(id);
    if(sd < 0){
      if(sd == -1 || id != 50) mc_fail("product %d cannot be opened: %d", id, sd);
      continue;
    }
    if(id == 50) mc_fail("a product that does not exist is opened");
    if(sd >= nslots) mc_fail("slot %d of %d", sd, nslots);
    if(owner[sd]) mc_fail("slot %d is given to two readers", sd);
    owner[sd] = 1;
    if(++nopen > nslots) mc_fail("more slots are open than there are");
    n = ssize(sd);
    if(n != 1000 + id*100) mc_fail("size %d", n);
    sched_point("between reads");
    for(k = 0; k < n; ){
      size_t m = sread(sd, b + k, 700);
      if(m == 0) mc_fail("data ends at %d", k);
      k += m;
      sched_point("between reads");
    }
    for(i = 0; i < n; ++i)
      if(b[i] != fill(id, i)) mc_fail("reader %d: wrong byte %d of %d", me, i, id);
    owner[sd] = 0; --nopen;
    if(sclose(sd) != 0) mc_fail("close");
  }
  return(NULL);
}
static int wn;
static void *writer(void *a){
  int i;
  (void)a;
  for(i = 0; i < wn; ++i)
    if(insert(10 + i, 6000) != 0) mc_fail("an insertion fails");
  return(NULL);
}
static void sched_main(void *a){
  int cfg = mc_choose(2, "configuration"), i, id[5], n = 0;
  (void)a;
  nslots = cfg & 1 ? 2 : 1;
  ctype = 0; nopen = 0;
  memset(owner, 0, sizeof(owner));
  up(2, nslots);
  for(i = 0; i < 3; ++i) if(insert(i, 1000 + i*100) != 0) mc_die("insert");
  rcount = 1; wn = 1;
  dbx_points = !missing; sched_sync_points = 1;
  for(i = 0; i < 3; ++i)
    id[n++] = sched_spawn(reader, (void *)(intptr_t)i, "reader");
  if(!missing) id[n++] = sched_spawn(writer, NULL, "writer");
  for(i = 0; i < n; ++i) sched_join(id[i]);
  if(missing) insert(10, 6000);
  dbx_points = 0; sched_sync_points = 0;
  for(i = 0; i < 3; ++i)
    if(lookup(i, 1000 + i*100, 0) != 1) mc_fail("product %d is gone", i);
  if(lookup(10, 6000, 0) != 1) mc_fail("the new product is not there");
  down();
  mc_outcome(cfg);
  mc_state(cfg);
}
/* a writer that displaces what is being read */
static void *reader2(void *a){
  int i, r;
  static unsigned char b[2][9000];
  int me = (int)(intptr_t)a;
  for(r = 0; r < 3; ++r){
    int id = 10 + r, sd = sopen(id), k = 0, n;
    if(sd == -2) continue;
    if(sd < 0) mc_fail("cannot be opened");
    n = ssize(sd);
    if(n != 6000) mc_fail("size %d", n);
    while(k < n){
      size_t m = sread(sd, b[me] + k, 3000);
      if(m == 0) mc_fail("data ends at %d", k);
      k += m;
      sched_point("between reads");
    }
    for(i = 0; i < n; ++i) if(b[me][i] != fill(id, i)) mc_fail("wrong byte");
    sclose(sd);
  }
  return(NULL);
}
static void displace_main(void *a){
  int cfg = mc_choose(4, "configuration"), i, id[5], n = 0;
  (void)a;
  ctype = 0;
  up(1 + cfg/2, 1 + cfg % 2);
  wn = 3;
  dbx_points = 1; sched_sync_points = 0;
  for(i = 0; i < 2; ++i)
    id[n++] = sched_spawn(reader2, (void *)(intptr_t)i, "reader");
  id[n++] = sched_spawn(writer, NULL, "writer");
  for(i = 0; i < n; ++i) sched_join(id[i]);
  dbx_points = 0;
  for(i = 0; i < 3; ++i){
    int r = lookup(10 + i, 6000, 0);
    if(r != (i >= 3 - (1 + cfg/2)))
      mc_fail("product %d %s there", i, r ? "is" : "is not");
  }
  down();
  mc_outcome(cfg); mc_state(cfg);
}
static void hist_main(void *a){ (void)a; body_hist(); }
static void faults_main(void *a){ (void)a; body_faults(); }
static void run(void){
  vclock_reset();
  dbx_nfaults = 0; dbx_last = ""; dbx_hook = NULL; dbx_open_handles = 0;
  dbx_faults = dbx_points = 0; sched_sync_points = 0;
  sched_early_timeouts = sched_spurious = 0;
  if(!strcmp(mc_arg, "hist")) sched_run(hist_main, NULL);
  else if(!strcmp(mc_arg, "faults")) sched_run(faults_main, NULL);
  else if(!strcmp(mc_arg, "slots")){ missing = 0; sched_run(sched_main, NULL); }
  else if(!strcmp(mc_arg, "missing")){
    missing = 1; sched_run(sched_main, NULL);
  }
  else if(!strcmp(mc_arg, "spurious")){
    sched_spurious = 1; missing = 1; sched_run(sched_main, NULL);
  }
  else if(!strcmp(mc_arg, "displace")) sched_run(displace_main, NULL);
  else mc_die("part %s", mc_arg);
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 60, 0, 0 };
  return(mc_main(argc, argv, &o, init, run));
}
