/*
 * C05: the queues that feed the filters, the network server and its clients.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "dbx.h"
#include "globals.h"
#include "libqdb/qdb.h"
#include "nbspq.h"
#include "packfp.h"
#include "dbenv.h"

#define RECLEN 200
#define MAXI 64
struct item { int id, q, size, got; int64_t t0, t1; };
static struct item I[3][MAXI];
static int head[3], tail[3];
static nbspqtable_t *T;
static int nid, hard, soft;

static void init(void){
  nenv_init(); nenv_log_format = 0;
  if(!strcmp(mc_arg, "daemon")){
    g.dbcache_mb = 1;
    if(nbsp_open_dbenv() != 0) mc_die("dbenv: %s", nenv_lastlog);
  }
}

static void fill(unsigned char *b, int id, int n){
  int i;
  for(i = 0; i < n; ++i) b[i] = (unsigned char)(id*53 + i*(id | 1) + 7);
}
static void openq(int n, const char *db){
  struct qdb_param_st par;
  int e = 0;
  memset(&par, 0, sizeof(par));
  par.dbname = (char *)db; par.mode = 0600; par.extent_size = 4;
  par.reclen = RECLEN; par.cache_mb = 1;
  T = nbspqt_open(n, soft, hard, &par, &e);
  if(T == NULL && e == 0) mc_fail("a failed open without an error code");
}
static void closeq(void){
  int e;
  if(T != NULL && nbspqt_close(T, &e) != 0) mc_fail("close fails");
  T = NULL;
}
static void check1(struct item *it, const unsigned char *p, uint32_t n){
  unsigned char w[RECLEN];
  fill(w, it->id, it->size);
  if(n < (uint32_t)it->size)
    mc_fail("record %d received with %u bytes of %d", it->id, n, it->size);
  if(memcmp(p, w, it->size) != 0)
    mc_fail("record %d of queue %d expected, another or different one "
	    "received", it->id, it->q);
}

/* ------------------------------------------------------ histories */
static void snd(int q, int size){
  unsigned char b[RECLEN];
  int st, e = -1, want = 0, n = tail[q] - head[q];
  unsigned f0 = dbx_nfaults;
  struct item it;
  it.id = ++nid; it.q = q; it.size = size;
  fill(b, it.id, size);
  if(hard && n >= hard) want = 2;
  else if(soft && n + 1 >= soft) want = 1;
  st = nbspqt_snd(T, q, b, size, &e);
  mc_step();
  if(dbx_nfaults != f0){
    if(st != -1) mc_fail("a failed insertion gives %d", st);
    if(e <= 0) mc_fail("a failed insertion has no error code");
    if(!nbspqt_test_qdb_status_flag(T, q, QDB_FSTATUS_DBERROR))
      mc_fail("a failed insertion does not set the error flag");
    return;
  }
  if(st != want)
    mc_fail("sending to queue %d with %d elements (limits %d %d) gives %d, "
	    "not %d", q, n, soft, hard, st, want);
  if(!!nbspqt_test_qdb_status_flag(T, q, QDB_FSTATUS_MAX_HARD) != (want == 2))
    mc_fail("the hard limit flag is wrong after a status %d", want);
  if(want != 2 &&
     !!nbspqt_test_qdb_status_flag(T, q, QDB_FSTATUS_MAX_SOFT) != (want == 1))
    mc_fail("the soft limit flag is wrong after a status %d", want);
  if(want != 2 && nbspqt_test_qdb_status_flag(T, q, QDB_FSTATUS_DBERROR))
    mc_fail("the error flag is set after an insertion");
  if(want == 2) return;
  I[q][tail[q]++] = it;
  if(nbspqt_n(T, q) != (uint32_t)(tail[q] - head[q]))
    mc_fail("the queue counts %u elements instead of %d", nbspqt_n(T, q),
	    tail[q] - head[q]);
}
static void rcv(int q, int timeout, int own){
  unsigned char *b = NULL;
  void *p = NULL;
  uint32_t n = 0;
  int st, e = -1;
  int64_t t = vclock_ns;
  unsigned f0 = dbx_nfaults;
  if(own){ b = malloc(RECLEN); p = b; n = RECLEN; }
  st = nbspqt_rcv(T, q, &p, &n, timeout, &e);
  mc_step();
  if(dbx_nfaults != f0){
    if(st == 1) mc_fail("a failed read is reported as an empty queue");
    if(st == 0){
      if(head[q] == tail[q]) mc_fail("a record out of an empty queue");
      check1(&I[q][head[q]++], p, n);
    }else if(strcmp(dbx_last, "db-truncate") == 0){
      /* the record was read and only the cleanup failed */
      if(head[q] < tail[q]) ++head[q];
    }
    if(st == 0 && !own) free(p);
    free(b);
    return;
  }
  if(head[q] == tail[q]){
    if(st != 1) mc_fail("reading the empty queue %d (timeout %d ms) gives %d "
			"(error %d)", q, timeout, st, e);
    if(vclock_ns - t < (int64_t)timeout*1000000 - 1000 ||
       vclock_ns - t > (int64_t)timeout*1000000 + 1000000)
      mc_fail("the read of %d ms returned after %ld us", timeout,
	      (long)(vclock_ns - t)/1000);
    free(b);
    return;
  }
  if(st != 0 || p == NULL)
    mc_fail("queue %d has %d elements but reading gives %d", q,
	    tail[q] - head[q], st);
  check1(&I[q][head[q]++], p, n);
  if(own && p != b) mc_fail("the buffer of the caller was not used");
  if(!own) free(p);
  free(b);
  if(nbspqt_n(T, q) != (uint32_t)(tail[q] - head[q]))
    mc_fail("the queue counts %u elements instead of %d", nbspqt_n(T, q),
	    tail[q] - head[q]);
}
static uint64_t hh(void){
  uint64_t h = MC_H0; int i, q;
  for(q = 0; q < 3; ++q){
    for(i = head[q]; i < tail[q]; ++i){
      h = mc_hashi(h, I[q][i].id); h = mc_hashi(h, I[q][i].size);
    }
    h = mc_hashi(h, 777 + head[q]);
  }
  return(mc_hashi(h, hard*100 + soft*10));
}
static void body_hist(void){
  int file = strcmp(mc_arg, "file") == 0, depth, d, op, cfg, q, nf;
  int faults = strcmp(mc_arg, "faults") == 0, h0 = dbx_open_handles;
  char *db = NULL;
  static const int phase[] = { 0, 999999000 };
  depth = mc_tier ? 6 : 5;
  if(file) depth -= 1;
  if(faults) depth -= 1;
  dbx_nfaults = 0;
  memset(head, 0, sizeof(head)); memset(tail, 0, sizeof(tail)); nid = 0;
  cfg = mc_choose(8, "config");
  hard = (cfg & 1) ? 2 : 0;
  soft = (cfg & 2) ? (hard ? 1 : 2) : 0;
  vclock_ns = 1700000000LL*1000000000 + phase[(cfg >> 2) & 1];
  if(file){
    nenv_rmtree_contents("");
    db = nenv_path("q");
  }
  dbx_faults = faults;
  openq(3, db);
  if(T == NULL){
    if(dbx_nfaults == 0) mc_fail("cannot open the queues");
    if(dbx_open_handles != h0)
      mc_fail("%d data base handles left open by a failed open",
	      dbx_open_handles - h0);
    dbx_faults = 0;
    return;
  }
  nf = file ? 7 : 7;
  for(d = 0; d < depth; ++d){
    op = mc_choose(nf, "op");
    switch(op){
    case 0: snd(0, RECLEN); break;
    case 1: snd(1, 33); break;
    case 2: rcv(0, 0, 0); break;
    case 3: rcv(1, 1, 1); break;
    case 4: rcv(0, 1999, 1); break;
    case 5: snd(1, RECLEN - 1); break;
    case 6:
      if(file){
	closeq();
	openq(3, db);
	if(T == NULL){
	  if(dbx_nfaults == 0) mc_fail("cannot reopen the queues");
	  goto out;
	}
	for(q = 0; q < 3; ++q)
	  if(nbspqt_n(T, q) != (uint32_t)(tail[q] - head[q]))
	    mc_fail("after reopening the queue %d has %u elements instead of "
		    "%d", q, nbspqt_n(T, q), tail[q] - head[q]);
      }else
	rcv(1, 0, 0);
      break;
    }
    mc_state(mc_hashi(hh(), dbx_nfaults));
  }
  dbx_faults = 0;
  for(q = 0; q < 3; ++q){
    while(head[q] < tail[q]) rcv(q, 0, 1);
    rcv(q, 0, 1);
  }
 out:
  dbx_faults = 0;
  mc_outcome(mc_hashi(hh(), tail[0]*100 + tail[1]*10 + dbx_nfaults));
  closeq();
  free(db);
  if(dbx_open_handles != h0) mc_fail("data base handles left open");
}

/* ------------------------------------------------------ schedules */
static int nprod, nmsg, to, ngot, nref, alive;
static int64_t tick;
static void *producer(void *a){
  int pr = (int)(long)a, k, e, st;
  unsigned char b[RECLEN];
  for(k = 0; k < nmsg; ++k){
    struct item *it = &I[0][tail[0]++];
    it->id = 100*(pr + 1) + k; it->q = 0; it->size = 60 + pr; it->got = 0;
    it->t0 = ++tick; it->t1 = -1;
    fill(b, it->id, it->size);
    b[0] = pr; b[1] = k;
    st = nbspqt_snd(T, 0, b, it->size, &e);
    it->t1 = ++tick;
    if(st == 2 && hard){
      if(it->got) mc_fail("record %d was refused but delivered", it->id);
      it->got = -1; ++nref;
    }else if(st != 0 && !(st == 1 && soft))
      mc_fail("sending gives %d", st);
  }
  --alive;
  return(NULL);
}
static void *consumer(void *a){
  int n = 0, st, e, i, avail;
  void *p; uint32_t sz; unsigned char w[RECLEN], b[RECLEN];
  (void)a;
  for(;;){
    int64_t t = vclock_ns;
    struct item *it = NULL;
    for(i = avail = 0; i < tail[0]; ++i)
      if(I[0][i].got == 0 && I[0][i].t1 >= 0) ++avail;
    if(!hard && ngot == nprod*nmsg) break;
    if(hard && alive == 0 && avail == 0) break;
    if(++n > 40) mc_fail("the reader does not get the records");
    p = b; sz = RECLEN; e = 0;
    st = nbspqt_rcv(T, 0, &p, &sz, to, &e);
    mc_step();
    if(st == 1){
      if(to < 0) mc_fail("a read without timeout reports an empty queue");
      if(avail) mc_fail("a record was waiting but the queue is reported "
			"empty");
      if(vclock_ns - t < (int64_t)to*1000000 - 1000)
	mc_fail("the read returned before its timeout");
      if(to == 0){ sched_point("poll"); if(n > 6) to = 50; }
      continue;
    }
    if(st != 0) mc_fail("reading gives %d (error %d)", st, e);
    for(i = 0; i < tail[0]; ++i)
      if(I[0][i].id == 100*(b[0] + 1) + b[1]) it = &I[0][i];
    if(it == NULL) mc_fail("a record nobody sent");
    fill(w, it->id, it->size); w[0] = b[0]; w[1] = b[1];
    if(memcmp(w, b, it->size) != 0) mc_fail("wrong content");
    if(it->got > 0) mc_fail("record %d received twice", it->id);
    if(it->got < 0) mc_fail("record %d was refused but delivered", it->id);
    for(i = 0; i < tail[0]; ++i)
      if(I[0][i].got == 0 && I[0][i].t1 >= 0 && I[0][i].t1 < it->t0)
	mc_fail("record %d received before %d, sent earlier", it->id,
		I[0][i].id);
    it->got = 1; ++ngot;
    if(to > 0 && !sched_early_timeouts &&
       vclock_ns - t >= (int64_t)to*1000000)
      mc_fail("the reader slept for the full timeout although a record "
	      "arrived");
  }
  return(NULL);
}
static void sched_main(void *a){
  int i, id[4];
  uint64_t h = MC_H0;
  (void)a;
  alive = nprod;
  for(i = 0; i < nprod; ++i)
    id[i] = sched_spawn(producer, (void *)(long)i, "snd");
  i = sched_spawn(consumer, NULL, "rcv");
  sched_join(i);
  for(i = 0; i < nprod; ++i) sched_join(id[i]);
  for(i = 0; i < tail[0]; ++i) h = mc_hashi(h, I[0][i].id*2+(I[0][i].got<0));
  mc_state(h); mc_outcome(h);
}
static void body_sched(void){
  int mem = strcmp(mc_arg, "mem") == 0;
  memset(head, 0, sizeof(head)); memset(tail, 0, sizeof(tail));
  hard = soft = 0; nprod = 1; nmsg = 3; to = -1; ngot = nref = 0; tick = 0;
  sched_early_timeouts = sched_spurious = 0; sched_sync_points = 1;
  dbx_points = 0;
  if(!strcmp(mc_arg, "two")){ nprod = 2; nmsg = 2; }
  if(!strcmp(mc_arg, "timed")){
    nmsg = 2;
    to = mc_choose(2, "timeout") ? 700 : 0;
    sched_early_timeouts = mc_choose(2, "early");
  }
  if(!strcmp(mc_arg, "limit")){ hard = 1; to = 100; nmsg = 3; }
  if(!strcmp(mc_arg, "spurious")){
    sched_spurious = 1; nmsg = 2;
    to = mc_choose(2, "timeout") ? 700 : -1;
  }
  if(mem){ nmsg = 2; }
  openq(1, NULL);
  if(T == NULL) mc_fail("cannot open the queue");
  dbx_points = 1;
  if(mem){
    sched_mem_ranges_clear();
    sched_mem_range(T->nbspq[0], sizeof(*T->nbspq[0]));
    sched_mem_points = 1; sched_sync_points = 0;
  }
  sched_run(sched_main, NULL);
  sched_mem_points = 0; dbx_points = 0;
  closeq();
}

/* ------------------------------------- the queues as the daemon uses them */
static void body_daemon(void){
  int d, op, q, st, nq[2] = {0, 0}, hd[2] = {0, 0}, on[2];
  int list[2][16];
  void *p; size_t n;
  unsigned char b[RECLEN];
  char *r;
  g.queue_maxsize_hard = mc_choose(2, "hard") ? 2 : 0;
  g.queue_maxsize_soft = 1;
  g.queue_read_timeout_ms = 1500;
  vclock_ns = 1700000000LL*1000000000 + (mc_choose(2, "phase") ? 600000000:0);
  g.qdb_dbfname = NULL;
  on[0] = g.f_filter_thread_created = mc_choose(2, "filter");
  on[1] = g.f_server_thread_created = mc_choose(2, "server");
  if(init_nbspq() != 0) mc_fail("init_nbspq fails");
  nid = 0;
  for(d = 0; d < (mc_tier ? 7 : 6); ++d){
    op = mc_choose(4, "op");
    q = op & 1;
    if(op < 2){
      int full = g.queue_maxsize_hard && nq[q] - hd[q] >= g.queue_maxsize_hard;
      ++nid;
      fill(b, nid, 50);
      st = q ? e_nbspq_snd_server(b, 50) : e_nbspq_snd_filter(b, 50);
      if(!on[q]){
	if(st != 0) mc_fail("sending to a disabled queue gives %d", st);
      }else if(full){
	if(st == 0) mc_fail("an element beyond the hard limit was accepted");
      }else if(st != 0) mc_fail("sending to queue %d gives %d", q, st);
      else list[q][nq[q]++] = nid;
    }else{
      n = 0; p = NULL;
      st = q ? e_nbspq_rcv_server(&p, &n) : e_nbspq_rcv_filter(&p, &n);
      if(hd[q] == nq[q]){
	if(st != 1) mc_fail("reading the empty queue %d gives %d", q, st);
      }else{
	unsigned char w[50];
	if(st != 0) mc_fail("reading queue %d gives %d", q, st);
	fill(w, list[q][hd[q]++], 50);
	if(n < 50 || memcmp(w, p, 50) != 0)
	  mc_fail("wrong element from queue %d", q);
	free(p);
      }
    }
    mc_step();
    e_nbspq_report_quota();
    mc_state(mc_hashi(mc_hashi(MC_H0, nq[0]*100 + nq[1]),
		      hd[0]*100 + hd[1] + 10000*g.queue_maxsize_hard));
  }
  mc_outcome(mc_hashi(mc_hashi(MC_H0, nq[0]*100 + nq[1]), hd[0]*100 + hd[1]));
  kill_nbspq();
  (void)r;
}
static void run(void){
  vclock_reset();
  dbx_faults = dbx_points = 0;
  if(!strcmp(mc_arg, "hist") || !strcmp(mc_arg, "file") ||
     !strcmp(mc_arg, "faults")) body_hist();
  else if(!strcmp(mc_arg, "daemon")) body_daemon();
  else body_sched();
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 30, 0, 0 };
  return(mc_main(argc, argv, &o, init, run));
}
