/*
 * C04: the queue between the receivers and the processor. All the thread
 * schedules within a preemption bound of several receivers and the
 * processor, all the operation histories up to a depth (sizes, limits, clock
 * changes, reopening), and all the placements of data base failures.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "dbx.h"
#include "globals.h"
#include "pctl.h"
#include "nbspre.h"

#define MAXI 64
struct item { unsigned seq; int ch; int size; int64_t t0, t1; int got; };
static struct item I[MAXI];
static int ni;
static struct pctl_st *P;
static struct pctldb_param_st par;
static int nopen;

static void init(void){
  nenv_init();
  nenv_log_format = 0;
}
static void openq(int ch, int hard, int soft, int mfhard, char *db, char *mf){
  memset(&par, 0, sizeof(par));
  par.reclen = const_pce_data_size();
  par.memfile_minsize = 4096;
  par.hardlimit = hard; par.softlimit = soft;
  par.mf_hardlimit_mb = mfhard;
  par.dbname = db; par.mfdbname = mf;
  par.mode = 0600;
  P = epctl_open(ch, &par);
  if(P) ++nopen;
}
static void closeq(void){
  if(P){ epctl_close(P); free(P); P = NULL; }
  dbx_faults = dbx_points = 0;
}
static unsigned char byte(unsigned seq, int i){
  return((unsigned char)(seq*37 + i*(3 + (seq & 7)) + (i >> 8)));
}
static void fill(unsigned char *b, unsigned seq, int n){
  int i;
  for(i = 0; i < n; ++i) b[i] = byte(seq, i);
}
static unsigned char buf[1500000];

/* what the receiver does with a finished product */
static int sendone(int ch, unsigned seq, int size){
  struct pctl_element_st *p;
  int st;
  p = open_pctl_activepce(P, ch);
  if(p == NULL) mc_fail("a receiver cannot start a product");
  p->seq_number = seq;
  p->np_channel_index = ch;
  p->f_complete = 1;
  p->num_fragments = p->recv_fragments = 1;
  p->orig_seq_number = seq * 3;
  sprintf(p->fname, "n%u", seq);
  sprintf(p->fbasename, "b%u", seq);
  p->fpath[0] = 'p'; p->fpath[1] = '\0';
  if(size > 0){
    fill(buf, seq, size);
    if(write_memfile(p->mf, buf, size) < 0) mc_die("write_memfile");
  }
  st = esend_pctl_activepce(P, ch);
  close_pctl_activepce(P, ch);
  return(st);
}
static void checkone(struct pctl_element_st *p, struct item *it){
  char nm[32];
  int i;
  if(p->seq_number != it->seq || p->np_channel_index != it->ch ||
     p->orig_seq_number != it->seq * 3 || !p->f_complete)
    mc_fail("received the record of product %u (channel %d), expected %u "
	    "(channel %d)", p->seq_number, p->np_channel_index, it->seq,
	    it->ch);
  sprintf(nm, "b%u", it->seq);
  if(strcmp(p->fbasename, nm) != 0)
    mc_fail("record of product %u has the name %s", it->seq, p->fbasename);
  if((int)p->mf->size != it->size)
    mc_fail("product %u received with %d bytes of data, %d were sent", it->seq,
	    (int)p->mf->size, it->size);
  for(i = 0; i < it->size; ++i)
    if(((unsigned char *)p->mf->p)[i] != byte(it->seq, i))
      mc_fail("product %u received with the wrong data at byte %d", it->seq,i);
}
static struct item *find(unsigned seq){
  int i;
  for(i = 0; i < ni; ++i) if(I[i].seq == seq) return(&I[i]);
  return(NULL);
}

/* ---------------------------------------------------- schedules */
static int nprod, nmsg, hard;
static int alive, order[MAXI], norder;
static int64_t tick;

static void *producer(void *a){
  int ch = (int)(long)a, k;
  for(k = 0; k < nmsg; ++k){
    unsigned seq = 100*(ch + 1) + k;
    struct item *it = &I[ni++];
    int st, nq;
    it->seq = seq; it->ch = ch; it->size = (ch + 1)*700 + 10*k; it->got = 0;
    it->t0 = ++tick; it->t1 = -1;
    st = sendone(ch, seq, it->size);
    it->t1 = ++tick;
    if(st != 0){
      if(st != 2 || hard == 0)
	mc_fail("product %u could not be queued (%d)", seq, st);
      if(it->got) mc_fail("product %u was refused but delivered", seq);
      it->got = -1;		/* refused */
      (void)nq;
    }
  }
  --alive;
  return(NULL);
}
static void rcvcheck(struct pctl_element_st *p){
  struct item *it = find(p->seq_number);
  int i;
  if(it == NULL) mc_fail("a product (%u) nobody sent", p->seq_number);
  if(it->got > 0) mc_fail("product %u received twice", it->seq);
  if(it->got < 0) mc_fail("product %u was refused but delivered", it->seq);
  checkone(p, it);
  /* FIFO: nothing sent entirely before it may still be in the queue */
  for(i = 0; i < ni; ++i)
    if(I[i].got == 0 && I[i].t1 >= 0 && I[i].t1 < it->t0)
      mc_fail("product %u received before %u which was sent earlier", it->seq,
	      I[i].seq);
  it->got = 1;
  order[norder++] = it->seq;
}
static int to;			/* timeout of the consumer, -1 none */
static void *consumer(void *a){
  struct pctl_element_st *p;
  int st, n = 0, i, avail;
  (void)a;
  for(;;){
    int64_t t;
    avail = 0;
    for(i = 0; i < ni; ++i) if(I[i].got == 0 && I[i].t1 >= 0) ++avail;
    if(hard == 0 && norder == nprod*nmsg) break;
    if(hard != 0 && alive == 0 && avail == 0) break;
    if(++n > 40) mc_fail("the processor does not get the products");
    t = vclock_ns;
    st = -77;
    p = eopen_pctl_outputpce(P, to, &st);
    mc_step();
    if(st == 0){
      if(p == NULL) mc_fail("no product although the status is 0");
      rcvcheck(p);
      close_pctl_outputpce(P);
      if(to > 0 && !sched_early_timeouts &&
	 vclock_ns - t >= (int64_t)to*1000000)
	mc_fail("the processor slept for the full timeout although product "
		"%u arrived", p->seq_number);
    }else if(st == 1){
      if(to < 0) mc_fail("a read without timeout reports an empty queue");
      if(avail) mc_fail("a product was waiting but the queue is reported "
			"empty");
      if(vclock_ns - t < (int64_t)to*1000000 - 1000)
	mc_fail("the read returned before its timeout");
      if(to == 0){ sched_point("poll"); if(n > 6) to = 50; }
    }else
      mc_fail("reading the queue fails (%d)", st);
  }
  return(NULL);
}
static void sched_main(void *a){
  int i, id[8];
  uint64_t h;
  (void)a;
  alive = nprod;
  for(i = 0; i < nprod; ++i)
    id[i] = sched_spawn(producer, (void *)(long)i, "recv");
  i = sched_spawn(consumer, NULL, "proc");
  sched_join(i);
  for(i = 0; i < nprod; ++i) sched_join(id[i]);
  if(hard == 0 && norder != nprod*nmsg) mc_fail("lost products");
  h = MC_H0;
  for(i = 0; i < norder; ++i) h = mc_hashi(h, order[i]);
  for(i = 0; i < ni; ++i) h = mc_hashi(h, I[i].got < 0);
  mc_state(h); mc_outcome(h);
}
static void body_sched(void){
  int mem = strcmp(mc_arg, "mem") == 0;
  ni = norder = 0; tick = 0; hard = 0; to = -1;
  nprod = 2; nmsg = 2;
  sched_early_timeouts = 0; sched_spurious = 0; sched_sync_points = 1;
  dbx_faults = dbx_points = 0;
  if(strcmp(mc_arg, "three") == 0){ nprod = 3; nmsg = 1; }
  if(strcmp(mc_arg, "timed") == 0){
    nprod = 1; nmsg = 2;
    to = mc_choose(2, "timeout") ? 700 : 0;
    sched_early_timeouts = mc_choose(2, "early");
  }
  if(strcmp(mc_arg, "limit") == 0){ nprod = 2; nmsg = 2; hard = 1; to = 100; }
  if(strcmp(mc_arg, "spurious") == 0){
    nprod = 1; nmsg = 2; sched_spurious = 1;
    to = mc_choose(2, "timeout") ? 700 : -1;
  }
  if(mem){ nprod = 2; nmsg = 1; }
  openq(nprod, hard, 0, 0, NULL, NULL);
  if(P == NULL) mc_fail("cannot open the queue");
  dbx_points = 1;
  if(mem){
    sched_mem_ranges_clear();
    sched_mem_range(P->pctldb, sizeof(*P->pctldb));
    sched_mem_points = 1;
    sched_sync_points = 0;
  }
  sched_run(sched_main, NULL);
  sched_mem_points = 0;
  dbx_points = 0;
  closeq();
}

/* ---------------------------------------------------- histories */
static int head, tail;		/* I[head..tail) are queued */
static int64_t total;
static int soft;
static int mfhard;
static unsigned nseq;

static void do_send(int ch, int size){
  int st, want = 0;
  int64_t before = total;
  unsigned f0 = dbx_nfaults;
  struct item it;
  it.seq = ++nseq; it.ch = ch; it.size = size; it.got = 0;
  if(mfhard && total + size > (int64_t)mfhard*1024*1024) want = 2;
  if(hard && tail - head >= hard) want = 2;
  st = sendone(ch, it.seq, size);
  mc_step();
  (void)before;
  if(dbx_nfaults != f0){
    if(st == 0 && strcmp(dbx_last, "db-del") != 0)
      mc_fail("a failed insertion is reported as good");
    if(st == 0) goto in;
    return;
  }
  if(st != want)
    mc_fail("sending %d bytes with %d products (%ld bytes) in the queue and "
	    "limits %d products %d mb: %s", size, tail - head, (long)total,
	    hard, mfhard, st == 0 ? "accepted" : st == 2 ? "refused" :
	    "fails");
  if(st != 0) return;
 in:
  memmove(&I[tail], &it, sizeof(it));
  ++tail; total += size;
}
static int do_rcv(int timeout){
  struct pctl_element_st *p;
  int st = -77;
  int64_t t = vclock_ns;
  unsigned f0 = dbx_nfaults;
  p = eopen_pctl_outputpce(P, timeout, &st);
  mc_step();
  if(dbx_nfaults != f0){
    if(st == 0){
      if(head == tail) mc_fail("a product out of an empty queue");
      checkone(p, &I[head]);
      total -= I[head].size; ++head;
      close_pctl_outputpce(P);
    }else if(st == 1)
      mc_fail("a failed read is reported as an empty queue");
    else{
      /* the head may be gone (reported as such) or still there */
      close_pctl_outputpce(P);
      return(-1);
    }
    return(0);
  }
  if(head == tail){
    if(st != 1) mc_fail("reading the empty queue with timeout %d ms gives %d",
			timeout, st);
    if(vclock_ns - t < (int64_t)timeout*1000000 - 1000)
      mc_fail("the read of %d ms returned after %ld us", timeout,
	      (long)(vclock_ns - t)/1000);
    if(vclock_ns - t > (int64_t)timeout*1000000 + 1000000)
      mc_fail("the read of %d ms returned after %ld us", timeout,
	      (long)(vclock_ns - t)/1000);
    return(0);
  }
  if(st != 0 || p == NULL)
    mc_fail("%d products in the queue but reading gives %d", tail - head, st);
  checkone(p, &I[head]);
  total -= I[head].size; ++head;
  close_pctl_outputpce(P);
  return(0);
}
static uint64_t hh(void){
  uint64_t h = MC_H0; int i;
  for(i = head; i < tail; ++i){ h = mc_hashi(h, I[i].seq);
    h = mc_hashi(h, I[i].size); h = mc_hashi(h, I[i].ch); }
  h = mc_hashi(h, head);
  return(mc_hashi(h, hard*100 + mfhard*10));
}
static void body_hist(void){
  static const int phase[] = { 0, 999000000, 999999999 };
  int depth = mc_tier ? 6 : 5, d, op;
  int file = strcmp(mc_arg, "file") == 0;
  char *db = NULL, *mf = NULL;
  if(file){
    depth = mc_tier ? 5 : 4;
    nenv_rmtree_contents("");
    db = nenv_path("q.db"); mf = nenv_path("qmf.db");
  }
  head = tail = 0; total = 0; nseq = 0;
  d = mc_choose(3*2*3, "config");
  hard = (d % 3) == 1 ? 2 : 0;
  mfhard = (d % 3) == 2;
  if(mfhard && !file) depth -= 1;
  vclock_step_ns = ((d/3) % 2) ? 1000 : 0;
  vclock_ns = 1700000000LL*1000000000 + phase[d/6];
  openq(2, hard, 0, mfhard, db, mf);
  if(P == NULL) mc_fail("cannot open the queue");
  for(d = 0; d < depth; ++d){
    op = mc_choose(file ? 6 : 7, "op");
    switch(op){
    case 0: do_send(0, 3000); break;
    case 1: do_send(1, mfhard ? 600000 : 9000); break;
    case 2: do_rcv(0); break;
    case 3: vclock_ns -= 1000000000LL; break;
    case 4:
      if(file){			/* a restart, possibly with other limits */
	closeq();
	hard = mc_choose(2, "hard") ? 1 : 0;
	openq(2, hard, 0, mfhard, db, mf);
	if(P == NULL) mc_fail("cannot reopen the queue");
      }else
	do_send(0, mfhard ? 449000 : 0);
      break;
    case 5: do_rcv(file ? 2 : 1); break;
    case 6: do_rcv(1999); break;
    }
    mc_state(hh());
  }
  while(head < tail) do_rcv(0);
  do_rcv(0);
  mc_outcome(mc_hashi(hh(), tail));
  closeq();
  vclock_step_ns = 1000;
  free(db); free(mf);
}

/* ---------------------------------------------------- failures */
static void body_faults(void){
  int d, op, lost = 0, n0;
  head = tail = 0; total = 0; nseq = 0;
  hard = 0; mfhard = 0;
  dbx_nfaults = 0;
  n0 = dbx_open_handles;
  dbx_faults = mc_choose(2, "open");
  openq(2, 0, 0, 0, NULL, NULL);
  if(P == NULL){
    if(dbx_nfaults == 0) mc_fail("cannot open the queue");
    if(dbx_open_handles != n0)
      mc_fail("%d data base handles left open by a failed open",
	      dbx_open_handles - n0);
    dbx_faults = 0;
    return;
  }
  for(d = 0; d < (mc_tier ? 6 : 5); ++d){
    dbx_faults = 1;
    op = mc_choose(3, "op");
    if(op == 0) do_send(0, 2000);
    else if(op == 1) do_send(1, 6000);
    else if(do_rcv(0) < 0){
      /* what was at the head is lost or not, whatever the error was */
      lost = 1;
      dbx_faults = 0;
      {
	struct pctl_element_st *p;
	int st;
	p = eopen_pctl_outputpce(P, 0, &st);
	if(head == tail){
	  if(st != 1) mc_fail("a product out of an empty queue");
	}else if(st == 1){
	  if(tail - head > 1) mc_fail("a read failure lost more than one "
				      "product");
	  head = tail; total = 0;
	}else if(st == 0){
	  if(p->seq_number != I[head].seq) ++head;
	  if(head == tail) mc_fail("unexpected product");
	  checkone(p, &I[head]);
	  ++head;
	  close_pctl_outputpce(P);
	}else
	  mc_fail("the queue cannot be read after a failed read (%d)", st);
	mc_step();
      }
    }
    mc_state(mc_hashi(hh(), dbx_nfaults));
  }
  dbx_faults = 0;
  while(head < tail) do_rcv(0);
  do_rcv(0);
  mc_outcome(mc_hashi(mc_hashi(hh(), tail), lost));
  closeq();
  if(dbx_open_handles != n0) mc_fail("data base handles left open");
}

static void run(void){
  vclock_reset();
  dbx_faults = dbx_points = 0;
  if(!strcmp(mc_arg, "hist") || !strcmp(mc_arg, "file")) body_hist();
  else if(!strcmp(mc_arg, "faults")) body_faults();
  else body_sched();
}
int main(int argc, char **argv){
  struct mc_opts o = { 0, 30, 0, 0 };
  return(mc_main(argc, argv, &o, init, run));
}
