/*
 * C17, C24: the network server. The real server thread and its client threads
 * run against virtual sockets; the clients are played by the harness.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <ctype.h>
#include <netdb.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include "mc.h"
#include "mcsched.h"
#include "nenv.h"
#include "iox.h"
#include "const.h"
#include "globals.h"
#include "pctl.h"
#include "nbspre.h"
#include "nbspq.h"
#include "dbenv.h"
#include "packfp.h"
#include "packfpu.h"
#include "nbs1.h"
#include "emwin.h"
#include "pfilter.h"
#include "server.h"
#include "signal.h"
#include "err.h"
#include "nbspmspoolbdb.h"
#include "libconnth/libconn.h"
#include "libconnth/tcpsock.h"
#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
#else
static size_t __sanitizer_get_current_allocated_bytes(void){ return(0); }
#endif

extern int (*sched_create_hook)(void *(*fn)(void *), void *arg);
static int quit_, quit_asked;
int __wrap_get_quit_flag(void){ return(quit_); }
void __wrap_set_quit_flag(void){ quit_ = 1; ++quit_asked; }

#define SEC 1000000000LL
#define MS 1000000LL
/* configuration */
#define WTMO_MS 1000		/* client_write_timeout_ms */
#define WRETRY 1
#define RSLEEP 2		/* reconnect_wait_sleep_secs */
#define RRETRY 2
#define IDTMO 10		/* clientid_timeout */

/* ----------------------------------------------------------------- products */
#define HDRSZ (17 + FBASENAME_SIZE + 1)
#define NPROD 6
struct prod {
  unsigned seq; int t, cat, code, chan;
  char name[FNAME_SIZE + 1], path[600], epath[600], ename[20];
  unsigned char *b; int n;
  unsigned char *e; int en;	/* what the emwin filter makes of it */
  int emw;			/* 0 passes, 1 does not, 2.. the filter fails */
  unsigned char *s[3]; int sn[3]; /* what is sent: NBS1, NBS2, EMWIN */
  int pk[3][8], npk[3];		/* ends of its packets */
};
static struct prod P[NPROD];
static int np;
static int psize;		/* of the packets in the queue */
static void p4(unsigned char *p, unsigned v){
  p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v;
}
static unsigned u4(const unsigned char *p){
  return((unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]);
}
static unsigned sum(const unsigned char *p, int n){
  unsigned c = 0; int i;
  for(i = 0; i < n; ++i) c += p[i];
  return(c);
}
static void mkprod(int n, int emw){
  struct prod *p = &P[np];
  unsigned char *o;
  int i, k, nb, off;
  memset(p, 0, sizeof(*p));
  p->seq = 0xfffffff0u + np; p->t = 4 + np; p->cat = 130 + np; p->code = 200+np;
  p->chan = np % 4;
  p->emw = emw;
  snprintf(p->name, sizeof(p->name), "sxus5%d_abc%03d", np, np);
  snprintf(p->path, sizeof(p->path), "%s/kwbc_%s.010203_%u", g.spooldir, p->name, p->seq);
  snprintf(p->ename, sizeof(p->ename), "abcdef%02d.txt", np);
  snprintf(p->epath, sizeof(p->epath), "%s/%s", g.spooldir, p->ename);
  p->n = n; p->b = malloc(n);
  for(i = 0; i < n; ++i) p->b[i] = (unsigned char)(np*37 + i*7 + i/251 + i/65536*3);
  p->en = n/40 + 900*(np % 2) + 200; p->e = malloc(p->en);
  for(i = 0; i < p->en; ++i) p->e[i] = (unsigned char)(np*11 + i*5);
  /* NBS1 */
  nb = (n + 65535)/65536;
  p->s[0] = o = malloc(n + nb*(12 + HDRSZ));
  for(k = off = 0; k < nb; ++k){
    int l = n - off < 65536 ? n - off : 65536;
    unsigned char *d = o + 12;
    memset(o, 0, 12 + HDRSZ);
    p4(d, p->seq); d[4] = p->t; d[5] = p->cat; d[6] = p->code; d[7] = p->chan;
    strcpy((char *)d + 8, strrchr(p->path, '/') + 1);
    i = 8 + FBASENAME_SIZE + 1;
    d[i] = 0; d[i+1] = nb >> 8; d[i+2] = nb; d[i+3] = (k+1)>>8; d[i+4] = k+1;
    p4(d + i + 5, l);
    memcpy(d + HDRSZ, p->b + off, l);
    p4(o, 1); p4(o + 4, HDRSZ + l); p4(o + 8, sum(d, HDRSZ + l));
    o += 12 + HDRSZ + l; off += l;
    p->pk[0][p->npk[0]++] = o - p->s[0];
  }
  p->sn[0] = o - p->s[0];
  /* NBS2 */
  psize = const_fpath_packet_maxsize();
  p->s[1] = o = calloc(1, psize);
  { unsigned char *d = o + 12;
    p4(d, p->seq); d[4] = p->t; d[5] = p->cat; d[6] = p->code; d[7] = p->chan;
    strcpy((char *)d + 8, p->name);
    strcpy((char *)d + 8 + FNAME_SIZE + 1, p->path);
    p4(o, 2); p4(o + 4, psize - 12); p4(o + 8, sum(d, psize - 12));
  }
  p->sn[1] = p->pk[1][0] = psize; p->npk[1] = 1;
  /* EMWIN */
  if(emw == 0){
    nb = (p->en + 1023)/1024;
    p->sn[2] = nb*1116;
    p->s[2] = o = malloc(p->sn[2]);
    for(k = 0; k < nb; ++k, o += 1116){
      int l = p->en - k*1024 < 1024 ? p->en - k*1024 : 1024;
      char up[20], h[120];
      memset(o, 0, 1116);
      memcpy(o + 86, p->e + k*1024, l);
      for(i = 0; p->ename[i]; ++i) up[i] = toupper(p->ename[i]);
      up[i] = 0;
      snprintf(h, sizeof(h), "/PF%-12s/PN %-5d/PT %-5d/CS %-6d/FD%22s"
	       "          \r\n", up, k + 1, nb, (int)sum(o + 86, l), "");
      memcpy(o + 6, h, 80);
      for(i = 0; i < 1116; ++i) o[i] ^= 0xff;
      p->pk[2][p->npk[2]++] = (k + 1)*1116;
    }
  }
  ++np;
}
static void spoolprods(void){
  int i;
  for(i = 0; i < np; ++i){
    if(g.spooltype == SPOOLTYPE_FS) nenv_writefile(P[i].path, P[i].b, P[i].n);
    nenv_writefile(P[i].epath, P[i].e, P[i].en);
  }
}
static int announced[40], nann;	/* in order */
static void announce(int k){
  static unsigned char pk[4096];
  memcpy(pk, P[k].s[1], psize);
  if(e_nbspq_snd_server(pk, psize) != 0) mc_fail("cannot queue a product");
  announced[nann++] = k;
}

/* ------------------------------------------------------------------ clients */
/* what the client does after it has read `at' bytes */
enum { E_NONE, E_STUCK, E_PAUSE, E_RST, E_EOF };
static const char *ename[] = {"reads on", "stops reading", "pauses", "resets",
			      "closes"};
struct cl {
  int ip;			/* 0.. */
  int proto;			/* 0,1,2: NBS1, NBS2, EMWIN; 3: silent */
  char hello[64]; int nhello, hpos;
  int64_t hello_at;
  int ev; int at;		/* event */
  int64_t pause;		/* ns */
  int64_t until;		/* of the pause, once begun */
  int again;			/* pauses each so many bytes */
  int fd;			/* -1: not accepted, or closed by the server */
  int accepted, closed;
  int64_t accepted_at, closed_at;
  unsigned char *rx; int nrx, mrx;
  int chunk;			/* of each write */
  int eof;			/* closed by the client */
  int rst;
  int named;
  int64_t last;
};
#define NCL 12
static struct cl C[NCL];
static int ncl;
static int pending[NCL], npend;	/* not yet accepted */
static int srvfd = -1, accept_err;
static int wsplit;

static int cl_dead(struct cl *c){ return(c->eof || c->rst); }
/* how many bytes it would take now */
static int cl_room(struct cl *c){
  if(c->ev == E_NONE || c->nrx < c->at) return(c->ev == E_NONE ? 1 << 24 : c->at - c->nrx);
  switch(c->ev){
  case E_STUCK: return(0);
  case E_PAUSE:
    if(c->until == 0) c->until = vclock_ns + c->pause;
    if(vclock_ns < c->until) return(0);
    c->until = 0;
    if(c->again){ c->at += c->again; return(c->again); }
    c->ev = E_NONE;
    return(1 << 24);
  case E_RST: c->rst = 1; return(0);
  case E_EOF: c->eof = 1; return(0);
  }
  return(0);
}
static int cl_poll(struct vfd *v, int ev){
  struct cl *c = v->priv;
  int r = 0, room;
  if(!cl_dead(c)) room = cl_room(c);
  if(c->rst) return(POLLERR | POLLHUP | (ev & (POLLIN|POLLOUT)));
  if(c->eof) return(ev & (POLLIN|POLLOUT));
  if((ev & POLLOUT) && room > 0) r |= POLLOUT;
  if((ev & POLLIN) && c->hpos < c->nhello && vclock_ns >= c->hello_at) r |= POLLIN;
  return(r);
}
static ssize_t cl_write(struct vfd *v, const void *b, size_t n){
  struct cl *c = v->priv;
  int room;
  mc_step();
  if(!v->nonblock) mc_fail("the socket of a client is in blocking mode");
  room = cl_dead(c) ? 0 : cl_room(c);
  if(c->rst){ errno = ECONNRESET; return(-1); }
  if(c->eof){ errno = EPIPE; return(-1); }
  if(room == 0){ errno = EAGAIN; return(-1); }
  if((size_t)room < n) n = room;
  if(c->chunk && n > (size_t)c->chunk) n = c->chunk;
  if(wsplit && n > 1){
    int k = mc_dev(3, "write");
    if(k == 1) n = 1; else if(k == 2) n = n - 1;
  }
  if(c->nrx + (int)n > c->mrx){
    c->mrx = c->nrx + (int)n + 4096;
    c->rx = realloc(c->rx, c->mrx);
  }
  memcpy(c->rx + c->nrx, b, n);
  c->nrx += (int)n;
  c->last = vclock_ns;
  return((ssize_t)n);
}
static ssize_t cl_read1(struct cl *c, void *b, size_t n, int peek){
  if(c->rst){ errno = ECONNRESET; return(-1); }
  if(c->hpos < c->nhello && vclock_ns >= c->hello_at){
    if((size_t)(c->nhello - c->hpos) < n) n = c->nhello - c->hpos;
    memcpy(b, c->hello + c->hpos, n);
    if(!peek) c->hpos += (int)n;
    return((ssize_t)n);
  }
  if(c->eof) return(0);
  errno = EAGAIN; return(-1);
}
static ssize_t cl_read(struct vfd *v, void *b, size_t n){
  return(cl_read1(v->priv, b, n, 0));
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, void *a, void *l){
  struct vfd *v = vfd_get(fd);
  (void)a; (void)l;
  if(v == NULL){ errno = EBADF; return(-1); }
  return(cl_read1(v->priv, b, n, fl & MSG_PEEK));
}
static int cl_close(struct vfd *v){
  struct cl *c = v->priv;
  c->fd = -1; c->closed = 1; c->closed_at = vclock_ns;
  return(0);
}
static int sv_poll(struct vfd *v, int ev){
  (void)v;
  return((ev & POLLIN) && (npend > 0 || accept_err) ? POLLIN : 0);
}
static int sv_close(struct vfd *v){ (void)v; srvfd = -1; return(0); }
int __wrap_tcp_server_open_conn(const char *h, const char *s, int bl, int sb,
				int rb, void *al, int *gai){
  (void)h; (void)s; (void)bl; (void)sb; (void)rb; (void)al;
  *gai = 0;
  srvfd = vfd_new(&srvfd);
  vfd_get(srvfd)->poll = sv_poll;
  vfd_get(srvfd)->close = sv_close;
  return(srvfd);
}
int __wrap_tcp_server_accept_conn(int s, struct client_options_st *o, void *a,
				  void *l){
  struct cl *c;
  struct vfd *v;
  (void)a; (void)l;
  if(s != srvfd) mc_fail("accept on a wrong descriptor");
  if(accept_err){ int e = accept_err; accept_err = 0; errno = e == -1 ? EMFILE : EINTR; return(e); }
  if(npend == 0) return(-2);
  c = &C[pending[0]];
  memmove(pending, pending + 1, --npend*sizeof(pending[0]));
  c->fd = vfd_new(c);
  v = vfd_get(c->fd);
  v->poll = cl_poll; v->read = cl_read; v->write = cl_write;
  v->close = cl_close;
  v->nonblock = o->nonblock;
  c->accepted = 1; c->accepted_at = vclock_ns;
  return(c->fd);
}
static struct cl *byfd(int fd){
  struct vfd *v = vfd_get(fd);
  if(v == NULL || fd == srvfd) return(NULL);
  return(v->priv);
}
char *__wrap_get_peer_ip(int fd){
  struct cl *c = byfd(fd);
  char b[30];
  if(c == NULL) return(NULL);
  snprintf(b, sizeof(b), "10.0.0.%d", 1 + c->ip);
  return(strdup(b));
}
char *__wrap_get_peer_name(int fd){
  struct cl *c = byfd(fd);
  char b[30];
  if(c == NULL || !c->named) return(NULL);
  snprintf(b, sizeof(b), "host%d.example.com", 1 + c->ip);
  return(strdup(b));
}
static int denied_ip = -1;
int __wrap_client_allow_nconn(int fd, char *ip, char *name){
  struct cl *c = byfd(fd);
  (void)name;
  if(c == NULL) mc_fail("access is asked for a closed connection");
  if(atoi(strrchr(ip, '.') + 1) != 1 + c->ip) mc_fail("access is asked for another address");
  return(c->ip != denied_ip);
}
static const char *pstr[] = { "NBS1", "NBS2", "EMWIN" };
static struct cl *newcl(int ip, int proto){
  struct cl *c = &C[ncl++];
  if(ncl > NCL) mc_die("too many clients");
  memset(c, 0, sizeof(*c));
  c->ip = ip; c->proto = proto; c->fd = -1; c->named = ip % 2;
  if(proto < 3){
    c->nhello = (int)strlen(pstr[proto]);
    memcpy(c->hello, pstr[proto], c->nhello);
  }
  return(c);
}
static void connect_(struct cl *c){ pending[npend++] = (int)(c - C); }

/*
 * What a client has received: whole products (got[], in order) and a part
 * of another. Anything else is a violation.
 */
struct rcvd { int got[40], n, tail, tailprod; };
static int same(struct cl *c, const unsigned char *x, const unsigned char *s, int off, int n){
  int i;
  if(c->proto != 2) return(memcmp(x, s + off, n) == 0);
  for(i = 0; i < n; ++i){
    int k = (off + i) % 1116;
    if(k >= 6 + 46 && k < 6 + 68) continue; /* the date */
    if(x[i] != s[off + i]) return(0);
  }
  return(1);
}
static void parse(struct cl *c, struct rcvd *r){
  int o = 0, k, l;
  memset(r, 0, sizeof(*r));
  r->tailprod = -1;
  while(o < c->nrx){
    int found = -1;
    for(k = 0; k < np; ++k){
      if(P[k].s[c->proto] == NULL) continue;
      l = c->nrx - o < P[k].sn[c->proto] ? c->nrx - o : P[k].sn[c->proto];
      if(same(c, c->rx + o, P[k].s[c->proto], 0, l)){ found = k; break; }
    }
    if(found < 0)
      mc_fail("client %d (%s) receives at byte %d what is not a product",
	      (int)(c - C), pstr[c->proto], o);
    if(o + P[found].sn[c->proto] <= c->nrx){
      r->got[r->n++] = found; o += P[found].sn[c->proto];
    }else{
      r->tail = c->nrx - o; r->tailprod = found; o = c->nrx;
    }
  }
}

/* ----------------------------------------------------------- emwin filter */
static int ef_open, ef_opens, ef_served, efail_open;
static unsigned char ef_out[1500]; static int ef_n, ef_pos, ef_short;
static char *ef_line; static size_t ef_linesz;
struct pfilter_st *__wrap_pfilter_open_wr(char *s, char *f, unsigned secs){
  struct pfilter_st *p;
  (void)s; (void)f; (void)secs;
  if(ef_open) mc_fail("the emwin filter is opened twice");
  if(!g.f_emwinserver_enabled) mc_fail("the emwin filter is opened and is not enabled");
  if(efail_open > 0){ --efail_open; errno = EPIPE; return(NULL); }
  p = calloc(1, sizeof(*p));
  p->fifofd = -1;
  ef_open = 1; ++ef_opens;
  p->fp = open_memstream(&ef_line, &ef_linesz);
  ef_n = ef_pos = ef_short = 0;
  return(p);
}
void __wrap_pfilter_close(struct pfilter_st *p){
  if(!ef_open) mc_fail("the emwin filter is closed twice");
  ef_open = 0;
  fclose(p->fp);
  free(ef_line); ef_line = NULL;
  free(p);
}
static int ef_mode;
int __wrap_pfilter_flush(struct pfilter_st *p){
  unsigned seq; int k;
  fflush(p->fp);
  if(ef_linesz == 0 || ef_line[ef_linesz - 1] != '\n')
    mc_fail("the emwin filter is sent an incomplete line");
  if(ef_linesz == 1){ rewind(p->fp); return(0); } /* the end */
  seq = (unsigned)strtoul(ef_line, NULL, 10);
  for(k = 0; k < np; ++k) if(P[k].seq == seq) break;
  if(k == np) mc_fail("the emwin filter is asked about [%s]", ef_line);
  {
    char want[900];
    snprintf(want, sizeof(want), "%u %d %d %d %d %s %s\n", P[k].seq, P[k].t,
	     P[k].cat, P[k].code, P[k].chan, P[k].name, P[k].path);
    if(strncmp(want, ef_line, strlen(want)) != 0)
      mc_fail("the emwin filter is asked about [%s]", ef_line);
  }
  ++ef_served;
  ef_pos = ef_n = ef_short = 0;
  switch(P[k].emw){
  case 1: ef_out[ef_n++] = 1; break;
  case 2: ef_short = 2; break;		/* read error */
  case 6: rewind(p->fp); return(-1);	/* write error */
  case 3: ef_out[ef_n++] = 0; ef_short = 1; break;
  case 4: ef_out[0] = 0; ef_out[1] = 0xff; ef_out[2] = 0xff; ef_out[3] = 0;
    ef_out[4] = 3; ef_n = 5; break;
  case 5: ef_out[0] = 0; ef_out[1] = 0; ef_out[2] = 3; ef_out[3] = 1;
    ef_out[4] = 0; memcpy(ef_out + 5, "abc", 3); ef_n = 8; break;
  default: {
    int a = (int)strlen(P[k].epath), b = (int)strlen(P[k].ename);
    ef_out[0] = 0; ef_out[1] = a >> 8; ef_out[2] = a; ef_out[3] = b >> 8;
    ef_out[4] = b;
    memcpy(ef_out + 5, P[k].epath, a); memcpy(ef_out + 5 + a, P[k].ename, b);
    ef_n = 5 + a + b;
  } }
  rewind(p->fp);
  return(0);
}
int __wrap_pfilter_read(struct pfilter_st *p, void *b, size_t n){
  (void)p;
  if(ef_n - ef_pos < (int)n){
    if(ef_short == 2){ errno = EIO; return(-1); }
    return(1);
  }
  memcpy(b, ef_out + ef_pos, n);
  ef_pos += (int)n;
  return(0);
}

/* ------------------------------------------------------- set up, tear down */
static int fds0;
static int countfds(void){
  int i, n = 0;
  for(i = 3; i < 200; ++i) if(fcntl(i, F_GETFD) != -1) ++n;
  return(n);
}
static size_t mem0; static int nexec;
static int keeps;		/* the library of the expressions keeps some */
static int types = 7;
static int listening(void *a){ (void)a; return(srvfd >= 0 || quit_asked); }
static void up(void){
  ++nexec;
  quit_ = quit_asked = 0;
  mem0 = __sanitizer_get_current_allocated_bytes();
  g.servertype = types;
  g.f_nbs1server_enabled = g.f_nbs2server_enabled = g.f_emwinserver_enabled = 0;
  g.f_server_thread_created = 0;
  g.server_fd = -1; g.ct = NULL;
  if(init_nbspq() != 0) mc_fail("init_nbspq fails");
  if(g.spooltype == SPOOLTYPE_MBDB){
    int i;
    if(nbsp_mspoolbdb_create() != 0) mc_fail("no memory spool");
    for(i = 0; i < np; ++i)
      if(nbsp_mspoolbdb_insert(P[i].path, P[i].b, P[i].n) != 0)
	mc_fail("cannot store a product");
  }
  if(spawn_server() != 0) mc_fail("the server is not spawned");
  if(sched_wait(listening, NULL, vclock_ns + 5*SEC, "listening"))
    mc_fail("the server does not start");
}
static void down(void){
  int64_t t = vclock_ns;
  size_t mem;
  int i;
  quit_ = 1;
  kill_server_thread();
  if(vclock_ns - t > 8*SEC)
    mc_fail("the server takes %lld s to stop", (long long)(vclock_ns - t)/SEC);
  if(sched_nlive() != 1) mc_fail("%d threads are left", sched_nlive() - 1);
  if(vfd_nopen() != 0) mc_fail("%d connections are left open", vfd_nopen());
  if(ef_open) mc_fail("the emwin filter is left open");
  if(g.mspoolbdb != NULL && nbsp_mspoolbdb_destroy() != 0)
    mc_fail("the spool is not closed");
  i = countfds();
  kill_nbspq();
  if(i != fds0) mc_fail("%d files are left open", i - fds0);
  for(i = 0; i < ncl; ++i){ free(C[i].rx); C[i].rx = NULL; C[i].nrx = C[i].mrx = 0; }
  mem = __sanitizer_get_current_allocated_bytes();
  if(mem != mem0 && getenv("MEMX")) fprintf(stderr, "MEM %ld\n", (long)(mem-mem0));
  else if(mem != mem0 && nexec > 1 && !g.netfilter_enable && !keeps) /* Tcl keeps some */
    mc_fail("%ld bytes of memory are left", (long)(mem - mem0));
}
static char *mkscr(void){
  return(nenv_path("netfilter.tcl"));
}
static void reset(void){
  int i;
  for(i = 0; i < ncl; ++i) free(C[i].rx);
  memset(C, 0, sizeof(C));
  ncl = npend = nann = 0;
  accept_err = 0; denied_ip = -1; srvfd = -1; wsplit = 0;
  ef_open = ef_opens = ef_served = efail_open = 0;
  sched_create_hook = NULL;
  g.emwinfilter_always = 0;
  types = 7;
  vfd_reset();
  g.server_maxclients = -1;
  g.spooltype = SPOOLTYPE_FS;
  g.netfilter_enable = 0;
  g.clientoptions = NULL;
  g.client_write_timeout_ms = WTMO_MS;
  g.client_write_timeout_retry = WRETRY;
  g.client_reconnect_wait_sleep_secs = RSLEEP;
  g.client_reconnect_wait_sleep_retry = RRETRY;
  g.client_queue_read_timeout_ms = 1000;
  g.queue_read_timeout_ms = 1000;
  g.client_queue_maxsize_soft = g.client_queue_maxsize_hard = 0;
  g.server_clientid_timeout_secs = IDTMO;
  g.f_server_thread_created = 0;
  iox_open_hook = NULL;
  iox_points = iox_faults = 0;
  vfd_poll_points = 0;
  vfd_strict = 1;
  sched_sync_points = 0;
  sched_cancel = sched_lenient = sched_delay = 1;
}

/* waits until client c has received n whole products; 1: timed out */
static struct cl *wc; static int wn;
static int hasn(void *a){
  struct rcvd r;
  (void)a;
  if(wc->proto > 2) return(0);
  parse(wc, &r);
  return(r.n >= wn);
}
static int waitn(struct cl *c, int n, int64_t ns){
  wc = c; wn = n;
  return(sched_wait(hasn, NULL, vclock_ns + ns, "products"));
}
static int ptn[3];		/* which pattern, of each protocol (C13) */
static int wanted(struct cl *c, int k){
  if(c->proto < 3){
    if(ptn[c->proto] == 1 && k % 2) return(0);
    if(ptn[c->proto] == 2 && (k == 1 || k == 2)) return(0);
    if(ptn[c->proto] == 3) return(0);
  }
  return(c->proto != 2 || P[k].emw == 0);
}
/* c must have received, and in order, the products announced from the
   from-th to the to-th, nothing else */
static void exactly(struct cl *c, int from, int to){
  struct rcvd r;
  int i, j = 0;
  parse(c, &r);
  for(i = from; i < to; ++i){
    if(!wanted(c, announced[i])) continue;
    if(j >= r.n || r.got[j] != announced[i])
      mc_fail("client %d (%s) has received %d products%s; the one announced "
	      "as number %d is missing", (int)(c - C), pstr[c->proto], r.n,
	      c->closed ? " and is closed" : "", i);
    ++j;
  }
  if(j < r.n) mc_fail("client %d receives product %d, not asked for",
		      (int)(c - C), r.got[j]);
}
static uint64_t outcome(void){
  uint64_t h = MC_H0;
  int i, j;
  for(i = 0; i < ncl; ++i){
    struct rcvd r;
    h = mc_hashi(h, C[i].accepted*2 + C[i].closed);
    if(C[i].proto > 2) continue;
    parse(&C[i], &r);
    for(j = 0; j < r.n; ++j) h = mc_hashi(h, r.got[j]);
    h = mc_hashi(h, r.tail);
  }
  return(h);
}

/* ------------------------------------------------------------ C24: deliver */
/*
 * A client of each protocol (reading at its own pace) next to another one
 * that does what it wants.
 */
static int wantn(struct cl *c, int from, int to){
  int i, n = 0;
  for(i = from; i < to; ++i) n += wanted(c, announced[i]);
  return(n);
}
static int offset(int proto){
  /* positions in the stream of the first products */
  int a = P[0].s[proto] ? P[0].sn[proto] : 0, k = mc_choose(9, "at");
  switch(k){
  case 0: return(0);
  case 1: return(1);
  case 2: return(12);
  case 3: return(a - 1);
  case 4: return(a);
  case 5: return(a + 1);
  case 6: return(a + P[1].sn[proto]/2);
  case 7: return(a + P[1].sn[proto]);
  default: return(a + P[1].sn[proto] + P[2].sn[proto] - 1);
  }
}
static void b_deliver(void *arg){
  struct cl *good, *bad;
  int gp = mc_choose(3, "good"), bp = mc_choose(4, "other"), ev, first, i;
  int slow = mc_choose(3, "slow");
  (void)arg;
  reset();
  ev = bp < 3 ? mc_choose(5, "does") : 0;
  first = mc_choose(2, "order");
  up();
  good = newcl(0, gp);
  if(slow == 1){ good->ev = E_PAUSE; good->at = good->again = 700;
    good->pause = (WTMO_MS*(WRETRY+1) - 100)*MS; }
  if(slow == 2) good->chunk = 500;
  bad = newcl(1, bp);
  if(bp < 3){
    bad->ev = ev;
    bad->at = ev ? offset(bp) : 0;
    bad->pause = (mc_choose(2, "pause") ? 1500 : 30000)*MS;
  }
  mc_note("%s %d, other %s %s at %d: ", pstr[gp], slow, bp < 3 ? pstr[bp] :
	  "silent", ename[ev], bad->at);
  if(first){ connect_(good); connect_(bad); }
  else{ connect_(bad); connect_(good); }
  sleep(8);
  for(i = 0; i < 4; ++i){
    announce(i);
    if(i == 1) sleep(1);
  }
  if(waitn(good, wantn(good, 0, nann), slow == 1 ? 900*SEC : 4*SEC))
    mc_fail("a client waits for the products because of another one: has %d "
	    "bytes", good->nrx);
  exactly(good, 0, nann);
  if(good->closed) mc_fail("a good client is disconnected");
  sleep(20);
  exactly(good, 0, nann);
  if(good->closed) mc_fail("a good client is disconnected");
  if(bp < 3){
    struct rcvd r;
    parse(bad, &r);
    for(i = 0; i < r.n; ++i){
      int j, m;
      for(j = m = 0; j < nann; ++j){
	if(!wanted(bad, announced[j])) continue;
	if(m++ == i) break;
      }
      if(j == nann || announced[j] != r.got[i])
	mc_fail("the other client misses a product before the %d-th", i + 1);
    }
    if((ev == E_NONE || (ev == E_PAUSE && bad->pause < 2*SEC)) &&
       (r.n != wantn(bad, 0, nann) || bad->closed))
      mc_fail("the other client has received %d products%s", r.n,
	      bad->closed ? " and is closed" : "");
    if(!bad->closed && bad->nrx >= bad->at && (ev == E_RST || ev == E_EOF))
      mc_fail("the connection of a client that is gone stays open");
    if(!bad->closed && ev == E_STUCK && bad->nrx >= bad->at &&
       bad->at != P[0].sn[bp] + P[1].sn[bp] + P[2].sn[bp] &&
       r.n < wantn(bad, 0, nann))
      mc_fail("the connection of a client that does not read stays open");
  }else{
    /* it is taken for an EMWIN client */
    bad->proto = 2;
    exactly(bad, nann, nann);
  }
  /* nothing is left of it: more products and another client */
  announce(4);
  if(waitn(good, wantn(good, 0, nann), slow == 1 ? 900*SEC : 4*SEC)) mc_fail("the server has stopped");
  exactly(good, 0, nann);
  mc_outcome(outcome());
  down();
}


/* ------------------------------------------------------------ C24: reconn */
/*
 * A client stops reading, and connects again (with a new connection) before
 * or after the server gives the old one up.
 */
static struct cl *wcl;
static int isclosed(void *a){ (void)a; return(wcl->closed); }
static int isaccepted(void *a){ (void)a; return(wcl->accepted); }
/* the products c has must be among the announced, in order, from any one on;
   returns the position after the last one */
static int suffix(struct cl *c, int from, int partial){
  struct rcvd r;
  int i, j;
  parse(c, &r);
  if(r.n == 0 && r.tailprod < 0) return(nann);
  for(i = from; i < nann; ++i)
    if(announced[i] == (r.n ? r.got[0] : r.tailprod)) break;
  /* the first one received determines the start; then no gap */
  if(i == nann) mc_fail("client %d receives a product that was not announced "
			"to it", (int)(c - C));
  for(j = 0; j < r.n; ++j){
    while(i < nann && !wanted(c, announced[i])) ++i;
    if(i == nann || announced[i] != r.got[j])
      mc_fail("client %d (%s) misses or repeats a product: the %d-th received "
	      "is %d", (int)(c - C), pstr[c->proto], j + 1, r.got[j]);
    ++i;
  }
  if(r.tailprod >= 0){
    while(i < nann && !wanted(c, announced[i])) ++i;
    if(i == nann || announced[i] != r.tailprod)
      mc_fail("client %d (%s) misses or repeats a product", (int)(c - C),
	      pstr[c->proto]);
    if(!partial) mc_fail("client %d is left with an incomplete product",
			 (int)(c - C));
  }
  return(i);
}
static int roff(int proto){
  int a = P[0].sn[proto], k = mc_choose(6, "at");
  switch(k){
  case 0: return(0);
  case 1: return(100);
  case 2: return(a);
  case 3: return(a + 1);
  case 4: return(a + P[1].sn[proto] - 1);
  default: return(a + P[1].sn[proto]);
  }
}
static int rc_small;
static void b_reconn(void *arg){
  struct cl *good, *a, *b;
  int proto = mc_choose(3, "proto"), gp = (proto + 1) % 3, how, when, rounds;
  int hello, i, restored;
  int64_t t0, d;
  struct rcvd ra, rb;
  (void)arg;
  reset();
  up();
  good = newcl(0, gp);
  a = newcl(1, proto);
  a->ev = mc_choose(2, "how") ? E_RST : E_STUCK;
  how = a->ev;
  a->at = roff(proto);
  connect_(good); connect_(a);
  hello = mc_choose(2, "hello");
  when = mc_choose(rc_small ? 4 : 16, "when");
  rounds = rc_small ? 0 : mc_choose(2, "more");
  sleep(8);
  for(i = 0; i < 3; ++i) announce(i);
  /* reach the event */
  t0 = vclock_ns;
  sleep(0);
  b = newcl(1, proto);
  if(!hello){ b->nhello = 0; }
  if(when < (rc_small ? 2 : 8)){
    /* after it sees its connection closed, within or past the time allowed */
    static const int after[8] = { 0, 1900, 500, 1000, 1500, 3000, 5000, 9000 };
    wcl = a;
    if(sched_wait(isclosed, NULL, t0 + 20*SEC, "close")){
      if(a->nrx >= a->at && a->at < P[0].sn[proto] + P[1].sn[proto] + P[2].sn[proto])
	mc_fail("a client that does not read is not disconnected");
      down();
      return;
    }
    d = after[when]*MS;
    usleep((unsigned)(d/1000));
  }else{
    /* on its own, at a time after the product is announced */
    d = -1;
    if(rc_small){
      usleep(((unsigned)when - 2)*2000000 + 1999000);
      sched_sync_points = vfd_poll_points = 1; mc_bound_set(1 + mc_tier);
    }
    else usleep((unsigned)(when - 8)*500000 + 500000);
  }
  mc_note("%s %s at %d, hello %d, connects again %s%lld ms: ", pstr[proto],
	  ename[how], a->at, hello, d < 0 ? "at " : "after ",
	  (long long)(d < 0 ? (vclock_ns - t0) : d)/MS);
  connect_(b);
  wcl = b;
  if(rc_small && when < 2){ sched_sync_points = vfd_poll_points = 1; mc_bound_set(1 + mc_tier); }
  if(sched_wait(isaccepted, NULL, vclock_ns + 5*SEC, "accept"))
    mc_fail("the server does not accept");
  sleep(1);
  sched_sync_points = vfd_poll_points = 0;
  mc_bound_set(0);
  sleep(3);
  if(b->closed && rc_small && (when == 1 || when == 3)){
    /* it came back just as its time was over */
    struct cl *c = newcl(1, proto);
    if(!hello) c->nhello = 0;
    mc_note("and again ");
    if(b->nrx) mc_fail("a client is sent products and then disconnected");
    b = c;
    connect_(b);
    sleep(4);
  }
  if(b->proto == 3 || !hello){ sleep(IDTMO + 4); }
  if(rounds) announce(3);
  announce(4);
  if(waitn(good, wantn(good, 0, nann), 6*SEC))
    mc_fail("a client waits for the products because of another one");
  exactly(good, 0, nann);
  if(good->closed) mc_fail("a good client is disconnected");
  sleep(6);
  if(!a->closed) mc_fail("the old connection stays open");
  if(b->closed) mc_fail("a client that has connected again is disconnected");
  if(!hello){
    /* it may have been taken for a new EMWIN client */
    struct cl save = *b;
    if(proto != 2 && b->nrx >= 6 && b->rx[0] == 0xff && b->rx[5] == 0xff)
      b->proto = 2;
    (void)save;
  }
  parse(a, &ra);
  parse(b, &rb);
  if(rb.tailprod >= 0) mc_fail("a client is left with an incomplete product");
  i = suffix(b, 0, 0);
  while(i < nann && !wanted(b, announced[i])) ++i;
  if(i != nann) mc_fail("a client that has connected again is not sent every product");
  if(rb.n == 0) mc_fail("a client that has connected again is not sent anything");
  restored = d >= 0 && d <= 1000*MS && how == E_STUCK;
  /* nothing is lost by a client that is disconnected because it did not read
     and connects again in time: the first one it gets now is the one in
     which it was */
  if(restored){
    int first = 0, k = ra.n;
    while(first < nann){
      if(wanted(b, announced[first])){ if(k == 0) break; --k; }
      ++first;
    }
    if(first < nann && rb.got[0] != announced[first])
      mc_fail("a client that connects again in time loses products: after %d "
	      "comes product %d", ra.n, rb.got[0]);
    if(b->proto != proto) mc_fail("a client that connects again is sent "
				  "another protocol");
  }
  mc_outcome(outcome());
  down();
}

/* -------------------------------------------------------------- C17: table */
/*
 * All histories of connecting, disconnecting, announcing. After each event
 * either the server settles or the next event comes at once.
 */
static int tb_full;
static int shut_at = -1;
static void b_table(void *arg){
  /* the connections a history may make */
  static const struct { int ip, proto; const char *hello; } K[] = {
    { 0, 0, "NBS1" }, { 0, 1, "NBS2" }, { 1, 2, "EMWIN" }, { 1, 1, "NBS2" },
    { 1, 2, "hello\r\n" }, { 2, 3, "" }, { 0, 2, "NBS" },
  };
  enum { NK = sizeof(K)/sizeof(K[0]) };
  int n = tb_full ? 3 : 4, i, j, s, cfg, gap[8], nconn = 0, any0 = 0;
  struct { int must, may, settled, req[40], nreq, nconf; } X[NCL];
  int max = -1;
  (void)arg;
  reset();
  memset(X, 0, sizeof(X));
  cfg = tb_full ? mc_choose(7, "cfg") : 0;
  types = 7;
  switch(cfg){
  case 1: max = 1; break;
  case 2: max = 2; break;
  case 3: denied_ip = 1; break;
  case 4: types = 3; break;	/* no EMWIN */
  case 5: types = 4; break;	/* EMWIN alone */
  case 6: max = 0; break;
  }
  g.server_maxclients = max;
  up();
  mc_note("configuration %d:", cfg);
  for(s = 0; s < n; ++s){
    int e = mc_choose(NK + 5, "event"), ip;
    struct cl *c = NULL;
    gap[s] = (cfg == 0 || tb_full) && s < n - 1 ? mc_choose(2, "gap") : 1;
    if(e < NK){
      c = newcl(K[e].ip, K[e].proto);
      c->nhello = (int)strlen(K[e].hello);
      memcpy(c->hello, K[e].hello, c->nhello);
      connect_(c);
      mc_note(" %d connects \"%.5s\",", K[e].ip, K[e].hello);
    }else if(e < NK + 4){
      /* the latest connection of an address ends */
      ip = (e - NK) % 2;
      for(i = ncl - 1; i >= 0; --i) if(C[i].ip == ip) break;
      if(i < 0 || cl_dead(&C[i])){ mc_note("-"); down(); return; }
      if(e - NK < 2) C[i].eof = 1; else C[i].rst = 1;
      mc_note(" %d %s,", ip, e - NK < 2 ? "closes" : "resets");
    }else{
      mc_note(" announce,");
      for(i = 0; i < ncl; ++i){
	for(j = i + 1; j < ncl; ++j) if(C[j].ip == C[i].ip) break;
	if(j == ncl && X[i].settled && X[i].must && !cl_dead(&C[i]))
	  X[i].req[X[i].nreq++] = nann;
      }
      announce(nann);
    }
    if(gap[s] == 0){ ++any0; mc_note(" (at once)"); continue; }
    sleep(6 + ncl);
    /* who must be there now */
    for(i = 0; i < ncl; ++i){
      X[i].must = X[i].may = 1;
      if(cl_dead(&C[i])) X[i].must = X[i].may = 0;
      if(C[i].ip == denied_ip || max == 0) X[i].must = X[i].may = 0;
      for(j = i + 1; j < ncl; ++j)
	if(C[j].ip == C[i].ip) X[i].must = X[i].may = 0;
      if(C[i].proto < 3 && !(types & (1 << C[i].proto))) X[i].must = X[i].may = 0;
      if(C[i].proto == 3 && !(types & 4)) X[i].must = 0;
      if(max > 0) X[i].must = 0;
      if(!C[i].closed) X[i].nconf = X[i].nreq;
    }
    if(max > 0 && !any0){
      /* in the order in which they came: the table as it should be */
      static int in[NCL];
      /* kept from before: those still open before the last event */
      int cnt = 0;
      for(i = 0; i < ncl; ++i){
	if(c == &C[i]) continue;
	in[i] = in[i] && X[i].may;
	cnt += in[i];
      }
      if(c){
	in[c - C] = X[c - C].may && cnt < max;
      }
      if(s == 0){ memset(in, 0, sizeof(in)); if(c) in[c - C] = X[c - C].may && max > 0; }
      for(i = 0; i < ncl; ++i) X[i].must = X[i].may = in[i];
    }
    nconn = 0;
    for(i = 0; i < ncl; ++i){
      struct cl *q = &C[i];
      if(!q->accepted) mc_fail("connection %d is never accepted", i);
      if(X[i].must && q->closed) mc_fail("connection %d is closed by the server", i);
      if(!X[i].may && !q->closed) mc_fail("connection %d stays open", i);
      X[i].settled = X[i].must && q->proto < 3 && types & (1 << q->proto);
      nconn += !q->closed;
    }
    if(max >= 0 && nconn > max) mc_fail("%d connections; the limit is %d", nconn, max);
    if(vfd_nopen() != 1 + nconn) mc_fail("%d descriptors are open", vfd_nopen());
    if(conn_table_get_netclients(g.ct) != nconn)
      mc_fail("%d clients are counted, %d are connected",
	      conn_table_get_netclients(g.ct), nconn);
  }
  if(shut_at >= 0){
    usleep(shut_at*1000);
    mc_outcome(outcome());
    down();
    return;
  }
  /* the silent ones are told */
  sleep(IDTMO + 5);
  for(i = 0; i < ncl; ++i)
    if(C[i].proto == 3 && !(types & 4)){
      X[i].must = X[i].may = 0;
      if(!C[i].closed) mc_fail("a silent client stays connected while EMWIN is not served");
    }else if(C[i].proto == 3) C[i].proto = 2;
  nconn = 0;
  for(i = 0; i < ncl; ++i) nconn += !C[i].closed;
  if(sched_nlive() != 2 + nconn)
    mc_fail("%d threads for %d clients", sched_nlive() - 2, nconn);
  if(types == 3 && ef_opens) mc_fail("the emwin filter is opened and EMWIN is not served");
  for(i = 0; i < ncl; ++i)
    if(!C[i].closed) X[i].req[X[i].nreq++] = nann;
  announce(5);
  sleep(5);
  for(i = 0; i < ncl; ++i){
    struct rcvd r;
    int k;
    if(C[i].closed) X[i].nreq = X[i].nconf;
    if(C[i].proto > 2){
      if(C[i].nrx) mc_fail("an unidentified client is sent products");
      continue;
    }
    if(C[i].nrx == 0){
      for(k = 0; k < X[i].nreq; ++k)
	if(wanted(&C[i], announced[X[i].req[k]]))
	  mc_fail("connection %d receives nothing", i);
      continue;
    }
    (void)suffix(&C[i], 0, cl_dead(&C[i]));
    parse(&C[i], &r);
    /* each of those it had to have */
    if(X[i].nreq){
      int w = 0;
      for(k = X[i].req[0]; k < nann; ++k)
	w += wanted(&C[i], announced[k]);
      if(!C[i].closed && r.n < w)
	mc_fail("connection %d has received %d products of %d", i, r.n, w);
    }
  }
  mc_outcome(outcome());
  down();
}
static void b_shutdown(void *arg){
  shut_at = 250*mc_choose(16, "shutdown");
  mc_note("stop after %d ms; ", shut_at);
  b_table(arg);
}


/* -------------------------------------------------------------- C17: stop1 */
/*
 * The server stops, with any one preemption or change of the order of what
 * happens at the same time, while its clients are in all kinds of states.
 */
static void b_stop1(void *arg){
  int p0 = mc_choose(3, "p0"), k0 = mc_choose(5, "does"), at, ms;
  struct cl *c[3];
  (void)arg;
  reset();
  c[0] = newcl(0, p0); c[1] = newcl(1, (p0 + 1) % 3); c[2] = newcl(2, 3);
  at = mc_choose(3, "at"); ms = mc_choose(4, "when");
  if(k0){
    c[0]->ev = k0;
    c[0]->at = at == 0 ? 10 : at == 1 ? P[0].sn[p0] + 50 : P[0].sn[p0] + P[1].sn[p0];
    c[0]->pause = 1200*MS;
  }else if(at){ mc_note("-"); return; }
  up();
  connect_(c[0]); connect_(c[1]);
  sleep(6);
  announce(0); announce(1);
  mc_note("%s %s at %d, stop %d: ", pstr[p0], ename[k0], c[0]->at, ms);
  if(ms > 1) connect_(c[2]);
  if(ms) usleep((unsigned)ms*700000);
  announce(2);
  sched_sync_points = vfd_poll_points = 1; mc_bound_set(2 + mc_tier);
  down();
  sched_sync_points = vfd_poll_points = 0; mc_bound_set(0);
  mc_outcome(outcome());
}

/* -------------------------------------------------------------- C17: slots */
/*
 * The products are in the memory spool, which has one or two slots for
 * reading, and clients are taken away while they hold one or wait for one.
 */
static void b_slots(void *arg){
  static const int at[3] = { 0, 70, 65536 + 100 };
  struct cl *c[4];
  int nslots = 1 + mc_choose(2, "slots"), i, v, how, nc = 2 + nslots;
  int64_t ms;
  (void)arg;
  reset();
  g.spooltype = SPOOLTYPE_MBDB;
  g.mspoolbdb_nslots = nslots;
  v = mc_choose(nc, "victim");
  how = mc_choose(4, "how");
  ms = 250*mc_choose(16, "when");
  up();
  for(i = 0; i < nc; ++i){
    c[i] = newcl(i, 0);
    connect_(c[i]);
  }
  /* so many as there are slots do not read */
  for(i = 0; i < nslots; ++i){
    c[i]->ev = E_STUCK;
    c[i]->at = at[mc_choose(3, "at")];
  }
  mc_note("%d slots, client %d %s after %lld ms: ", nslots, v,
	  how == 0 ? "closes" : how == 1 ? "resets" : how == 2 ?
	  "connects again" : "stays", (long long)ms);
  sleep(10);
  announce(0); announce(1);
  usleep((unsigned)(ms*1000));
  if(how == 0) c[v]->eof = 1;
  if(how == 1) c[v]->rst = 1;
  if(how == 2){
    struct cl *q = newcl(v, 0);
    connect_(q);
  }
  announce(2);
  sleep(20);
  announce(4);
  for(i = 0; i < nc; ++i){
    if(i < nslots || (i == v && how < 3)) continue;
    if(waitn(c[i], 4, 10*SEC))
      mc_fail("client %d waits because of another one: has received %d bytes",
	      i, c[i]->nrx);
    exactly(c[i], 0, nann);
    if(c[i]->closed) mc_fail("client %d is disconnected", i);
  }
  for(i = 0; i < nc; ++i)
    if((i < nslots || (i == v && how < 3)) && !c[i]->closed)
      mc_fail("the connection of client %d stays open", i);
  if(how == 2){
    struct cl *q = &C[nc];
    if(q->closed) mc_fail("a client that has connected again is disconnected");
    (void)suffix(q, 0, 0);
    if(waitn(q, 1, SEC)) mc_fail("a client that has connected again receives nothing");
  }
  mc_outcome(outcome());
  down();
}

/* ------------------------------------------------------------- C24: limits */
/*
 * A client that does not read costs no more than its queue may hold, and only
 * itself.
 */
static void b_limits(void *arg){
  struct cl *good, *bad;
  int soft = mc_choose(3, "soft"), hard = mc_choose(4, "hard"), i, j, n;
  int kind = mc_choose(3, "kind"), gp = mc_choose(3, "good");
  int bp = mc_choose(3, "other");
  struct rcvd r;
  (void)arg;
  reset();
  g.client_queue_maxsize_soft = soft;
  g.client_queue_maxsize_hard = hard ? 2*hard : 0;
  up();
  good = newcl(0, gp);
  bad = newcl(1, bp);
  bad->ev = kind == 0 ? E_STUCK : E_PAUSE;
  bad->pause = kind == 1 ? 1500*MS : 60000*MS;
  bad->at = 10;
  mc_note("limits %d %d, other client %s: ", soft, 2*hard, ename[bad->ev]);
  connect_(good); connect_(bad);
  sleep(8);
  for(i = 0; i < 12; ++i){
    announce(i % np);
    usleep(10000);
    n = nbspqt_n(g.ct->ce[2].cq->qt, 0);
    if(hard && n > 2*hard)
      mc_fail("%d products wait for a client; the limit is %d", n, 2*hard);
  }
  if(waitn(good, wantn(good, 0, nann), 4*SEC))
    mc_fail("a client waits for the products because of another one");
  exactly(good, 0, nann);
  sleep(20);
  announce(2);
  if(waitn(good, wantn(good, 0, nann), 4*SEC))
    mc_fail("a client waits for the products because of another one");
  exactly(good, 0, nann);
  if(good->closed) mc_fail("a good client is disconnected");
  if(!bad->closed) (void)waitn(bad, wantn(bad, 0, nann), 4*SEC);
  /* the other one gets the products in their order, all if it has room */
  parse(bad, &r);
  for(i = j = 0; i < r.n; ++i){
    while(j < nann && announced[j] != r.got[i]) ++j;
    if(j++ == nann) mc_fail("the other client receives products in another order");
  }
  if(kind == 1){
    if(bad->closed) mc_fail("a client that pauses is disconnected");
    n = wantn(bad, 0, nann);
    if((hard == 0 || bp == 2) && hard == 0 && r.n != n)
      mc_fail("a client has received %d products of %d", r.n, n);
    /* those there was room for: the first, the one it waits in, the last */
    if(hard && r.n < 2*hard + 2 && r.n < n)
      mc_fail("a client has received %d products, its queue holds %d", r.n, 2*hard);
  }
  mc_outcome(outcome());
  down();
}

/* -------------------------------------------------------------- C18: netf */
/*
 * The netfilter decides for each client and product.
 */
static int nf0(int ip, int k){ (void)ip; (void)k; return(0); }
static int nf1(int ip, int k){ (void)ip; (void)k; return(1); }
static int nfip1(int ip, int k){ (void)k; return(ip == 1); }
static int nfnot0(int ip, int k){ (void)k; return(ip != 0); }
static int nfnot1(int ip, int k){ (void)k; return(ip != 1); }
static int nfk1(int ip, int k){ (void)ip; return(k == 1); }
static int nfk2(int ip, int k){ (void)ip; return(k == 2); }
static int nfnk1(int ip, int k){ (void)ip; return(k != 1); }
static int nfx(int ip, int k){ return(ip == 0 ? k == 1 : k != 1); }
#define NAME0 "[lindex $input 5] eq {sxus51_abc001}"
static const struct { const char *body; int (*ok)(int ip, int k); } NF[] = {
  { "", nf0 },
  { "set allow(0) 1", nf1 },
  { "set allow(0) 0; set allow(host2.example.com) 1", nfip1 },
  { "set allow(0) 1; set allow(10.0.0.1) 0", nfnot0 },
  { "set allow(0) [expr {" NAME0 "}]", nfk1 },
  { "set allow(0) [expr {$serverinfo(clientip) ne {10.0.0.2}}]", nfnot1 },
  { "set allow(0) 1; set allow(10.0.0.2) 0; set allow(host2.example.com) 1", nf1 },
  { "set allow(0) 1; set allow(10.0.0.2) 1; set allow(host2.example.com) 0", nfnot1 },
  { "set allow(0) [expr {$serverinfo(clientname) eq {host2.example.com}}]", nfip1 },
  { "set allow(0) 1; if {" NAME0 "} {error x}", nfnk1 },
  { "set allow(0) [expr {[lindex $input 0] == 4294967282}]", nfk2 },
  { "set allow(0) [string match {*/kwbc_sxus51_abc001.010203_4294967281} [lindex $input 6]]", nfk1 },
  { "set allow(0) [expr {[lrange $input 1 4] eq {5 131 201 1}}]", nfk1 },
  { "set allow(0) x", nf0 },
  { "set allow(0) 1; set allow(10.0.0.1) x; set allow(host2.example.com) x", nf1 },
  { "set allow(0) [expr {($serverinfo(clientip) eq {10.0.0.1}) == (" NAME0 ")}]", nfx },
};
#define NNF ((int)(sizeof(NF)/sizeof(NF[0])))
static void writescript(int i, int bad){
  char b[900];
  int n = snprintf(b, sizeof(b), "%s"
    "set output_status 1\n"
    "if {$command == 2} {set output_status 0; return 0}\n"
    "if {$command == 1} {\narray unset allow\n%s\nset output_status 0\n"
    "return 0\n}\n%sset output_status 0\n", bad == 1 ? "set x [\n" : "",
    NF[i].body, bad == 2 ? "return 0\n" : "");
  if(bad == 3) unlink(mkscr());
  else nenv_writefile(mkscr(), b, n);
}
static void nfcheck(struct cl *c, int from, int to, int scr, int *j, struct rcvd *r){
  int i;
  for(i = from; i < to; ++i){
    int k = announced[i];
    if(!wanted(c, k) || !NF[scr].ok(c->ip, k)){
      continue;
    }
    if(*j >= r->n || r->got[*j] != k)
      mc_fail("client %d is not sent product %d, which the netfilter allows",
	      c->ip, k);
    ++*j;
  }
}
static void b_netf(void *arg){
  int s1 = mc_choose(NNF, "script"), s2 = s1, ev = mc_choose(6, "event");
  int p0 = mc_choose(3, "p0"), p1 = mc_choose(3, "p1"), i, m;
  struct cl *c[2];
  (void)arg;
  reset();
  if(ev) s2 = mc_choose(NNF, "script2");
  g.netfilter_enable = 1;
  g.netfilter = mkscr();
  writescript(s1, 0);
  up();
  c[0] = newcl(0, p0); c[1] = newcl(1, p1);
  connect_(c[0]); connect_(c[1]);
  mc_note("script %d, event %d, script %d: ", s1, ev, s2);
  sleep(8);
  announce(0); announce(1);
  sleep(2);
  if(ev){
    writescript(s2, ev < 4 ? ev - 1 : ev - 3);
    set_reload_server_filters_flag();
    if(g.f_emwinserver_enabled == 0) mc_fail("no EMWIN");
    sleep(3);
  }
  m = nann;
  announce(2); announce(1);
  sleep(3);
  if(ev > 3){
    /* stopped while the filter cannot be loaded */
    mc_outcome(outcome());
    g.netfilter = NULL;
    down();
    return;
  }
  if(ev > 1){ writescript(s2, 0); sleep(4); }
  announce(4);
  sleep(4);
  for(i = 0; i < 2; ++i){
    struct rcvd r;
    int j = 0;
    if(c[i]->closed) mc_fail("client %d is disconnected", i);
    parse(c[i], &r);
    nfcheck(c[i], 0, m, s1, &j, &r);
    nfcheck(c[i], m, nann, s2, &j, &r);
    if(j != r.n) mc_fail("client %d is sent product %d, which the netfilter "
			 "does not allow", i, r.got[j]);
  }
  mc_outcome(outcome());
  down();
}

/* -------------------------------------------------------------- C18: opts */
static void b_opts(void *arg){
  static const char *H[] = { "10.0.0.1", "10.0.0.12", "110.0.0.1", "10.0.0.3",
    "host2.example.com", "xhost2.example.com", "host2.example.com.pr",
    "10.0.0.2" };
  static const struct { const char *s; int v[5]; } V[] = {
    { "", { 0, 0, 0, 0, 0 } }, { ",700", { 700, 0, 0, 0, 0 } },
    { ",701,71,72", { 701, 71, 72, 0, 0 } },
    { ",702,x,,73", { 702, 0, 0, 73, 0 } },
    { ",,,81", { 0, 0, 81, 0, 0 } },
    { ",703,74,75,76,777", { 703, 74, 75, 76, 777 } },
    { ",704,77,78,79,778,9", { 704, 77, 78, 79, 778 } },
    { ",-5,0,x9", { 0, 0, 0, 0, 0 } },
  };
  static const char *SEP[] = { "\n", "\n     " };
  int nE = mc_tier ? 3 : 2, i, e[4], v[4], k, q;
  int sep = mc_choose(2, "sep"), lead = mc_choose(2, "lead");
  char o[400];
  static const struct { int ip; const char *name; } CL[] = {
    { 0, "10.0.0.1" }, { 1, "host2.example.com" }, { 2, "10.0.0.3" } };
  (void)arg;
  reset();
  o[0] = 0;
  if(lead) strcat(o, SEP[sep]);
  for(i = 0; i < nE; ++i){
    e[i] = mc_choose(8, "host"); v[i] = mc_choose(8, "values");
    strcat(o, H[e[i]]); strcat(o, V[v[i]].s);
    if(lead || i < nE - 1) strcat(o, SEP[sep]);
  }
  g.clientoptions = o;
  mc_note("options \"%s\": ", o);
  up();
  for(k = 0; k < 3; ++k) connect_(newcl(CL[k].ip, 1));
  sleep(9);
  for(k = 0; k < 3; ++k){
    struct conn_element_st *ce = &g.ct->ce[k + 1];
    int want[5] = { WTMO_MS, WRETRY, RSLEEP, RRETRY, 1000 };
    int have[5] = { ce->write_timeout_ms, ce->write_timeout_retry,
      ce->reconnect_wait_sleep_secs, ce->reconnect_wait_sleep_retry,
      ce->queue_read_timeout_ms };
    if(C[k].closed) mc_fail("a client is disconnected");
    if(ce->threadinfo == NULL) mc_fail("no client thread");
    for(i = 0; i < nE; ++i) if(strcmp(H[e[i]], CL[k].name) == 0) break;
    if(i < nE)
      for(q = 0; q < 5; ++q) if(V[v[i]].v[q]) want[q] = V[v[i]].v[q];
    for(q = 0; q < 5; ++q)
      if(want[q] != have[q])
	mc_fail("%s has %d as its option %d, not %d", CL[k].name, have[q], q + 1, want[q]);
  }
  mc_outcome(mc_hash(MC_H0, o, strlen(o)));
  down();
}

/* -------------------------------------------------------------- C24: emwin */
/*
 * The emwin filter fails.
 */
static void b_emwin(void *arg){
  int gp = mc_choose(3, "good"), who = mc_choose(3, "emwin"), mode, at, open, i;
  int always = mc_choose(2, "always"), reload = mc_choose(3, "reload"), n0;
  struct cl *good, *e = NULL;
  int save[NPROD];
  (void)arg;
  reset();
  mode = mc_choose(7, "mode");
  at = mc_choose(3, "product");
  open = mc_choose(3, "opens");
  for(i = 0; i < NPROD; ++i) save[i] = P[i].emw;
  g.emwinfilter_always = always;
  up();
  good = newcl(0, gp);
  connect_(good);
  if(who == 1){ e = newcl(1, 2); connect_(e); }
  if(who == 2){ e = newcl(1, 3); connect_(e); }
  mc_note("%s, emwin client %d, mode %d for product %d, opening fails %d times,"
	  " reload %d: ", pstr[gp], who, mode, at, open, reload);
  sleep(8);
  if(who == 2){ sleep(IDTMO + 3); e->proto = 2; }
  n0 = ef_served;
  P[at].emw = mode;
  efail_open = open;
  for(i = 0; i < 3; ++i){
    if(i == reload - 1){ set_reload_server_filters_flag(); sleep(1 + 2*open + 3); }
    announce(i);
    sleep(1);
    if(i < at || reload == 0) continue;
  }
  /* what the filter takes again: what comes after the failures */
  efail_open = 0;
  announce(4);
  announce(2);
  sleep(3);
  for(i = 0; i < 2; ++i){
    struct cl *c = i ? e : good;
    struct rcvd r;
    int j, k;
    if(c == NULL) continue;
    if(c->closed) mc_fail("client %d is disconnected", i);
    if(c->proto != 2 || (open == 0 && mode < 2)){ exactly(c, 0, nann); continue; }
    /* those after the failure, at least */
    parse(c, &r);
    for(j = k = 0; j < r.n; ++j){
      while(k < nann && (announced[k] != r.got[j])) ++k;
      if(k == nann) mc_fail("EMWIN client %d receives products out of order", i);
      if(mode && announced[k] == at && k == at)
	mc_fail("EMWIN client %d receives a product the filter did not pass", i);
      ++k;
    }
    if(open == 0){
      k = 0;
      for(j = 0; j < nann; ++j) k += !(announced[j] == at && mode);
      if(r.n != k) mc_fail("EMWIN client %d receives %d products of %d", i, r.n, k);
    }else if(r.n < 2 || r.got[r.n - 1] != 2 || (at != 4 && r.got[r.n - 2] != 4))
      if(!(at == 2 && mode)) mc_fail("EMWIN client %d receives nothing after the filter works", i);
  }
  if(gp != 2 && who == 0 && !always && ef_served != n0)
    mc_fail("the emwin filter is run with no EMWIN client");
  if((always || gp == 2 || who) && open == 0 && ef_served - n0 != nann)
    mc_fail("the emwin filter is run %d times for %d products", ef_served - n0, nann);
  mc_outcome(outcome());
  for(i = 0; i < NPROD; ++i) P[i].emw = save[i];
  down();
}

/* -------------------------------------- C13: the patterns of the clients */
static void b_patt(void *arg){
  static char *pats[] = { NULL, "sxus5[024]", ".,!abc00[12],xx", "" };
  int i, proto[2];
  struct cl *c[2];
  (void)arg;
  reset();
  keeps = 1;
  ptn[0] = mc_choose(4, "nbs1"); ptn[1] = mc_choose(4, "nbs2");
  ptn[2] = mc_choose(4, "emwin");
  g.nbs1_patt_accept = pats[ptn[0]]; g.nbs2_patt_accept = pats[ptn[1]];
  g.emwin_patt_accept = pats[ptn[2]];
  free_nbsp_regex();
  if(init_nbsp_regex() != 0) mc_die("regex");
  up();
  for(i = 0; i < 2; ++i){
    proto[i] = mc_choose(3, "proto");
    connect_(c[i] = newcl(i, proto[i]));
  }
  sleep(8);
  for(i = 0; i < NPROD; ++i) announce(i);
  sleep(5);
  for(i = 0; i < 2; ++i){
    if(c[i]->closed) mc_fail("client %d is disconnected", i);
    exactly(c[i], 0, nann);
  }
  mc_outcome(outcome());
  down();
  memset(ptn, 0, sizeof(ptn));
  g.nbs1_patt_accept = g.nbs2_patt_accept = g.emwin_patt_accept = NULL;
  free_nbsp_regex();
  if(init_nbsp_regex() != 0) mc_die("regex");
}

/* ------------------------------------------------------------- C17: create */
/*
 * The thread of a client cannot be created, or a connection not accepted.
 */
static int cr_n, cr_at, cr_cnt;
static int cr_hook(void *(*fn)(void *), void *a){
  (void)fn; (void)a;
  return(cr_n++ >= cr_at && cr_n <= cr_at + cr_cnt ? EAGAIN : 0);
}
static void b_create(void *arg){
  int i, j, first, what = mc_choose(3, "what"), proto = mc_choose(3, "proto");
  struct cl *c[3], *d[3];
  (void)arg;
  reset();
  first = mc_choose(4, "at");
  cr_cnt = 1 + mc_choose(2, "times");
  up();
  cr_n = 0; cr_at = first;
  if(what == 0) sched_create_hook = cr_hook;
  mc_note("%s, %s %d times from the %d-th: ", pstr[proto], what == 0 ?
	  "no thread can be created" : what == 1 ? "accept fails" :
	  "accept is interrupted", cr_cnt, first);
  for(i = 0; i < 3; ++i){
    d[i] = NULL;
    connect_(c[i] = newcl(i, (proto + i) % 3));
    if(what && i == first){ accept_err = -what; }
    sleep(1);
    if(what && i == first && cr_cnt > 1){ accept_err = -what; }
  }
  sleep(8);
  sched_create_hook = NULL;
  for(i = j = 0; i < 3; ++i){
    if(!c[i]->accepted) mc_fail("client %d is never accepted", i);
    if(c[i]->closed){
      ++j;
      if(what) mc_fail("client %d is disconnected", i);
      if(c[i]->nrx) mc_fail("client %d is sent something", i);
      connect_(d[i] = newcl(i, c[i]->proto));
    }
  }
  if(what == 0 && j > cr_cnt) mc_fail("%d clients are disconnected", j);
  sleep(8);
  for(i = 0; i < 4; ++i) announce(i);
  sleep(4);
  for(i = 0; i < 3; ++i){
    struct cl *q = d[i] ? d[i] : c[i];
    if(q->closed) mc_fail("client %d is disconnected", i);
    exactly(q, 0, nann);
  }
  mc_outcome(outcome());
  down();
}

static void body1(void *a){ (void)a; }
static void init(void){
  int i;
  nenv_init();
  g.dbcache_mb = 1;
  if(nbsp_open_dbenv() != 0) mc_die("dbenv: %s", nenv_lastlog);
  if(getenv("MC_LOGS")) set_log_verbose(3);
  g.serverport = "2210";
  g.servername = NULL;
  g.client_queue_dbcache_mb = 1;
  g.serverthreads_logperiod_packets = 0;
  g.serverthreads_logperiod_secs = 1 << 30;
  g.emwinfilter = "emwinfilter";
  g.emwinfilter_always = 0;
  g.emwin_patt_accept = NULL;
  iox_prefix = mc_scratch;
  g.mspoolbdb = NULL;
  g.mspoolbdb_dbcache_mb = 1; g.mspoolbdb_ndb = 2;
  g.mspoolbdb_maxsize_per128 = 128; g.mspoolbdb_nslots = 1;
  mkprod(300, 0);
  mkprod(65536 + 700, 0);
  mkprod(900, 0);
  mkprod(500, 1);
  mkprod(1500, 0);
  mkprod(30, 0);
  spoolprods();
  if(init_nbsp_regex() != 0) mc_die("regex");
  tzset();
  { time_t t = 0; struct tm tm; localtime_r(&t, &tm); }
  fds0 = countfds();
  reset();
  (void)body1; (void)i; (void)mem0; (void)mkscr;
}
static void body(void){
  /* the server keeps the time of its next round in a static variable */
  static int64_t last;
  mc_bound_set(0);
  vclock_reset();
  vclock_ns -= vclock_ns % MS; /* so that timeouts of all kinds can coincide */
  if(last >= vclock_ns) vclock_ns += (last - vclock_ns)/SEC*SEC + 100*SEC;
  rc_small = tb_full = 0; shut_at = -1;
  if(strcmp(mc_arg, "deliver") == 0) sched_run(b_deliver, NULL);
  else if(strcmp(mc_arg, "reconn") == 0) sched_run(b_reconn, NULL);
  else if(strcmp(mc_arg, "reconn1") == 0){ rc_small = 1; sched_run(b_reconn, NULL); }
  else if(strcmp(mc_arg, "slots") == 0) sched_run(b_slots, NULL);
  else if(strcmp(mc_arg, "limits") == 0) sched_run(b_limits, NULL);
  else if(strcmp(mc_arg, "table") == 0) sched_run(b_table, NULL);
  else if(strcmp(mc_arg, "tablecfg") == 0){ tb_full = 1; sched_run(b_table, NULL); }
  else if(strcmp(mc_arg, "shutdown") == 0){ tb_full = 1; sched_run(b_shutdown, NULL); }
  else if(strcmp(mc_arg, "stop1") == 0) sched_run(b_stop1, NULL);
  else if(strcmp(mc_arg, "netf") == 0) sched_run(b_netf, NULL);
  else if(strcmp(mc_arg, "opts") == 0) sched_run(b_opts, NULL);
  else if(strcmp(mc_arg, "emwin") == 0) sched_run(b_emwin, NULL);
  else if(strcmp(mc_arg, "patt") == 0) sched_run(b_patt, NULL);
  else if(strcmp(mc_arg, "create") == 0) sched_run(b_create, NULL);
  else mc_die("no part %s", mc_arg);
  last = vclock_ns;
}
int main(int argc, char **argv){
  struct mc_opts o = { .bound = 0, .hang_s = 20 };
  return(mc_main(argc, argv, &o, init, body));
}
