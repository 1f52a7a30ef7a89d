#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/stat.h>
#include "mc.h"
#include "mcsched.h"
#include "iox.h"

int iox_points, iox_faults, vfd_poll_points;
unsigned iox_nfaults;
const char *iox_last = "", *iox_prefix;
void (*iox_before)(const char *, const char *);
int (*iox_hook)(const char *, const char *);
int (*vfd_poll_hook)(struct pollfd *, nfds_t, int);
int (*iox_open_hook)(const char *, int);
ssize_t (*iox_read_hook)(int, void *, size_t);

static struct vfd V[NVFD];
static unsigned char tracked[512];

static int under(const char *p){
  return(iox_prefix && strncmp(p, iox_prefix, strlen(iox_prefix)) == 0);
}
static int on(void){
  return(iox_points || iox_faults || iox_before || iox_hook);
}
/* 0: go on; k: the k-th way of failing */
static int pt(const char *what, const char *path, int ways){
  int k = 0;
  if(iox_points && sched_active()) sched_point(what);
  if(iox_before) iox_before(what, path);
  if(iox_hook && ways) k = iox_hook(what, path);
  if(k == 0 && iox_faults && ways) k = mc_dev(ways + 1, what);
  if(k){ ++iox_nfaults; iox_last = what; mc_note("<%s fails:%d> ", what, k); }
  return(k);
}
/* the number may belong by now to another file */
int vfd_strict;
static void gone(const char *what){
  if(vfd_strict) mc_fail("%s: the descriptor is closed already", what);
}
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...){
  va_list ap; int m = 0, fd;
  if(fl & O_CREAT){ va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
  if(iox_open_hook && (fd = iox_open_hook(p, fl)) != -9) return(fd);
  if(on() && under(p)){
    if(pt("open", p, 1)){ errno = ENOSPC; return(-1); }
    fd = __real_open(p, fl, m);
    if(fd >= 0 && fd < 512) tracked[fd] = 1;
    return(fd);
  }
  return(__real_open(p, fl, m));
}
int __real_close(int);
int __wrap_close(int fd){
  struct vfd *v = vfd_get(fd);
  if(fd >= VFD0 && fd < VFD0 + NVFD){
    if(v == NULL) mc_fail("descriptor closed twice");
    v->open = 0;
    {
      int r = v->close ? v->close(v) : 0, e = errno;
      if(vfd_poll_points && sched_active()) sched_point("closed");
      errno = e;
      return(r);
    }
  }
  if(fd >= 0 && fd < 512 && tracked[fd]){
    tracked[fd] = 0;
    pt("close", NULL, 0);
  }
  return(__real_close(fd));
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n){
  struct vfd *v = vfd_get(fd);
  if(fd >= VFD0 && fd < VFD0 + NVFD){
    if(v == NULL){ gone("write"); errno = EBADF; return(-1); }
    return(v->write(v, b, n));
  }
  if(fd >= 0 && fd < 512 && tracked[fd]){
    int k = pt("write", NULL, 2);
    if(k == 1){ errno = ENOSPC; return(-1); }
    if(k == 2) return(__real_write(fd, b, n/2));
  }
  return(__real_write(fd, b, n));
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n){
  struct vfd *v = vfd_get(fd);
  if(fd >= VFD0 && fd < VFD0 + NVFD){
    if(v == NULL){ gone("read"); errno = EBADF; return(-1); }
    return(v->read(v, b, n));
  }
  if(iox_read_hook){
    ssize_t r = iox_read_hook(fd, b, n);
    if(r != -9) return(r);
  }
  if(fd >= 0 && fd < 512 && tracked[fd]){
    if(pt("read", NULL, 1)){ errno = EIO; return(-1); }
  }
  return(__real_read(fd, b, n));
}
int __real_unlink(const char *);
int __wrap_unlink(const char *p){
  if(on() && under(p) && pt("unlink", p, 1)){ errno = EACCES; return(-1); }
  return(__real_unlink(p));
}
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m){
  struct stat st;
  if(on() && under(p)){
    /* failing to make what is there already is the normal course */
    int k = pt("mkdir", p, stat(p, &st) != 0);
    if(k){ errno = ENOSPC; return(-1); }
  }
  return(__real_mkdir(p, m));
}
int __real_rename(const char *, const char *);
int __wrap_rename(const char *a, const char *b){
  if(on() && under(a) && pt("rename", a, 1)){ errno = EACCES; return(-1); }
  return(__real_rename(a, b));
}

/* ------------------------------------------------------------ virtual fds */
int vfd_new(void *priv){
  int i;
  for(i = 0; i < NVFD; ++i)
    if(!V[i].open){
      memset(&V[i], 0, sizeof(V[i]));
      V[i].open = 1; V[i].priv = priv;
      return(VFD0 + i);
    }
  mc_die("too many virtual descriptors");
  return(-1);
}
struct vfd *vfd_get(int fd){
  if(fd < VFD0 || fd >= VFD0 + NVFD || !V[fd - VFD0].open) return(NULL);
  return(&V[fd - VFD0]);
}
void vfd_reset(void){ memset(V, 0, sizeof(V)); }
int vfd_nopen(void){
  int i, n = 0;
  for(i = 0; i < NVFD; ++i) n += V[i].open;
  return(n);
}
struct pq { struct pollfd *p; nfds_t n; };
static int ready(void *a){
  struct pq *q = a;
  nfds_t i; int n = 0;
  for(i = 0; i < q->n; ++i){
    struct vfd *v = vfd_get(q->p[i].fd);
    q->p[i].revents = 0;
    if(q->p[i].fd < 0) continue;
    if(v == NULL) q->p[i].revents = POLLNVAL;
    else if(v->poll) q->p[i].revents = v->poll(v, q->p[i].events);
    if(q->p[i].revents) ++n;
  }
  return(n);
}
int __real_poll(struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd *p, nfds_t n, int timeout){
  struct pq q = { p, n };
  nfds_t i;
  int k;
  if(n == 0 || (p[0].fd >= 0 && (p[0].fd < VFD0 || p[0].fd >= VFD0 + NVFD)))
    return(__real_poll(p, n, timeout));
  if(vfd_poll_hook && (k = vfd_poll_hook(p, n, timeout)) != -9) return(k);
  if(vfd_poll_points && sched_active()) sched_point("poll");
  for(i = 0; i < n; ++i)
    if(p[i].fd >= 0 && vfd_get(p[i].fd) == NULL) gone("poll");
  k = ready(&q);
  if(k || timeout == 0 || !sched_active()) return(k);
  sched_wait(ready, &q, timeout < 0 ? -1 : vclock_ns + timeout*1000000LL,
	     "poll");
  return(ready(&q));
}
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...){
  va_list ap; long a; struct vfd *v;
  va_start(ap, cmd); a = va_arg(ap, long); va_end(ap);
  if(fd >= VFD0 && fd < VFD0 + NVFD){
    v = vfd_get(fd);
    if(v == NULL){ errno = EBADF; return(-1); }
    if(cmd == F_GETFL) return(O_RDWR | (v->nonblock ? O_NONBLOCK : 0));
    if(cmd == F_SETFL) v->nonblock = (a & O_NONBLOCK) != 0;
    return(0);
  }
  return(__real_fcntl(fd, cmd, a));
}
