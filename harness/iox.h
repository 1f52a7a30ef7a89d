/*
 * System calls of the code under test: file operations below a directory
 * become scheduling or failure points, and "virtual" descriptors are served
 * by the harness (streams, sockets, fifos).
 */
#ifndef IOX_H
#define IOX_H
#include <sys/types.h>
#include <poll.h>

extern int iox_points;		/* scheduling points at file operations */
extern int iox_faults;		/* file operations may fail (deviations) */
extern unsigned iox_nfaults;
extern const char *iox_last;
extern const char *iox_prefix;	/* only paths that start with it */
/* called before each operation on a tracked file, path may be NULL */
extern void (*iox_before)(const char *op, const char *path);

/* returns k > 0 to make the operation fail in its k-th way */
extern int (*iox_hook)(const char *op, const char *path);

/* may return a descriptor (or -1) for an open; -9: the real one */
extern int (*iox_open_hook)(const char *path, int flags);

/* may serve a read from a real descriptor; -9: no */
extern ssize_t (*iox_read_hook)(int fd, void *b, size_t n);

struct vfd {
  void *priv;
  ssize_t (*read)(struct vfd *, void *, size_t);
  ssize_t (*write)(struct vfd *, const void *, size_t);
  /* 0: nothing; else revents; must not block */
  int (*poll)(struct vfd *, int events);
  int (*close)(struct vfd *);
  int open;
  int nonblock;
  int peerclosed;
};
#define VFD0 600
#define NVFD 64
int vfd_new(void *priv);	/* returns the descriptor */
struct vfd *vfd_get(int fd);
void vfd_reset(void);
int vfd_nopen(void);
extern int vfd_poll_points, vfd_strict;	/* poll may be preempted */
extern int (*vfd_poll_hook)(struct pollfd *p, nfds_t n, int timeout);
#endif
