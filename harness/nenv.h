/* The environment in which the daemon code is driven. */
#ifndef NENV_H
#define NENV_H
#include <stddef.h>
#include <stdint.h>

/*
 * Default values of the program's configuration, with every path inside the
 * scratch directory and no log output.
 */
void nenv_init(void);
/* number of formatted log messages so far (nothing is written) */
extern uint64_t nenv_logs;
extern int nenv_log_format;	/* actually format them (default 1) */
extern char nenv_lastlog[1024];
char *nenv_path(const char *rel);	/* malloc'ed scratch path */
void nenv_rmtree_contents(const char *rel);
int nenv_slurp(const char *path, void *buf, size_t max); /* size, or -1 */
void nenv_writefile(const char *path, const void *p, size_t n);
#endif
