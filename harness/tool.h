/* Runs the main() of stand-alone programs, one or more at the same time. */
#ifndef TOOL_H
#define TOOL_H
#include <stdio.h>
extern FILE *tool_err, *tool_out, *tool_in;
typedef int (*tool_main_fn)(int, char **);
/* the exit status of main(argv), argv ends with NULL */
int tool_run(tool_main_fn fn, char **argv);
/* the running program is ended as if by a signal; no handlers */
void tool_kill(void) __attribute__((noreturn));
int tool_running(void);		/* in this fiber */
#define TOOL_KILLED 1000
/* the standard input of the next runs: at most chunk bytes at once */
void tool_feed(const void *b, int n, int chunk);
void tool_nofeed(void);
/* its standard output */
void tool_capture(const char *path);	/* before a run */
int tool_output(void *b, int max);	/* after it: how many */
/* programs whose variables are set again before each run */
struct tool_prog { const char *name; tool_main_fn fn; char *a, *b, *save; };
#define TOOL_DECL(N) int N##_main(int, char **); \
  extern char __start_pd_##N[] __attribute__((weak)), \
    __stop_pd_##N[] __attribute__((weak))
#define TOOL_PROG(N) { #N, N##_main, __start_pd_##N, __stop_pd_##N, NULL }
void tool_reg(struct tool_prog *p, int n);
#endif
