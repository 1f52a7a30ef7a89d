/*
 * Included before everything else in the sources of a stand-alone program
 * that is run inside a harness: its standard streams, its exit() and atexit()
 * are those of the instance that is running.
 */
#ifndef TOOLPRE_H
#define TOOLPRE_H
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif
extern FILE *tool_err, *tool_out, *tool_in;
void tool_exit(int) __attribute__((noreturn));
int tool_atexit(void (*)(void));
int tool_fileno(FILE *);
#ifdef __cplusplus
}
#endif
#undef stderr
#undef stdout
#undef stdin
#define stderr tool_err
#define stdout tool_out
#define stdin tool_in
#define printf(...) fprintf(tool_out, __VA_ARGS__)
#undef fileno
#define fileno tool_fileno
#define exit tool_exit
#define _exit tool_exit
#define atexit tool_atexit
#endif
