/*
 * The calls of the data base handles become scheduling points, and may be
 * made to fail.
 */
#ifndef DBX_H
#define DBX_H
/* which calls may fail (each failure is a deviation) */
extern int dbx_faults;		/* 1: may fail */
extern int dbx_points;		/* 1: scheduling points around the calls */
extern int dbx_open_handles;	/* handles created and not closed */
extern unsigned dbx_nfaults;	/* injected */
extern const char *dbx_last;
/* returns an error code to make the call fail with it */
extern int (*dbx_hook)(const char *op);
#endif
