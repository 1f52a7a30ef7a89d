#include <db.h>
#include <errno.h>
#include <string.h>
#include "mc.h"
#include "mcsched.h"
#include "dbx.h"

int dbx_faults, dbx_points, dbx_open_handles;
unsigned dbx_nfaults;
const char *dbx_last = "";
int (*dbx_hook)(const char *op);
static int hookerr;

static int (*r_open)(DB *, DB_TXN *, const char *, const char *, DBTYPE,
		     u_int32_t, int);
static struct {
  DBTYPE t;
  int (*put)(DB *, DB_TXN *, DBT *, DBT *, u_int32_t);
  int (*get)(DB *, DB_TXN *, DBT *, DBT *, u_int32_t);
  int (*del)(DB *, DB_TXN *, DBT *, u_int32_t);
  int (*stat)(DB *, DB_TXN *, void *, u_int32_t);
  int (*sync)(DB *, u_int32_t);
  int (*truncate)(DB *, DB_TXN *, u_int32_t *, u_int32_t);
  int (*cursor)(DB *, DB_TXN *, DBC **, u_int32_t);
} R[8];
static int (*r_close)(DB *, u_int32_t);
int __real_db_create(DB **, DB_ENV *, u_int32_t);

static int fault(const char *what){
  if(dbx_points) sched_point(what);
  hookerr = 0;
  if(dbx_hook && (hookerr = dbx_hook(what)) != 0) return(1);
  if(dbx_faults && mc_dev(2, what)){
    ++dbx_nfaults;
    dbx_last = what;
    mc_note("<%s fails> ", what);
    return(1);
  }
  return(0);
}
static void after(const char *what){ if(dbx_points) sched_point(what); }
static int ty(DB *d){
  DBTYPE t = DB_UNKNOWN;
  d->get_type(d, &t);
  return((int)t & 7);
}
static int x_put(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){
  int r;
  if(fault("db-put")) return(hookerr ? hookerr : ENOSPC);
  r = R[ty(d)].put(d, t, k, v, f);
  after("db-put-done");
  return(r);
}
static int x_get(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){
  int r;
  if(fault("db-get")) return(hookerr ? hookerr : EIO);
  r = R[ty(d)].get(d, t, k, v, f);
  after("db-get-done");
  return(r);
}
static int x_del(DB *d, DB_TXN *t, DBT *k, u_int32_t f){
  int r;
  if(fault("db-del")) return(hookerr ? hookerr : EIO);
  r = R[ty(d)].del(d, t, k, f);
  after("db-del-done");
  return(r);
}
static int x_stat(DB *d, DB_TXN *t, void *s, u_int32_t f){
  if(fault("db-stat")) return(hookerr ? hookerr : EIO);
  return(R[ty(d)].stat(d, t, s, f));
}
static int x_sync(DB *d, u_int32_t f){
  if(fault("db-sync")) return(hookerr ? hookerr : EIO);
  return(R[ty(d)].sync(d, f));
}
static int x_truncate(DB *d, DB_TXN *t, u_int32_t *n, u_int32_t f){
  int r;
  if(fault("db-truncate")) return(hookerr ? hookerr : EIO);
  r = R[ty(d)].truncate(d, t, n, f);
  after("db-truncate-done");
  return(r);
}
static int x_cursor(DB *d, DB_TXN *t, DBC **c, u_int32_t f){
  if(fault("db-cursor")) return(hookerr ? hookerr : EIO);
  return(R[ty(d)].cursor(d, t, c, f));
}
static int x_close(DB *d, u_int32_t f){
  --dbx_open_handles;
  return(r_close(d, f));
}
static int x_open(DB *d, DB_TXN *t, const char *f, const char *n, DBTYPE ty_,
		  u_int32_t fl, int m){
  int r, k = (int)ty_ & 7;
  if(fault("db-open")) return(hookerr ? hookerr : ENOENT);
  r = r_open(d, t, f, n, ty_, fl, m);
  if(r == 0){
    R[k].put = d->put; R[k].get = d->get; R[k].del = d->del;
    R[k].stat = d->stat; R[k].sync = d->sync; R[k].truncate = d->truncate;
    R[k].cursor = d->cursor;
    d->put = x_put; d->get = x_get; d->del = x_del; d->stat = x_stat;
    d->sync = x_sync; d->truncate = x_truncate; d->cursor = x_cursor;
  }
  return(r);
}
int __wrap_db_create(DB **d, DB_ENV *e, u_int32_t f){
  int r;
  if(fault("db-create")){ return(hookerr ? hookerr : ENOMEM); }
  r = __real_db_create(d, e, f);
  if(r == 0){
    ++dbx_open_handles;
    r_open = (*d)->open; r_close = (*d)->close;
    (*d)->open = x_open; (*d)->close = x_close;
  }
  return(r);
}
