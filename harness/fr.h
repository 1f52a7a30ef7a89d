/* Builds broadcast frames (SBN protocol), independently of the code. */
#ifndef FR_H
#define FR_H
#include <string.h>
#include <stdint.h>
#include "sbn.h"

struct frspec {
  int channel;
  int cmd;			/* 3 data */
  unsigned seqno;		/* sbn sequence number */
  int type;			/* transfer type flags */
  unsigned prod;		/* product sequence number */
  int block;
  int nfrag;			/* psh (block 0 only) */
  int status_flag;		/* psh; 16 retransmission */
  unsigned orig;		/* psh */
  const void *ctrl; int ctrl_size;
  const void *data; int data_size;
  int ptype, pcat, pcode;
};

static inline void put2(unsigned char *p, unsigned v){ p[0]=v>>8; p[1]=v; }
static inline void put4(unsigned char *p, unsigned v){
  p[0]=v>>24; p[1]=v>>16; p[2]=v>>8; p[3]=v;
}
static inline void fr_cksum(unsigned char *p){
  int i, s = 0;
  for(i = 0; i < 14; ++i) s += p[i];
  put2(p + 14, s);
}
static inline void fr_build(struct sbn_frame *f, const struct frspec *s){
  unsigned char *p = (unsigned char *)f->rawdata;
  int o;
  memset(p, 0, 68);
  p[0] = 0xff; p[1] = 3; p[2] = 0x14; p[3] = 0; p[4] = s->cmd;
  p[5] = 5; p[6] = 1; p[7] = 0;
  put4(p + 8, s->seqno);
  put2(p + 12, 1);
  fr_cksum(p);
  f->np_channel_index = s->channel;
  if(s->cmd != 3){ f->rawdata_size = 48; memset(p + 16, 0xa5, 32); return; }
  o = 16;
  p[o] = 0x14; p[o+1] = s->type;
  put2(p + o + 2, s->block == 0 ? 52 : 16);
  put2(p + o + 4, s->block);
  put2(p + o + 6, s->ctrl_size);
  put2(p + o + 8, s->ctrl_size + s->data_size);
  p[o+10] = 1; p[o+11] = 1;
  put4(p + o + 12, s->prod);
  o += 16;
  if(s->block == 0){
    p[o+4] = 1; p[o+5] = s->status_flag;
    p[o+10] = s->ptype; p[o+11] = s->pcat;
    put2(p + o + 12, s->pcode);
    put2(p + o + 14, s->nfrag);
    put4(p + o + 20, s->orig);
    o += 36;
  }
  if(s->ctrl_size) memcpy(p + o, s->ctrl, s->ctrl_size);
  o += s->ctrl_size;
  if(s->data_size) memcpy(p + o, s->data, s->data_size);
  f->rawdata_size = o + s->data_size;
}
#endif
