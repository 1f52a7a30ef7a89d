From 06b288a20b2d6819a86fd4e7089520464891912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 01/95] fix: do not take a closed product for active when its
 sequence number is 0

The sequence number 0 doubled as the mark of a closed element of the control
list, so that a stray continuation frame of a product number 0 matched the
closed element and a stale or empty product was delivered as complete.
---
 src/pctl.c | 16 ++++++++++++----
 src/pctl.h |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pctl.c b/src/pctl.c
index ada77c0..1457a2c 100644
--- a/src/pctl.c
+++ b/src/pctl.c
@@ -313,7 +313,8 @@ struct pctl_element_st *get_pctl_activepce(struct pctl_st *pctl,
   if((channel_index < 0) || (channel_index >= pctl->num_activechannels))
     return(NULL);
 
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if(((pctl->activepce[i])->f_active == 0) ||
+     ((pctl->activepce[i])->seq_number != seqnumber))
     return(NULL);
 
   return(pctl->activepce[i]);
@@ -332,7 +333,8 @@ int update_activepce_framecounter(struct pctl_st *pctl,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if(((pctl->activepce[i])->f_active == 0) ||
+     ((pctl->activepce[i])->seq_number != seqnumber))
     status = 1;
   else{
     if(block_number == (pctl->activepce[i])->recv_fragments){
@@ -364,7 +366,8 @@ int complete_activepce(struct pctl_st *pctl, int channel_index,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if(((pctl->activepce[i])->f_active == 0) ||
+     ((pctl->activepce[i])->seq_number != seqnumber))
     status = 1;
   else{
     if((pctl->activepce[i])->num_fragments > 
@@ -426,6 +429,7 @@ struct pctl_element_st *create_pce(size_t memfile_size){
     return(NULL);
   }
 
+  pce->f_active = 0;
   pce->seq_number = 0;
   pce->fpath_size = const_fpath_maxsize() + 1;
 
@@ -451,8 +455,11 @@ int open_pce(struct pctl_element_st *pce){
   
   int status = 1;
 
-  if(pce->seq_number == 0)
+  if(pce->f_active == 0){
     status = open_memfile(pce->mf);
+    if(status == 0)
+      pce->f_active = 1;
+  }
 
   return(status);
 }
@@ -467,6 +474,7 @@ void close_pce(struct pctl_element_st *pce){
   if(pce->mf != NULL)
     close_memfile(pce->mf);
 
+  pce->f_active = 0;
   pce->seq_number = 0;  
 }
   
diff --git a/src/pctl.h b/src/pctl.h
index 0b7af1e..e82dffd 100644
--- a/src/pctl.h
+++ b/src/pctl.h
@@ -18,6 +18,7 @@
 
 struct pctl_element_st {
   int f_complete;	    /* 0 = missing frames */
+  int f_active;		    /* 1 = open; all values of seq_number are valid */
   int num_fragments;	    /* number of fragments this product was divided */
   int recv_fragments;	    /* number of fragments received */
   unsigned int seq_number;
-- 
2.43.0


From 02a8eba5d271dce8af2c582c50af8157cf97ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 02/95] fix: reject frames whose control header is larger than
 the data block

The size of the frame data came out negative, and was then used as the
size of a memory copy.
---
 src/sbn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sbn.c b/src/sbn.c
index 01e48f4..291e905 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -204,6 +204,10 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
        */
       return(2);
     }
+
+    /* The ctrlhdr is part of the data block */
+    if(sbnf->ctrlhdr_size > sbnf->pdh.data_block_size)
+      return(2);
   }
 
   blkdata_offset += sbnf->ctrlhdr_size;
-- 
2.43.0


From 0e117b6e057184cd4f3c001d34ad2ae76c9d31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 03/95] fix: do not abort on a control header larger than
 expected

The size of the control header comes from the received frame.
---
 src/sbn.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 291e905..01b8f6e 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -340,11 +340,9 @@ int copy_ctrlheader(char *ctrlheader, int *ctrlheader_size,
   if(sbnf->ctrlhdr_size > allocatedsize){
     /*
      * If the actual size is larger than the allocated size passed to
-     * the function, we treat it is a non existent, although this is a bug
-     * in the allocation of the size of the buffer.
+     * the function, we treat it is a non existent. (The size is whatever
+     * the frame says.)
      */
-    assert(allocatedsize >= sbnf->ctrlhdr_size);
-
     return(1);
   }
 
-- 
2.43.0


From df29dcd33c62a25dc6cc9b2883e1634edefc8dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 04/95] fix: do not read the wmo header past the end of the
 frame data

A header cut short by the end of the data was completed with whatever
a previous, larger, frame had left in the buffer.
---
 src/const.h |  1 +
 src/sbn.c   | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/const.h b/src/const.h
index 19289b9..a90b1fb 100644
--- a/src/const.h
+++ b/src/const.h
@@ -39,6 +39,7 @@
 /* #define WMO_AWIPS_SIZE	6	   xxxxxx (common.h) */
 #define WMO_NOTAWIPS_SIZE	6	/* maximum */
 #define WMO_BBB_SIZE		6	/* maximum (2024 - for the goesr) */
+#define WMO_LINE_SIZE		79	/* maximum of first line (what is read) */
 #define FSEQNUM_SIZE		10	/* seqnum & ffffffff */
 #define FSEQKEY_SIZE		17	/* ddhhmm_seqnum[10] */
 #define FBASENAME_SIZE		36	/* fname[18].fseqkey[17] */
diff --git a/src/sbn.c b/src/sbn.c
index 01b8f6e..f8e6624 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -297,6 +297,9 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
       pdata_size = sbnf->frdata_size;
     }
 
+    if(pdata_size < 1)
+      return(2);
+
     if(isalpha(pdata[0])){
       sbnf->ccb = NULL;
       sbnf->ccb_size = 0;
@@ -382,6 +385,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
    *    dec2024 - Added the functions to validate the wmo header
    */
   char *wmo;
+  char wmoline[WMO_LINE_SIZE + 1];	/* first line, null terminated */
   char wmobbb[WMO_BBB_SIZE + 1];	/* 6 + 1 */
   int count_blanks;
   int i;
@@ -423,12 +427,22 @@ int split_wmo_header(struct sbn_frame *sbnf,
 
   /* Count how many parts the wmo header has */
   count_blanks = count_char(wmo, data_size, ' ');
+
+  /* Whatever follows the data is not part of the header */
+  n = 0;
+  while((n < data_size) && (n < WMO_LINE_SIZE) &&
+	(wmo[n] != '\n') && (wmo[n] != '\0')){
+    wmoline[n] = wmo[n];
+    ++n;
+  }
+  wmoline[n] = '\0';
+
   if(count_blanks == 3) {
-    if(sscanf(wmo, "%6s %4s %6s %6s",
+    if(sscanf(wmoline, "%6s %4s %6s %6s",
 	      wmo_id, wmo_station, wmo_time, wmobbb) < 4)
       return(1);
   } else if(count_blanks == 2) {
-    if(sscanf(wmo, "%6s %4s %6s",
+    if(sscanf(wmoline, "%6s %4s %6s",
 	      wmo_id, wmo_station, wmo_time) < 3)
       return(1);
   } else
@@ -441,7 +455,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
    * start of the awips line, if any
    */
   i = 0;
-  while((*wmo != '\n') && (i < data_size)){
+  while((i < data_size) && (*wmo != '\n')){
      ++wmo;
      ++i;
   }
@@ -485,7 +499,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
   }
 
   n = data_size - (i + 1);
-  if((wmo[8] == '\n') && (n >= 9)){
+  if((n >= 9) && (wmo[8] == '\n')){
     if(sscanf(wmo, "%6s", wmo_awips) != 1)
       wmo_awips[0] = '\0';
   }else{
-- 
2.43.0


From 1f427c3a483bece70d0d921a4ae55d1c5c53da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 05/95] fix: use the wmo bbb when the control header ends after
 the first line

The bbb is meant for the products without a second line, but it was dropped
when nothing at all followed the first line.
---
 src/sbn.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sbn.c b/src/sbn.c
index f8e6624..7109af1 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -462,8 +462,17 @@ int split_wmo_header(struct sbn_frame *sbnf,
 
   if(i >= data_size - 1){
     /*
-     * There is nothing.
+     * There is no second line. Copy the wmobbb (if there is one)
+     * to the notawips.
      */
+    b = 0;
+    while((b < WMO_NOTAWIPS_SIZE) && (wmobbb[b] != '\0')){
+      wmo_notawips[b] = wmobbb[b];
+      ++b;
+    }
+
+    wmo_notawips[b] = '\0';
+
     return(0);
   }
 
-- 
2.43.0


From 374aa0230d1d27544efc6491b690b1c9174a2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 06/95] fix: carry the nanoseconds of the queue timeouts into
 the seconds

When the milliseconds of the timeout and of the clock add up to a second or
more the timed wait fails with EINVAL, and reading an empty queue was an
error.
---
 src/libqdb/qdb.c | 5 +++++
 src/pctldb.c     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 87690b5..eccf327 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -552,4 +552,9 @@ static void queue_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+
+  if(timeout->tv_nsec >= 1000000000){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
diff --git a/src/pctldb.c b/src/pctldb.c
index c3da7e1..c248039 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -466,4 +466,9 @@ static void pctldb_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+
+  if(timeout->tv_nsec >= 1000000000){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
-- 
2.43.0


From eab98489aac76c6a2902652d144a8e1ca9ee2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 07/95] fix: report the error code when the wait on a queue
 fails

---
 src/libqdb/qdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index eccf327..52ca049 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -213,8 +213,8 @@ int nbspqt_rcv(nbspqtable_t *qtable, int type,
     if(status == ETIMEDOUT)
       status = 1;
     else{
-      status = -1;
       *dberror = status;
+      status = -1;
     }
   }else
     status = qdb_rcv(nbspq, data, data_size, dberror);
-- 
2.43.0


From cd8576d5f3f09b2baf05c1088d364fdb3eaee73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 08/95] fix: enforce the hard limit when the queue is already
 above it

A queue kept in a file can hold more elements than a lowered limit; it then
grew without any limit.
---
 src/pctldb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index c248039..148d724 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -424,7 +424,7 @@ static int pctldb_hard_limit(struct pctldb_st *pctldb, uint32_t mf_size){
   }
 
   if(pctldb->hardlimit > 0){
-    if(pctldb->n == pctldb->hardlimit)
+    if(pctldb->n >= pctldb->hardlimit)
       return(1);
   }
 
-- 
2.43.0


From c0a745bd144f1c8c6592aa51b17aebba13876aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 09/95] fix: keep the keys of the queued products unique when
 the clock is set back

The time is the key of the data of the queued products; a repeated time
overwrote the data of a product still in the queue.
---
 src/pctldb.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 148d724..cdd57a1 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -300,9 +300,12 @@ int pctldb_send_pce(struct pctldb_st *pctldb,
    * where the resolution is only ms. Perhaps the best is to
    * use a sequence number instead of the tsqueue.
    */
-  if(pce->tsqueue.tv_sec == pctldb->last_tsqueue.tv_sec){
-    if(pce->tsqueue.tv_nsec <= pctldb->last_tsqueue.tv_nsec)
-      pce->tsqueue.tv_nsec = pctldb->last_tsqueue.tv_nsec + 1;
+  if((pce->tsqueue.tv_sec < pctldb->last_tsqueue.tv_sec) ||
+     ((pce->tsqueue.tv_sec == pctldb->last_tsqueue.tv_sec) &&
+      (pce->tsqueue.tv_nsec <= pctldb->last_tsqueue.tv_nsec))){
+    /* The clock did not advance, or it was set back */
+    pce->tsqueue.tv_sec = pctldb->last_tsqueue.tv_sec;
+    pce->tsqueue.tv_nsec = pctldb->last_tsqueue.tv_nsec + 1;
   }
   memcpy(&pctldb->last_tsqueue, &pce->tsqueue, sizeof(struct timespec));
   
-- 
2.43.0


From dbf6e9bdeec99927a30f0cddc705b4e4ec3710fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 10/95] fix: do not dereference a null pointer when the product
 queue cannot be opened

---
 src/pctldb.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index cdd57a1..09f3473 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -93,7 +93,7 @@ int pctldb_open(struct pctldb_st **pctldb,
     status = pctlmfdb_stat(p, dberror);
 
   if(status != 0){
-    if(p->mfdbp != NULL)
+    if((p != NULL) && (p->mfdbp != NULL))
       pctlmfdb_close(p, &dberror_close);	/* error ignored here if any */
 
     if(dbp != NULL)
@@ -102,7 +102,6 @@ int pctldb_open(struct pctldb_st **pctldb,
     if(p != NULL)
       free(p);
 
-    *dberror = status;
     status = -1;
   }
 
-- 
2.43.0


From 7962c23e127cba42ac31179dc807ade38f00148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 11/95] fix: do not leave a product without its data in the
 queue

When the data could not be stored the sender was told that the product was
not queued, but the product was left in the queue.
---
 src/pctl.h     |  2 ++
 src/pctldb.c   | 10 +++++++---
 src/pctlmfdb.c | 17 +++++++++++++++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/pctl.h b/src/pctl.h
index e82dffd..adf54ab 100644
--- a/src/pctl.h
+++ b/src/pctl.h
@@ -169,6 +169,8 @@ int pctlmfdb_open(struct pctldb_st *pctldb,
 int pctlmfdb_close(struct pctldb_st *pctldb, int *dberror);
 int pctlmfdb_snd(struct pctldb_st *pctldb, struct timespec *ts,
 		 struct memfile_st *mf, int *dberror);
+void pctlmfdb_undo_snd(struct pctldb_st *pctldb, struct timespec *ts,
+		       struct memfile_st *mf);
 int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
 		 struct memfile_st *mf, int *dberror);
 
diff --git a/src/pctldb.c b/src/pctldb.c
index 09f3473..1fa1737 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -314,12 +314,16 @@ int pctldb_send_pce(struct pctldb_st *pctldb,
   if(pctldb_hard_limit(pctldb, mf_data_size) != 0)
      status = 2;
 
-  if(status == 0)
-    status = pctldb_snd(pctldb, pce, pctldb->pce_data_size, dberror);
-
+  /* First the data, so that what is in the queue always has its data */
   if(status == 0)
     status = pctlmfdb_snd(pctldb, &pce->tsqueue, pce->mf, dberror);
 
+  if(status == 0){
+    status = pctldb_snd(pctldb, pce, pctldb->pce_data_size, dberror);
+    if(status != 0)
+      pctlmfdb_undo_snd(pctldb, &pce->tsqueue, pce->mf);
+  }
+
   if(status == 0){
     if(pctldb_soft_limit(pctldb) != 0)
       status = 1;
diff --git a/src/pctlmfdb.c b/src/pctlmfdb.c
index 8744e74..bacef43 100644
--- a/src/pctlmfdb.c
+++ b/src/pctlmfdb.c
@@ -95,6 +95,23 @@ int pctlmfdb_snd(struct pctldb_st *pctldb, struct timespec *ts,
   return(status);
 }
 
+void pctlmfdb_undo_snd(struct pctldb_st *pctldb, struct timespec *ts,
+		       struct memfile_st *mf){
+  /*
+   * Takes out what the last pctlmfdb_snd() put in. Any error is ignored.
+   */
+  DBT key;
+  DB* mfdbp = pctldb->mfdbp;
+
+  memset(&key, 0 , sizeof(DBT));
+
+  key.data = ts;
+  key.size = sizeof(struct timespec);
+
+  if(mfdbp->del(mfdbp, NULL, &key, 0) == 0)
+    pctldb->mf_total_size -= get_memfile_data_size(mf);
+}
+
 int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
 		 struct memfile_st *mf, int *dberror){
 
-- 
2.43.0


From 8d633cd7ef3e2c2ba79607c967dd849d80c07d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 12/95] fix: keep the keys unique also when the queue is
 reopened

After a restart with the clock set back a new product could overwrite the
data of a product kept in the queue.
---
 src/pctldb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pctldb.c b/src/pctldb.c
index 1fa1737..4ac3460 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -251,6 +251,8 @@ static int pctlmfdb_stat(struct pctldb_st *pctldb, int *dberror){
     if(status == 0){
       memfile_size = data.size;
       pctldb->mf_total_size += memfile_size;
+      /* the keys come in order; the next one must follow the last one */
+      memcpy(&pctldb->last_tsqueue, key.data, sizeof(struct timespec));
     }
   }
 
-- 
2.43.0


From 771c776a88dcb5410e43b6ee90fccac07509a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 13/95] fix: keep only letters and digits of the awips
 identifier

It is part of the name of the product file: a '/' in it made a path to
some other directory.
---
 src/sbn.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sbn.c b/src/sbn.c
index 7109af1..b1f8cbc 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -511,6 +511,13 @@ int split_wmo_header(struct sbn_frame *sbnf,
   if((n >= 9) && (wmo[8] == '\n')){
     if(sscanf(wmo, "%6s", wmo_awips) != 1)
       wmo_awips[0] = '\0';
+
+    /* It becomes part of the name of the file (a '/' would be harmful) */
+    b = 0;
+    while(isalnum((unsigned char)wmo_awips[b]) != 0)
+      ++b;
+
+    wmo_awips[b] = '\0';
   }else{
     b = 0;
     while((b < WMO_NOTAWIPS_SIZE) && (b < n)){
-- 
2.43.0


From 32cb5a11fe56568e77aa118c7dbe46c9f13b969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:06 +0000
Subject: [PATCH 14/95] fix: strip the ccb also in the memory and cache spools

With the save format that drops the ccb the products were inserted in the
data base spools with the ccb, because the adjusted size was not used.
---
 src/nbsp.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 057c86e..f80fd71 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -863,15 +863,17 @@ static int pce_savembdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
   size_t size;
+  size_t skip = 0;
 
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
-      size -= CCB_SIZE;
+
+    skip = CCB_SIZE;
+    size -= skip;
   }
-  status = nbsp_mspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_mspoolbdb_insert(pce->fpath, (char*)mf->p + skip, size);
   
   return(status);
 }
@@ -880,15 +882,17 @@ static int pce_savecbdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
   size_t size;
+  size_t skip = 0;
 
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
-      size -= CCB_SIZE;
+
+    skip = CCB_SIZE;
+    size -= skip;
   }
-  status = nbsp_cspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_cspoolbdb_insert(pce->fpath, (char*)mf->p + skip, size);
   
   return(status);
 }
-- 
2.43.0


From 92846f59940a1d7c682a4fea5a291c060e043a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:06 +0000
Subject: [PATCH 15/95] fix: do not leave a partial file in the spool when it
 cannot be written

---
 src/nbsp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nbsp.c b/src/nbsp.c
index f80fd71..5b4504c 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -555,6 +555,12 @@ static int pce_savefs_memfile(struct pctl_element_st *pce,
 
   close(fd);
 
+  /*
+   * Do not leave a partial file in the spool.
+   */
+  if(status != 0)
+    (void)file_delete(pce->fpath);
+
   return(status);
 }
 
-- 
2.43.0


From 70d8b843a6cad43c781f8b9d5480eeb5d35659c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 16/95] fix: do not empty the memory spool for a product that
 cannot fit in it

The insertion returned ENOMEM, as when the data base is out of memory, and
the daemon then truncated all the data bases to make room.
---
 src/libspoolbdb/spoolbdbv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libspoolbdb/spoolbdbv.c b/src/libspoolbdb/spoolbdbv.c
index 07ef98d..3788fc0 100644
--- a/src/libspoolbdb/spoolbdbv.c
+++ b/src/libspoolbdb/spoolbdbv.c
@@ -440,10 +440,11 @@ int spoolbdbv_write2_unlocked(struct spoolbdbv_st *spoolbdbv,
 
   /*
    * If the data does not fit in one db there is nothing to do but
-   * report it and let the application drop it eventually.
+   * report it and let the application drop it eventually. The error is
+   * not ENOMEM, because making room does not help.
    */
   if(datasize > spoolbdbv->maxsize)
-    return(ENOMEM);
+    return(EFBIG);
 
   /*
    * If the data fits in the remaining space of the current db it is
-- 
2.43.0


From ddb2d12605f98adc162c9025f2f8f1f07e6e9ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:34 +0000
Subject: [PATCH 17/95] fix: wake up another reader when a free memory spool
 slot is not taken

The thread woken up when a slot was closed could find that its product is no
longer in the spool; the others waiting were then left waiting.
---
 src/libspoolbdb/spoolslots.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libspoolbdb/spoolslots.c b/src/libspoolbdb/spoolslots.c
index b1b98ec..cb8ab44 100644
--- a/src/libspoolbdb/spoolslots.c
+++ b/src/libspoolbdb/spoolslots.c
@@ -133,6 +133,13 @@ int spoolbuf_slots_open(struct spoolbuf_slots_st *spoolslots,
    */
   status = _spoolbuf_slots_open_unlocked(spoolslots, spooldb, fkey, sd, 0);
 
+  /*
+   * If the slot was not taken the signal that made it available must be
+   * passed to another thread that could be waiting for it.
+   */
+  if(status != 0)
+    (void)pthread_cond_signal(&spoolslots->cond);
+
   status1 = pthread_mutex_unlock(&spoolslots->mutex);
   if(status == 0)
     status = status1;
-- 
2.43.0


From de180626042b8ad1fe49d6684276c21606b91ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:01 +0000
Subject: [PATCH 18/95] fix: nbs1: check the size and the block number of the
 received packets

The sum of the size of the data and of the envelope could wrap, and then the
data was written past the end of the packet; packets whose data is smaller
than the header were taken with the header of a previous packet; and a packet
"block 0 of 0" was taken as the end of a product.
---
 src/nbs1r.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nbs1r.c b/src/nbs1r.c
index b832b64..a7cdaf5 100644
--- a/src/nbs1r.c
+++ b/src/nbs1r.c
@@ -62,6 +62,7 @@ int unpack_nbs1_header(struct nbs1_packet_st *nbs){
   nbs->np_channel_index = p[7];
   p += 8;
   strncpy(nbs->fbasename, (char*)p, FBASENAME_SIZE + 1);
+  nbs->fbasename[FBASENAME_SIZE] = '\0';
   p += FBASENAME_SIZE + 1;
   nbs->f_zip = p[0];
   nbs->num_blocks = unpack_uint16(p, 1);  
@@ -121,7 +122,8 @@ int recv_nbs_packet(int fd, struct nbs1_packet_st *nbs,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= NBS1_PACKET_MAXSIZE); */
-  if(data_size + NBS_ENVELOPE_SIZE > NBS1_PACKET_MAXSIZE)
+  if((data_size < NBS1_HEADER_SIZE) ||
+     (data_size > NBS1_PACKET_MAXSIZE - NBS_ENVELOPE_SIZE))
     return(1);
 
   n = readn(fd, &nbs->packet[NBS_ENVELOPE_SIZE], data_size, timeout_s, retry);
@@ -153,6 +155,9 @@ int recv_nbs_packet(int fd, struct nbs1_packet_st *nbs,
   if(data_size != NBS1_HEADER_SIZE + nbs->block_size)
     return(2);
 
+  if((nbs->block_number < 1) || (nbs->block_number > nbs->num_blocks))
+    return(2);
+
   /*
    * There should be no need to check this if nbsp is a tcp slave.
    * It could be needed if other method is used.
-- 
2.43.0


From 7defb5f006393eae32f124151a6db4e744277077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:01 +0000
Subject: [PATCH 19/95] fix: slavenbs: do not accept names with a '/'

The name in the packet is used for the path of the file in the spool, and
something like abcd_x.y/../../../name was saved out of it.
---
 src/slavenbs/framep.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index eef245e..b25937a 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -307,6 +307,13 @@ static int split_fbasename(struct pctl_element_st *pce){
   if(fbasename_size > FBASENAME_SIZE)
     return(1);
 
+  /*
+   * The name comes from the network and it must not lead out of the
+   * directory of the station.
+   */
+  if(strchr(pce->fbasename, '/') != NULL)
+    return(1);
+
   strncpy(fbasename, pce->fbasename, FBASENAME_SIZE + 1);
 
   p2 = strchr(fbasename, '.');
-- 
2.43.0


From dba1df8a1f98928d9ba95511383644958269b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:01 +0000
Subject: [PATCH 20/95] fix: unpack the product codes above 127 as they were
 packed

In the filters and clients the codes from 128 to 255 were negative.
---
 src/packfpu.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packfpu.c b/src/packfpu.c
index 2dcd37c..7f0842e 100644
--- a/src/packfpu.c
+++ b/src/packfpu.c
@@ -66,10 +66,10 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
 
   packetinfo->seq_number = unpack_uint32(p, 0);
-  packetinfo->psh_product_type = p[4];
-  packetinfo->psh_product_category = p[5];
-  packetinfo->psh_product_code = p[6];
-  packetinfo->np_channel_index = p[7];
+  packetinfo->psh_product_type = (unsigned char)p[4];
+  packetinfo->psh_product_category = (unsigned char)p[5];
+  packetinfo->psh_product_code = (unsigned char)p[6];
+  packetinfo->np_channel_index = (unsigned char)p[7];
 
   p += 8;
   packetinfo->fname = p;
-- 
2.43.0


From 3123aec47e218abb0d25a00c5a45e6eaed6824a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 21/95] fix: check the sizes and terminators of received
 announcement packets (packfp)

---
 src/packfp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/packfp.c b/src/packfp.c
index f5bc322..758270c 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -193,7 +193,8 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= packetinfo->packet_size); */
-  if(data_size + NBS_ENVELOPE_SIZE > packetinfo->packet_size)
+  if((data_size <= NBSFP_PINFO_SIZE) ||
+     (data_size > packetinfo->packet_size - NBS_ENVELOPE_SIZE))
     return(1);
 
   p += NBS_ENVELOPE_SIZE;
@@ -210,5 +211,9 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   if(status != 0)
     return(2);
 
+  /* fname and fpath must be '\0' terminated inside the packet */
+  if((p[NBSFP_PINFO_SIZE - 1] != '\0') || (p[data_size - 1] != '\0'))
+    return(2);
+
   return(status);
 }
-- 
2.43.0


From 062a36e5469e6ef9bc52e3330df0bc50bbf59ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:29 +0000
Subject: [PATCH 22/95] fix: set the fname of the packet info when packing a
 file path

---
 src/packfp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/packfp.c b/src/packfp.c
index 758270c..2bfa3c2 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -69,6 +69,7 @@ int nbsfp_pack_fpath(struct packet_info_st *packetinfo,
   packetp = (char*)packetinfo->packet;
   data = &(packetp[NBS_ENVELOPE_SIZE]);
   packetinfo->fpath = &(data[NBSFP_PINFO_SIZE]);
+  packetinfo->fname = &(data[8]);
 
   packetinfo->seq_number = pce->seq_number;
   packetinfo->psh_product_type = pce->psh_product_type;
-- 
2.43.0


From a669277808fe72eb748553f1549afb67c0d0d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:29 +0000
Subject: [PATCH 23/95] fix: slavein: check the size of the input records

---
 src/slavein/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/slavein/reader.c b/src/slavein/reader.c
index 38541ce..566d6e5 100644
--- a/src/slavein/reader.c
+++ b/src/slavein/reader.c
@@ -21,6 +21,12 @@
 #include "slavein.h"
 #include "framep.h"
 
+/*
+ * The longest file info string that is accepted: the numbers, the fname
+ * and the fpath, with some room to spare.
+ */
+#define FINFO_MAXSIZE	(const_fpath_maxsize() + FNAME_SIZE + 128)
+
 /*
  * private thread info (stored in the info field of the slave_element_st)
  */
@@ -216,6 +222,9 @@ static int recv_in_packet(struct slave_element_st *slave){
     return(status);
 
   finfo_size = unpack_uint32(finfo_size_buf, 0);
+  if((finfo_size < 0) || (finfo_size > FINFO_MAXSIZE))
+    return(2);
+
   if(slavein_info->buffer_size < finfo_size + 1){
     if(slavein_info->buffer != NULL)
       free(slavein_info->buffer);
-- 
2.43.0


From 5f4b0b5ebb7a117bbb4fad5fb14a2c722d9b0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:29 +0000
Subject: [PATCH 24/95] fix: slave: do not use again a descriptor that could
 not be closed

---
 src/slave_in.c  | 9 +++++----
 src/slave_net.c | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/slave_in.c b/src/slave_in.c
index 487381b..833815c 100644
--- a/src/slave_in.c
+++ b/src/slave_in.c
@@ -200,13 +200,14 @@ static int slavein_close(struct slave_element_st *slave){
   if(slave->slave_fd == -1)
     return(0);
 
+  /* The descriptor is gone, even if close() reports an error. */
   status = close(slave->slave_fd);
-  if(status == 0){
-    slave->slave_fd = -1;
-    (void)unlink(slave->infifo);
-  }else
+  slave->slave_fd = -1;
+  if(status != 0)
     log_err2("Error closing", slave->infifo);
 
+  (void)unlink(slave->infifo);
+
   return(status);
 }
 
diff --git a/src/slave_net.c b/src/slave_net.c
index 5d573ed..e150646 100644
--- a/src/slave_net.c
+++ b/src/slave_net.c
@@ -263,10 +263,10 @@ static int slavenet_close(struct slave_element_st *slave){
   if(slave->slave_fd == -1)
     return(0);
 
+  /* The descriptor is gone, even if close() reports an error. */
   status = close(slave->slave_fd);
-  if(status == 0){
-    slave->slave_fd = -1;
-  }else
+  slave->slave_fd = -1;
+  if(status != 0)
     log_err2("Error closing connection to", slave->mastername);
 
   return(status);
-- 
2.43.0


From 5edb5d23b69456f023ac2f2bc58180e050eb616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:27 +0000
Subject: [PATCH 25/95] fix: release the spool file or slot of a client thread
 that is canceled while sending

---
 src/serverc.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/serverc.c b/src/serverc.c
index 9071a87..e782482 100644
--- a/src/serverc.c
+++ b/src/serverc.c
@@ -279,6 +279,16 @@ static void periodic(struct conn_element_st *ce){
     log_err_write(g.serverthreadsfile);
 }
 
+static void cleanup_emwin_packet(void *arg){
+
+  free_emwin_packet_st((struct emwin_packet_st*)arg);
+}
+
+static void cleanup_nbs_packet(void *arg){
+
+  free_nbs_packet_st((struct nbs1_packet_st*)arg);
+}
+
 static int send_emwin_client(struct conn_element_st *ce,
 			     struct emwin_queue_info_st *eqinfo,
                              uint32_t eqinfo_size __attribute__((unused))){
@@ -299,6 +309,11 @@ static int send_emwin_client(struct conn_element_st *ce,
   if(status != 0)
     return(status);
 
+  /*
+   * The thread can be canceled while it is sending the file.
+   */
+  pthread_cleanup_push(cleanup_emwin_packet, &ep);
+
   for(i = 1; i <= ep.parts_total; ++i){
     status = build_emwin_packet(&ep);
     if(status == -1)
@@ -313,7 +328,7 @@ static int send_emwin_client(struct conn_element_st *ce,
       break;
   }
 
-  free_emwin_packet_st(&ep);
+  pthread_cleanup_pop(1);
 
   return(status);
 }
@@ -410,6 +425,11 @@ static int send_nbs1_client(struct conn_element_st *ce,
     return(status);
   }
 
+  /*
+   * The thread can be canceled while it is sending the file.
+   */
+  pthread_cleanup_push(cleanup_nbs_packet, &nbs);
+
   for(i = 1; i <= nbs.num_blocks; ++i){
     status = build_nbs_packet(&nbs);
     if(status == -1)
@@ -428,7 +448,7 @@ static int send_nbs1_client(struct conn_element_st *ce,
       break;
   }
 
-  free_nbs_packet_st(&nbs);
+  pthread_cleanup_pop(1);
 
   return(status);
 }
-- 
2.43.0


From 7b03c237e9c48d8daa1c00953caf9693af6ac722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:22 +0000
Subject: [PATCH 26/95] fix: close the old descriptor of a client whose
 connection is restored

---
 src/libconnth/poll.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libconnth/poll.c b/src/libconnth/poll.c
index ff28c14..17b3786 100644
--- a/src/libconnth/poll.c
+++ b/src/libconnth/poll.c
@@ -395,7 +395,16 @@ static int poll_restore_connection(struct conn_table_st *ct,
   if(conn_element_set_connection_status(&ct->ce[i], client_fd) != 0)
     return(1);
   
+  /*
+   * The old descriptor is still open if the client comes back before the
+   * server gets to close it. What poll() said about it does not apply to
+   * the new one.
+   */
+  if(ct->pfd[i].fd != -1)
+    close(ct->pfd[i].fd);
+
   ct->pfd[i].fd = client_fd;
+  ct->pfd[i].revents = 0;
 
   return(0);
 }
-- 
2.43.0


From 4ec2ff323b7a000f6cf5a645ba73183d5ec9a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:32 +0000
Subject: [PATCH 27/95] fix: disconnect clients taken for EMWIN ones when EMWIN
 is not being served

---
 src/serverm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serverm.c b/src/serverm.c
index 6d01453..431b696 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -628,6 +628,10 @@ static void process_unidentified_connections(void){
 	log_err2("Could not set protocol for", nameorip);
 	poll_kill_client_connection(g.ct, i);
 	numentries = conn_table_get_numentries(g.ct);
+      } else if(match_client_protocol(g.ct, i) != 0){
+	log_errx("Client %s protocol is not being served.", nameorip);
+	poll_kill_client_connection(g.ct, i);
+	numentries = conn_table_get_numentries(g.ct);
       }
     }
   }
-- 
2.43.0


From 7991e8d2a8d2d939562a931db43fadf3ab90edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 28/95] fix: free the address and name of a client that is
 refused or whose connection is restored

---
 src/libconnth/poll.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libconnth/poll.c b/src/libconnth/poll.c
index 17b3786..720bc29 100644
--- a/src/libconnth/poll.c
+++ b/src/libconnth/poll.c
@@ -228,6 +228,7 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
      * A client has reconnected and the (previously closed) connection
      * has been restored.
      */
+    free(client_ip);
     return(0);
   }else if(status == 1){
     /*
@@ -271,6 +272,10 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
    * The limit is disabled if it was initialized to a negative value.
    */
   if((ct->nclientsmax >= 0) && (ct->nclients == ct->nclientsmax)){
+    if(client_name != NULL)
+      free(client_name);
+
+    free(client_ip);
     close(client_fd);
     return(-3);
   }
@@ -282,8 +287,13 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
 				  clientopts->reconnect_wait_sleep_secs,
 				  clientopts->reconnect_wait_sleep_retry,
 				  clientopts->queue_read_timeout_ms);
-  if(status != 0)
+  if(status != 0){
+    if(client_name != NULL)
+      free(client_name);
+
+    free(client_ip);
     close(client_fd);
+  }
   
   return(status);
 }
-- 
2.43.0


From 618ca8000deb1c2ac3147ba7996d42300c944472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 29/95] fix: spoolslots: do not keep the mutex if the thread is
 canceled while waiting for a slot

---
 src/libspoolbdb/spoolslots.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/libspoolbdb/spoolslots.c b/src/libspoolbdb/spoolslots.c
index cb8ab44..28c2128 100644
--- a/src/libspoolbdb/spoolslots.c
+++ b/src/libspoolbdb/spoolslots.c
@@ -14,6 +14,7 @@ static int _spoolbuf_slots_open_unlocked(struct spoolbuf_slots_st *spoolslots,
 					 struct spoolbdbv_st *spooldb,
 					 char *fkey, int *sd,
 					 int f_read_unlocked);
+static void spoolbuf_slots_cancel(void *arg);
 
 struct spoolbuf_slots_st *spoolbuf_slots_create(int N){
 
@@ -109,6 +110,14 @@ void spoolbuf_slots_destroy(struct spoolbuf_slots_st *spoolslots){
   free(spoolslots);
 }
 
+static void spoolbuf_slots_cancel(void *arg){
+
+  struct spoolbuf_slots_st *spoolslots = (struct spoolbuf_slots_st*)arg;
+
+  (void)pthread_cond_signal(&spoolslots->cond);
+  (void)pthread_mutex_unlock(&spoolslots->mutex);
+}
+
 int spoolbuf_slots_open(struct spoolbuf_slots_st *spoolslots,
 			struct spoolbdbv_st *spooldb, char *fkey, int *sd){
   int status = 0;
@@ -118,9 +127,17 @@ int spoolbuf_slots_open(struct spoolbuf_slots_st *spoolslots,
   if(status != 0)
     return(status);
 
+  /*
+   * If the thread is canceled while it waits, it must not keep the mutex.
+   */
+  pthread_cleanup_push(spoolbuf_slots_cancel, spoolslots);
+
   while((spoolslots->numslots == spoolslots->maxslots) && (status == 0)){
     status = pthread_cond_wait(&spoolslots->cond, &spoolslots->mutex);
   }
+
+  pthread_cleanup_pop(0);
+
   if(status != 0){
     pthread_mutex_unlock(&spoolslots->mutex);
     return(status);
-- 
2.43.0


From 11802d51f2162e9eb7302f5c332be8df4cdb9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 30/95] fix: apply the client options of the entry of the
 client only

---
 src/serverm.c | 54 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/serverm.c b/src/serverm.c
index 431b696..3c2e547 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -10,6 +10,7 @@
 #include <unistd.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 #include <sys/stat.h>
 #include <signal.h>
 #include <syslog.h>
@@ -115,6 +116,7 @@ static int open_emwin_filter(void);
 static int match_client_protocol(struct conn_table_st *ct, int i);
 
 static void spawn_client_threads(void);
+static char *find_client_options(char *clientoptions, char *nameorip);
 static void lookup_client_options(struct conn_element_st *ce,
 				  char *clientoptions);
 
@@ -1276,6 +1278,30 @@ static void spawn_client_threads(void){
   }
 }
 
+static char *find_client_options(char *clientoptions, char *nameorip){
+  /*
+   * Returns a pointer to what follows the name in the entry of the client,
+   * or NULL if there is no entry for it. The name must be the whole name
+   * in the entry and not just a part of it.
+   */
+  char *p;
+  size_t n;
+
+  n = strlen(nameorip);
+  p = clientoptions;
+  while((p = strstr(p, nameorip)) != NULL){
+    if(((p == clientoptions) || isspace((unsigned char)p[-1])) &&
+       ((p[n] == '\0') || (p[n] == CLIENTOPTION_SEP_CHAR) ||
+	isspace((unsigned char)p[n]))){
+      p += n;
+      return(p + strspn(p, " \t"));
+    }
+    ++p;
+  }
+
+  return(NULL);
+}
+
 static void lookup_client_options(struct conn_element_st *ce,
 				 char *clientoptions){
   /*
@@ -1292,7 +1318,7 @@ static void lookup_client_options(struct conn_element_st *ce,
   assert(clientoptions != NULL);
 
   nameorip = conn_element_get_nameorip(ce);
-  p = strstr(clientoptions, nameorip);
+  p = find_client_options(clientoptions, nameorip);
   if(p == NULL)
     return;
 
@@ -1311,19 +1337,21 @@ static void lookup_client_options(struct conn_element_st *ce,
   a[3] = ce->reconnect_wait_sleep_retry;
   a[4] = ce->queue_read_timeout_ms;
 
-  while((p != NULL) && (count < Na)){
-    /*
-     * Find the separating character and point to the next parameter.
-     */
-    p = strchr(p, CLIENTOPTION_SEP_CHAR);
-    if(p != NULL){
-      ++p;
-      if(sscanf(p, "%d", &val) == 1){
-	if(val > 0)
-	  a[count] = val;
-      }
-      ++count;
+  /*
+   * The parameters end where the entry of the client ends.
+   */
+  while((*p == CLIENTOPTION_SEP_CHAR) && (count < Na)){
+    p += 1 + strspn(p + 1, " \t");
+    if((isspace((unsigned char)*p) == 0) && (sscanf(p, "%d", &val) == 1)){
+      if(val > 0)
+	a[count] = val;
     }
+    ++count;
+    while((*p != '\0') && (*p != CLIENTOPTION_SEP_CHAR) &&
+	  (isspace((unsigned char)*p) == 0))
+      ++p;
+
+    p += strspn(p, " \t");
   }
 
   ce->write_timeout_ms = a[0];
-- 
2.43.0


From c3e15af771a12ac30d37b41af55010dba7cd934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 31/95] fix: do not close twice the queue of a client whose
 thread cannot be created

---
 src/libconnth/ce.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libconnth/ce.c b/src/libconnth/ce.c
index cbd8553..73f3157 100644
--- a/src/libconnth/ce.c
+++ b/src/libconnth/ce.c
@@ -121,6 +121,7 @@ int conn_element_init4(struct conn_element_st *ce,
   status = thcreateproc(ce, &thread_id);
   if(status != 0){
     (void)connqueue_close(ce->cq, &dberror_ignore);
+    ce->cq = NULL;
     (void)pthread_mutex_destroy(&(ce->threadinfo)->mutex);
     ce->thkillproc = NULL;
     free(ce->threadinfo);
-- 
2.43.0


From 725e7380721feedb5373674b9dcc6f472f2aa416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 32/95] fix: stop the server also while its filters cannot be
 reloaded

---
 src/serverm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serverm.c b/src/serverm.c
index 3c2e547..c979be0 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -246,12 +246,13 @@ static int server_loop(void){
     if(get_reload_server_filters_flag()){
       close_server_filters();
       status = open_server_filters();
-      while(status != 0){
+      while((status != 0) && (get_quit_flag() == 0)){
 	log_errx("%s", "Error reloading server filter. Will try again.");
 	sleep(SERVER_RELOAD_FILTER_ERROR_SLEEP_SECS);
 	status = open_server_filters();
       }
-      log_info("%s", "Server filters reloaded.");
+      if(status == 0)
+	log_info("%s", "Server filters reloaded.");
     }
   }
     
-- 
2.43.0


From ab33fdecae9fc9cbe7be572140eb5bfeec4b43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:50 +0000
Subject: [PATCH 33/95] fix: stop the client threads before closing their
 descriptors

---
 src/libconnth/conn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libconnth/conn.c b/src/libconnth/conn.c
index c57108d..40a2cf8 100644
--- a/src/libconnth/conn.c
+++ b/src/libconnth/conn.c
@@ -79,10 +79,13 @@ void conn_table_destroy(struct conn_table_st *ct){
   assert((ct != NULL) && (ct->ce != NULL) && (ct->pfd != NULL));
 
   for(i = 0; i < ct->n; ++i){
+    /*
+     * Stop the (client) thread before closing the descriptor it uses.
+     */
+    (void)conn_element_release(&(ct->ce[i]), &dberror);
     if((ct->pfd[i].fd != -1) && conn_element_isclient(&ct->ce[i])){
       close(ct->pfd[i].fd);
     }
-    (void)conn_element_release(&(ct->ce[i]), &dberror);
   }
 
   pthread_mutex_destroy(&ct->mutex);
-- 
2.43.0


From 3dfcace475d5d6c687dcbf7d8f88aed95077478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 34/95] fix: the message for an invalid input fifo entry
 crashed the program

---
 src/slavet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slavet.c b/src/slavet.c
index d750e64..ba3d9b7 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -97,7 +97,7 @@ static int slave_element_configure(struct slave_element_st *slave,
 
     if(status != 0){
       log_errx("Invalid configuration [%d] string for SLAVETYPE_INFIFO: %s",
-	       s, status);
+	       status, s);
       status = 1;
       goto End;
     }
-- 
2.43.0


From c83c2d981ea4597929d46c5dec9e7e0e0ff5e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 35/95] fix: memory was freed twice when the table of masters
 could not be made

---
 src/slavet.c   | 14 +++++++++++---
 src/strsplit.c |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/slavet.c b/src/slavet.c
index ba3d9b7..1ddb17d 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -197,6 +197,7 @@ static int slave_element_configure2(struct slave_element_st *slave,
     if((slave->masterport = malloc(strlen(masterport) + 1)) == NULL){
       log_err("Cannot allocate memory for slave->masterport.");
       free(slave->mastername);
+      slave->mastername = NULL;
       return(-1);
     }
 
@@ -230,14 +231,20 @@ static int slave_element_configure2(struct slave_element_st *slave,
 
 static void slave_element_release(struct slave_element_st *slave){
   
-  if(slave->mastername != NULL)
+  if(slave->mastername != NULL){
     free(slave->mastername);
+    slave->mastername = NULL;
+  }
 
-  if(slave->masterport != NULL)
+  if(slave->masterport != NULL){
     free(slave->masterport);
+    slave->masterport = NULL;
+  }
 
-  if(slave->infifo != NULL)
+  if(slave->infifo != NULL){
     free(slave->infifo);
+    slave->infifo = NULL;
+  }
 
   slave_element_release_options(slave);
 }
@@ -252,6 +259,7 @@ static int slave_element_configure_options(struct slave_element_st *slave,
   slave->options.slavestatsfile = malloc(strlen(options->slavestatsfile) + 1);
   if(slave->options.slavestatsfile == NULL){
     free(slave->options.infifo_grp);
+    slave->options.infifo_grp = NULL;
     return(-1);
   }
 
diff --git a/src/strsplit.c b/src/strsplit.c
index ec1017b..8a3e427 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -59,6 +59,8 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
       strsplit_delete(strp);
 
     new_strp = strsplit_init(n, s);
+    if(new_strp == NULL)
+      return(NULL);
   }
 
   strsplit(new_strp, delim, flags);
-- 
2.43.0


From c276ea805f0a71d0cc4c940de9c0ba9cc0e8f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 36/95] fix: numbers that do not fit in an int were taken for
 others

---
 src/stoi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stoi.c b/src/stoi.c
index 8ea8124..b2833f3 100644
--- a/src/stoi.c
+++ b/src/stoi.c
@@ -17,14 +17,15 @@ int strto_int(char *s, int *val){
 
   char *end;
   int status = 0;
-  int v;
+  long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtol(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < INT_MIN) || (v > INT_MAX))
     status = 1;
   
   if(status == 0)
-- 
2.43.0


From f6fe4c72d5142b0c8ca018c1bd9597cd0bf2de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 37/95] fix: a broken link in the directory of filters
 prevented the other filters from being loaded

---
 src/filters.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/filters.c b/src/filters.c
index 2a4fb32..b91dbc2 100644
--- a/src/filters.c
+++ b/src/filters.c
@@ -756,8 +756,13 @@ static int process_dir_entry(char *dir, char *name){
     }else if(S_ISREG(sb.st_mode) && ((sb.st_mode & S_IXUSR) != 0)){
       status = add_filter_entry(path, FILTER_TYPE_PIPE);
     }
-  }else
+  }else{
+    /*
+     * e.g. a broken link or a file that was just removed; skip it.
+     */
     log_err2("Could not get info for", path);
+    status = 0;
+  }
 
   free(path);
 
-- 
2.43.0


From 46d9203679d6ef857856f9a4cf596537fabf694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:55 +0000
Subject: [PATCH 38/95] fix: a pid file that could not be written was left
 behind

---
 src/pid.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pid.c b/src/pid.c
index b1e42f9..3edd3c7 100644
--- a/src/pid.c
+++ b/src/pid.c
@@ -40,18 +40,25 @@ int create_pidfile(char *name, mode_t mode){
   }
 
   f = fopen(name, "w");
-  status = (f == NULL);
+  if(f == NULL)
+    status = 2;
 
   if(status == 0){
     pid = getpid();
     pidmax = pid;
-    if(fprintf(f, "%" PRIdMAX "\n", pidmax) < 0){
+    if(fprintf(f, "%" PRIdMAX "\n", pidmax) < 0)
+      status = 2;
+
+    if(fclose(f) != 0)
       status = 2;
-      unlink(name);
-    }
-    fclose(f);
   }
 
+  /*
+   * Do not leave it behind; otherwise the daemon would refuse to start.
+   */
+  if(status != 0)
+    unlink(name);
+
   return(status);
 }
 
-- 
2.43.0


From 653fb02924b7f632999db7677652b18e228b552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:55 +0000
Subject: [PATCH 39/95] fix: a second instance that refuses to start removed
 the state fifo of the first

---
 src/qstate.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/qstate.c b/src/qstate.c
index c5bad6c..535fc10 100644
--- a/src/qstate.c
+++ b/src/qstate.c
@@ -36,8 +36,11 @@ int init_qstate_fifo(void){
   unlink(g.qstatefifo);
   status  = mkfifo(g.qstatefifo, g.qstatefifo_mode);
 
-  if(status == 0)
-     status = create_qstatefifo_buffer();
+  if(status == 0){
+    status = create_qstatefifo_buffer();
+    if(status != 0)
+      unlink(g.qstatefifo);
+  }
 
   if(status != 0)
     log_err2("Could not create", g.qstatefifo);
@@ -47,10 +50,15 @@ int init_qstate_fifo(void){
 
 void kill_qstate_fifo(void){
 
-  if(g.qstatefifo_buffer != NULL){
-    free(g.qstatefifo_buffer);
-    g.qstatefifo_buffer = NULL;
-  }
+  /*
+   * If it was not created by this process it belongs to the one
+   * that is already running.
+   */
+  if(g.qstatefifo_buffer == NULL)
+    return;
+
+  free(g.qstatefifo_buffer);
+  g.qstatefifo_buffer = NULL;
 
   e_close_qstate_fifo();
 
-- 
2.43.0


From 734b48f4042bc1e65251a6cd345faf88886356c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:40 +0000
Subject: [PATCH 40/95] fix: reporting the db stats crashed the program when
 there was no memory

---
 src/dbstats.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbstats.c b/src/dbstats.c
index 34b9e48..4f1967f 100644
--- a/src/dbstats.c
+++ b/src/dbstats.c
@@ -23,8 +23,10 @@ void nbsp_dbstats(DB_ENV *dbenv, char *logfile){
   char *tmplogfile;
 
   tmplogfile = make_temp_logfile(logfile, TEMP_FILE_EXT);
-  if(tmplogfile == NULL)
+  if(tmplogfile == NULL){
     log_err("Error reporting db stats.");
+    return;
+  }
 
   fp = fopen(tmplogfile, "w");
   if(fp == NULL){
-- 
2.43.0


From d2b7f0a06c6e1688a98e8363f655018d18bf1145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:56 +0000
Subject: [PATCH 41/95] fix: the program crashed if there was no memory for the
 queue table

---
 src/nbspq.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nbspq.c b/src/nbspq.c
index 62fb235..5748ddf 100644
--- a/src/nbspq.c
+++ b/src/nbspq.c
@@ -68,10 +68,11 @@ int init_nbspq(void){
   if(qstate == NULL){
     status = -1;
     qerrno = errno;
-  }
-  for(i = 0; i < g.queue_numchannels; ++i){
-    qstate[i].current = 0;
-    qstate[i].last = 0;
+  }else{
+    for(i = 0; i < g.queue_numchannels; ++i){
+      qstate[i].current = 0;
+      qstate[i].last = 0;
+    }
   }
 
   /*
-- 
2.43.0


From 8554ef710948a2eb538d433d21cbe1902161a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:46 +0000
Subject: [PATCH 42/95] fix: an abort signal left the program hanging

---
 src/signal.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index c9cb66e..fa86874 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -6,10 +6,8 @@
  * $Id$
  */
 #include "config.h"
-#include <stdlib.h>
 #include <signal.h>
 #include <pthread.h>
-#include "globals.h"	/* g.f_debug */
 #include "err.h"
 #include "signal.h"
 
@@ -179,13 +177,6 @@ static void signal_handler(int sig){
     break;
   case SIGABRT:
     log_info("Received abort signal.");
-    if(g.f_debug){
-      /*
-       * Don't exit so that it dumps core.
-       */
-      ;
-    }else
-      exit(1);
     break;
   default:
     log_info("Received signal %d.", sig);
-- 
2.43.0


From d3ea734ced39c0bb6b8b78817683e1f862ca8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:48 +0000
Subject: [PATCH 43/95] fix: refuse a configuration with an empty multicastport

---
 src/conf.c.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c.in b/src/conf.c.in
index e0a909b..2d4690a 100644
--- a/src/conf.c.in
+++ b/src/conf.c.in
@@ -997,7 +997,7 @@ int validate_configuration(void){
   /* char* user, group, home can be NULL or empty */
   /* mode_t umask	type */
   VALIDATE_STR(g.multicastip, "multicastip");
-  VALIDATE_STR(g.multicastip, "multicastport");
+  VALIDATE_STR(g.multicastport, "multicastport");
   /* char* ifname, ifip  can be NULL or empty */
   VALIDATE_PARAM_L(g.udprcvsize, -1, "udprcvsize");
   /* char* startscript, stopscript  can be NULL or empty. */
-- 
2.43.0


From 1ad8ed9c22367ff24196dd4d217347aad18fb3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:48 +0000
Subject: [PATCH 44/95] fix: refuse the negative values of the unsigned
 configuration parameters

---
 src/conf.c.in | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/conf.c.in b/src/conf.c.in
index 2d4690a..39f2493 100644
--- a/src/conf.c.in
+++ b/src/conf.c.in
@@ -981,8 +981,12 @@ void print_confoptions(void){
 #define VALIDATE_PARAMETER(v, a, b, s) \
   if((v < a) || (v > b)){varname = s; goto end;}
 
+/*
+ * The unsigned and the time_t parameters are set as an int by the Tcl link,
+ * so that a negative value in them must be recognized as such.
+ */
 #define VALIDATE_PARAM_L(v, a, s) \
-  if(v < a){varname = s; goto end;}
+  if((int)(v) < (a)){varname = s; goto end;}
 
 #define VALIDATE_PARAM_H(v, a, s) \
   if(v > a){varname = s; goto end;}
@@ -1005,7 +1009,7 @@ int validate_configuration(void){
   VALIDATE_PARAMETER(g.spooltype,
 	SPOOLTYPE_MIN_VAL, SPOOLTYPE_MAX_VAL, "spooltype");
   VALIDATE_STR(g.spooldir, "spooldir");
-  /* unsigned int spooldb_slots  type */
+  VALIDATE_PARAM_L(g.spooldb_slots, 0, "spooldb_slots");
   VALIDATE_STR(g.spooldb_fname, "spooldb_fname");
   VALIDATE_STR(g.cspoolbdb_dir, "cspoolbdb_dir");
   VALIDATE_STR(g.cspoolbdb_name, "cspoolbdb_name");
@@ -1116,7 +1120,7 @@ int validate_configuration(void){
   VALIDATE_PARAM_L(g.client_queue_read_timeout_ms, 0,
 	"client_queue_read_timeout_ms");
   /* char* rtxdb_dbfname can be NULL or empty */
-  /* unsigned int rtxdb_slots type and can be zero */
+  VALIDATE_PARAM_L(g.rtxdb_slots, 0, "rtxdb_slots");
   VALIDATE_PARAM_L(g.rtxdb_truncate_minutes, 1, "rtxdb_truncate_minutes");
   VALIDATE_PARAM_L(g.rtxdb_default_process, 0, "rtxdb_default_process");
   VALIDATE_PARAM_L(g.loadave_max_hard, 0, "loadave_max_hard");
-- 
2.43.0


From 460db429a772e9c8a8f8dc627d21f879db88e849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 45/95] fix: the retransmissions ignored by configuration were
 counted as processed

---
 src/nbsp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 5b4504c..499f37c 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -386,7 +386,11 @@ static int process_pctl_element(struct pctl_element_st *pce){
       orig_prod_status = -1;	/* same as not in db */
 
     update_stats_products_retransmitted_c();
-    update_stats_products_retransmitted_pi(orig_prod_status);
+    if((orig_prod_status == -2) && (g.rtxdb_default_process == 0))
+      update_stats_products_retransmitted_pi(0);  /* ignored by configuration */
+    else
+      update_stats_products_retransmitted_pi(orig_prod_status);
+
     log_rtx(pce);
 
     if(orig_prod_status == 0){
-- 
2.43.0


From 58af29c88f605792b2101cab58ba006343bb61ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:47 +0000
Subject: [PATCH 46/95] fix: the counters of the statistics were updated and
 cleared without a lock

---
 src/stats.c | 88 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 18 deletions(-)

diff --git a/src/stats.c b/src/stats.c
index 400b7e3..fcefc3a 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -6,12 +6,20 @@
  * $Id$
  */
 #include <stdio.h>
+#include <pthread.h>
 #include "err.h"
 #include "stats.h"
 #include "globals.h"
 #include "defaults.h"
 
+/*
+ * The counters are updated by all the readers and by the processor,
+ * and they are reported and cleared by the main thread.
+ */
+static pthread_mutex_t gstats_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 static void init_counters(void);
+static void report_stats(char *fname, struct nbsp_stats_st *stats);
 static void update_stats_goodframes(void);
 static void update_stats_badframes(void);
 static void update_stats_badproducts(void);
@@ -46,6 +54,7 @@ static void init_counters(void){
 
 void nbspstats_update(void){
 
+  struct nbsp_stats_st stats;
   time_t now;
   
   now = time(NULL);
@@ -58,14 +67,29 @@ void nbspstats_update(void){
    *    return;
    */
 
+  pthread_mutex_lock(&gstats_mutex);
   update_stats_rtx_index();
   g.nbspstats.time = now;
-  nbspstats_report(g.statusfile);
+  stats = g.nbspstats;
   init_counters();  /* does not clear rtx_index */
+  pthread_mutex_unlock(&gstats_mutex);
+
+  report_stats(g.statusfile, &stats);
 }
 
 void nbspstats_report(char *fname){
 
+  struct nbsp_stats_st stats;
+
+  pthread_mutex_lock(&gstats_mutex);
+  stats = g.nbspstats;
+  pthread_mutex_unlock(&gstats_mutex);
+
+  report_stats(fname, &stats);
+}
+
+static void report_stats(char *fname, struct nbsp_stats_st *stats){
+
   FILE *f;
 
   f = fopen(fname, "a");
@@ -75,31 +99,33 @@ void nbspstats_report(char *fname){
   }
 
   fprintf(f, "%ju %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u\n",
-	  (uintmax_t)g.nbspstats.time,
-	  g.nbspstats.frames_received,
-	  g.nbspstats.frames_processed,
-	  g.nbspstats.frames_jumps,
-	  g.nbspstats.frames_bad,
-	  g.nbspstats.frames_data_size,
-	  g.nbspstats.products_transmitted,
-	  g.nbspstats.products_completed,
-	  g.nbspstats.products_missed,
-	  g.nbspstats.products_retransmitted,
-	  g.nbspstats.products_retransmitted_c,
-	  g.nbspstats.products_retransmitted_p,
-	  g.nbspstats.products_retransmitted_i,
-	  g.nbspstats.products_retransmitted_r,
-	  g.nbspstats.products_rejected,
-	  g.nbspstats.products_aborted,
-	  g.nbspstats.products_bad);
+	  (uintmax_t)stats->time,
+	  stats->frames_received,
+	  stats->frames_processed,
+	  stats->frames_jumps,
+	  stats->frames_bad,
+	  stats->frames_data_size,
+	  stats->products_transmitted,
+	  stats->products_completed,
+	  stats->products_missed,
+	  stats->products_retransmitted,
+	  stats->products_retransmitted_c,
+	  stats->products_retransmitted_p,
+	  stats->products_retransmitted_i,
+	  stats->products_retransmitted_r,
+	  stats->products_rejected,
+	  stats->products_aborted,
+	  stats->products_bad);
 
   fclose(f);
 }
 
 void update_stats_frames_received(unsigned int frame_data_size){
 
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.frames_received;
   g.nbspstats.frames_data_size += frame_data_size;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_frames(int status){
@@ -115,7 +141,9 @@ void update_stats_frames(int status){
 
 void update_stats_frames_jumps(void){
 
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.frames_jumps;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_products(int status){
@@ -126,7 +154,9 @@ void update_stats_products(int status){
 
 void update_stats_products_transmitted(void){
 
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.products_transmitted;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_products_retransmitted(void){
@@ -135,14 +165,18 @@ void update_stats_products_retransmitted(void){
    * flag set. This number is increased indepdendently of whether the
    * entire product is received or not.
    */
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.products_retransmitted;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_products_retransmitted_c(void){
   /*
    * This number is increased only if the entire product is received.
    */
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.products_retransmitted_c;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_products_retransmitted_pi(int orig_status){
@@ -153,10 +187,12 @@ void update_stats_products_retransmitted_pi(int orig_status){
    * received.
    */
 
+  pthread_mutex_lock(&gstats_mutex);
   if(orig_status == 0)
     ++g.nbspstats.products_retransmitted_i;
   else
     ++g.nbspstats.products_retransmitted_p;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_products_recovered(void){
@@ -164,44 +200,60 @@ void update_stats_products_recovered(void){
    * This is the number of retransmitted products that were able
    * to recover a missing one due missing frames.
    */
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.products_retransmitted_r;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_products_missed(void){
 
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.products_missed;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_products_completed(void){
   /*
    * All frames received.
    */
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.products_completed;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_products_aborted(void){
 
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.products_aborted;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 void update_stats_products_rejected(void){
 
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.products_rejected;
+  pthread_mutex_unlock(&gstats_mutex);
 }
     
 static void update_stats_goodframes(void){
 
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.frames_processed;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 static void update_stats_badframes(void){
 
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.frames_bad;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 static void update_stats_badproducts(void){
 
+  pthread_mutex_lock(&gstats_mutex);
   ++g.nbspstats.products_bad;
+  pthread_mutex_unlock(&gstats_mutex);
 }
 
 static void update_stats_rtx_index(void){
-- 
2.43.0


From 25c019815bc81dd2c460bd0f64ba7141926ded0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:07 +0000
Subject: [PATCH 47/95] fix: the patterns of the nbs1 and nbs2 clients were not
 used

---
 src/serverm.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/serverm.c b/src/serverm.c
index c979be0..eb58022 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -785,6 +785,7 @@ static int server_send_client_queues(struct packet_info_st *packetinfo){
   time_t now, last;
   int status = 0;
   int status1 = 0;	/* error from emwin filter */
+  int nbs1_rejected, nbs2_rejected;
   int dberror = 0;
   int i;
 
@@ -841,6 +842,13 @@ static int server_send_client_queues(struct packet_info_st *packetinfo){
     }
   }
 
+  /*
+   * The products for the nbs1 and nbs2 clients. (The one for the emwin
+   * clients is used above in the emwin filter.)
+   */
+  nbs1_rejected = (nbs1_regex_match(packetinfo->fname) == 1);
+  nbs2_rejected = (nbs2_regex_match(packetinfo->fname) == 1);
+
   /*
    * We loop through the whole table.
    */
@@ -862,6 +870,13 @@ static int server_send_client_queues(struct packet_info_st *packetinfo){
       continue;
     }
 
+    if(((protocol == PROTOCOL_NBS1) && nbs1_rejected) ||
+       ((protocol == PROTOCOL_NBS2) && nbs2_rejected)){
+      log_verbose(1, "Regex is rejecting %s for %s", packetinfo->fname,
+		  nameorip);
+      continue;
+    }
+
     if((g.netfilter_enable == 1) &&
        (allow_filter_get_flag(&g.ct->ce[i]) == 0)){
       log_verbose(1, "%s is not allowed for %s", packetinfo->fname, nameorip);
-- 
2.43.0


From 35ab408e25b78647fc791a0d53cf4aa4a3b5b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:25 +0000
Subject: [PATCH 48/95] fix: a list of patterns that is not valid left its
 memory, or freed it twice

---
 src/ure.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ure.c b/src/ure.c
index 05a6c91..a4cf8bb 100644
--- a/src/ure.c
+++ b/src/ure.c
@@ -93,6 +93,7 @@ int uwildregex_init(struct uwildregex_st *r, char *uwildregex){
   r->negate_flag = malloc(sizeof(int) * uwildsplit->argc);
   if(r->negate_flag == NULL){
     free(r->re);
+    r->re = NULL;
     strsplit_delete(uwildsplit);
     return(-1);
   }
@@ -115,8 +116,13 @@ int uwildregex_init(struct uwildregex_st *r, char *uwildregex){
 
   if(status != 0){
     uwildregex_error(r, &r->re[i]);
+    /* The failed one (i) needs no regfree */
+    while(--i >= 0)
+      regfree(&r->re[i]);
+
     free(r->re);
     r->re = NULL;
+    strsplit_delete(uwildsplit);
     return(status);
   }
 
-- 
2.43.0


From ff98ab4700c0f12f4bea708f6a2b1acbea2f5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:25 +0000
Subject: [PATCH 49/95] fix: the pattern of the server queue was not freed

---
 src/nbspre.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nbspre.c b/src/nbspre.c
index cd2f15a..aab2b6b 100644
--- a/src/nbspre.c
+++ b/src/nbspre.c
@@ -74,6 +74,9 @@ void free_nbsp_regex(void){
   if(g.filterq_regex != NULL)
     uwildregex_free(g.filterq_regex);
 
+  if(g.serverq_regex != NULL)
+    uwildregex_free(g.serverq_regex);
+
   if(g.nbs1_regex != NULL)
     uwildregex_free(g.nbs1_regex);
 
-- 
2.43.0


From c665b88e3b33a0df0af425d757906694c9827766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:02 +0000
Subject: [PATCH 50/95] fix: nbspinsert: a file that was there already keeps
 nothing of its old contents

---
 tools/nbspinsert/nbspinsert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/nbspinsert/nbspinsert.c b/tools/nbspinsert/nbspinsert.c
index 048a795..a758484 100644
--- a/tools/nbspinsert/nbspinsert.c
+++ b/tools/nbspinsert/nbspinsert.c
@@ -500,7 +500,7 @@ static int save_fpath(void) {
    char input_buffer[FPATH_INPUT_BUFFER_SIZE];
    size_t input_buffer_size = FPATH_INPUT_BUFFER_SIZE;
      
-   fd = open(g.fpath, O_WRONLY | O_CREAT, FPATH_MODE);
+   fd = open(g.fpath, O_WRONLY | O_CREAT | O_TRUNC, FPATH_MODE);
    if(fd == -1){
      log_err(0, "%s %s", "Error opening", g.fpath);
 
-- 
2.43.0


From 5457df2d8d5a8ff233785526eee37882c375b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:51 +0000
Subject: [PATCH 51/95] fix: numbers too large for the variable were accepted
 as other numbers

---
 filters/filterlib/c/util.c | 10 ++++++----
 src/stoi.c                 |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/filters/filterlib/c/util.c b/filters/filterlib/c/util.c
index 06cfee6..c3ede59 100644
--- a/filters/filterlib/c/util.c
+++ b/filters/filterlib/c/util.c
@@ -17,14 +17,15 @@ int strto_int(char *s, int *val){
 
   char *end;
   int status = 0;
-  int v;
+  long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtol(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < INT_MIN) || (v > INT_MAX))
     status = 1;
   
   if(status == 0)
@@ -39,14 +40,15 @@ int strto_uint(char *s, unsigned int *val){
 
   char *end;
   int status = 0;
-  unsigned int v;
+  unsigned long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtoul(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v > UINT_MAX))
     status = 1;
   
   if(status == 0)
diff --git a/src/stoi.c b/src/stoi.c
index b2833f3..06616e3 100644
--- a/src/stoi.c
+++ b/src/stoi.c
@@ -40,14 +40,15 @@ int strto_uint(char *s, unsigned int *val){
 
   char *end;
   int status = 0;
-  unsigned int v;
+  unsigned long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtoul(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v > UINT_MAX))
     status = 1;
   
   if(status == 0)
-- 
2.43.0


From 8ac98056cf1f0281538cb772a25618bb40c764a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:45 +0000
Subject: [PATCH 52/95] fix: nbspmcast: a file that needs more frames than can
 be numbered was sent damaged

---
 tools/nbspmcast/sbnpack/file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/nbspmcast/sbnpack/file.c b/tools/nbspmcast/sbnpack/file.c
index cab5f29..c96cdd5 100644
--- a/tools/nbspmcast/sbnpack/file.c
+++ b/tools/nbspmcast/sbnpack/file.c
@@ -25,8 +25,9 @@ static int get_file_stat_size(char *fname, int *fsize){
   if(status != 0)
     return(-1);
   
+  /* The size that counts includes the ccb; see get_file_size() below. */
   ofsize = sb.st_size;
-  if(ofsize > INT_MAX)
+  if(ofsize > INT_MAX - CCB_SIZE)
     return(1);
 
   *fsize = (int)ofsize;
@@ -60,6 +61,10 @@ int get_file_frame_params(int blocksize, int fsize,
   last_datablock_size = fsize - nframes*blocksize;
   ++nframes;
 
+  /* The headers have 16 bits for the number of frames and the block number */
+  if(nframes > UINT16_MAX)
+    return(1);
+
   *nframes_ptr = nframes;
   *last_datablock_size_ptr = last_datablock_size;
 
-- 
2.43.0


From e806cf9116d3e63f99a3b2a89c619debe75c6993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:40 +0000
Subject: [PATCH 53/95] fix: nbspz never wrote anything

---
 filters/filterlib/c/nbspz.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/filters/filterlib/c/nbspz.c b/filters/filterlib/c/nbspz.c
index 3bbb598..570b53b 100644
--- a/filters/filterlib/c/nbspz.c
+++ b/filters/filterlib/c/nbspz.c
@@ -123,7 +123,7 @@ static int filesize(char *fname){
 
 static int write_cpage(FILE *fp, char *page, int page_size){
 
-  int status = 0;
+  int n;
   int zip_status;
   int cpage_size;
   char *cpage = NULL;
@@ -132,16 +132,16 @@ static int write_cpage(FILE *fp, char *page, int page_size){
   if(zip_status != 0)
      log_errx(1, "Error %d from compress function.", zip_status);
 
-  status = write_page(fp, cpage, cpage_size);
+  n = write_page(fp, cpage, cpage_size);
   
   free(cpage);
 
-  return(status);
+  return(n);
 }
 
 static int process_file(void){
 
-  int status = 0;
+  int n;
 
   g.buffer_size = filesize(g.opt_input_fname);
   g.buffer = malloc(g.buffer_size);
@@ -160,16 +160,19 @@ static int process_file(void){
   if(g.output_fp == NULL)
     log_err_open(g.opt_output_fname);
   
-  status = read_page(g.input_fp, g.buffer, g.buffer_size);
+  n = read_page(g.input_fp, g.buffer, g.buffer_size);
+  if(n != g.buffer_size)
+    log_errx(1, "Could not read %s", g.opt_input_fname);
 
-  if(status == 0){
-    if(g.opt_compress_level > 0)
-	status = write_cpage(g.output_fp, g.buffer, g.buffer_size);
-    else
-      status = write_page(g.output_fp, g.buffer, g.buffer_size);
-  }
+  if(g.opt_compress_level > 0)
+    n = write_cpage(g.output_fp, g.buffer, g.buffer_size);
+  else
+    n = write_page(g.output_fp, g.buffer, g.buffer_size);
+
+  if((n == -1) || (fflush(g.output_fp) != 0))
+    log_err_write(g.opt_output_fname);
 
-  return(status);
+  return(0);
 }
 
 static void check(void){
-- 
2.43.0


From 06db161cb6470d413d235531c7cdce16d1133348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:51 +0000
Subject: [PATCH 54/95] fix: nbspunz: compressed data in the middle of a frame
 was taken for an uncompressed one

---
 filters/filterlib/c/nbspunz.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/nbspunz.c b/filters/filterlib/c/nbspunz.c
index d04c950..848ad9c 100644
--- a/filters/filterlib/c/nbspunz.c
+++ b/filters/filterlib/c/nbspunz.c
@@ -231,7 +231,8 @@ static int process_frame(struct memfile_st *mf, z_stream *zs, int *zstatus){
   if((gframenumber == 0) && (opt_skipcount > 0))
     skip = opt_skipcount;
 
-  if((zs->next_in[0] != ZBYTE0) || (zs->next_in[1] != ZBYTE1)){
+  if((zs->total_in == 0) && ((zs->avail_in < 2) ||
+     (zs->next_in[0] != ZBYTE0) || (zs->next_in[1] != ZBYTE1))){
     if((n = write_memfile(mf, zs->next_in, zs->avail_in)) == -1)
       status = -1;
     else
@@ -246,7 +247,7 @@ static int process_frame(struct memfile_st *mf, z_stream *zs, int *zstatus){
 
   if((*zstatus == Z_OK) || (*zstatus == Z_STREAM_END)){
     write_out = outlen - zs->avail_out;
-    if(skip >= write_out)
+    if((skip > 0) && (skip >= write_out))
       log_errx(1, "Skip count too large.");
     else
       write_out -= skip;
-- 
2.43.0


From 4b6335373d797144107baacd7fd05532c133d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:51 +0000
Subject: [PATCH 55/95] fix: nbspunz: output cut short by a partial write was
 taken as written

---
 filters/filterlib/c/mfile.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/filters/filterlib/c/mfile.c b/filters/filterlib/c/mfile.c
index 8a2f3a2..84c8dc7 100644
--- a/filters/filterlib/c/mfile.c
+++ b/filters/filterlib/c/mfile.c
@@ -108,10 +108,17 @@ int write_memfile(struct memfile_st *mf, void *data, int data_size){
 int save_memfile(int fd, struct memfile_st *mf){
 
   int n;
+  int size = 0;
 
-  n = write(fd, mf->p, mf->size);
-  
-  return(n);
+  while(size < mf->size){
+    n = write(fd, mf->p + size, mf->size - size);
+    if(n == -1)
+      return(-1);
+
+    size += n;
+  }
+
+  return(size);
 }
 
 int read_memfile(struct memfile_st *mf, void **pdata, int data_size){
-- 
2.43.0


From b698bbdde06575d9bc7ec0bf65f8742b3231a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 56/95] fix: strsplit_recreate: the fields of the first string
 were returned for the next ones

---
 src/strsplit.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 8a3e427..0681f41 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -52,16 +52,12 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
-    new_strp = strp;
-  else{
-    if(strp != NULL)
-      strsplit_delete(strp);
-
-    new_strp = strsplit_init(n, s);
-    if(new_strp == NULL)
-      return(NULL);
-  }
+  if(strp != NULL)
+    strsplit_delete(strp);
+
+  new_strp = strsplit_init(n, s);
+  if(new_strp == NULL)
+    return(NULL);
 
   strsplit(new_strp, delim, flags);
 
-- 
2.43.0


From f46205adecc81221a313df5a26f23eb983adfad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 57/95] fix: nbspcat: an empty input or an empty line crashed
 the program or ended it

---
 filters/filterlib/c/nbspcat.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index a494022..d4d8191 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -112,6 +112,9 @@ static void process_input(void){
       break;
     }
     line[line_size - 1] = '\0';
+    if(line[strspn(line, " ")] == '\0')
+      continue;
+
     g.strp = strsplit_recreate(line, " ", STRSPLIT_FLAG_IGNEMPTY, g.strp);
     if(g.strp == NULL)
       log_err(1, "Error in strplit_create()");
@@ -201,7 +204,9 @@ static void process_cmd(int argc, char **argv){
 static void cleanup(void){
 
   close_files();
-  strsplit_delete(g.strp);
+
+  if(g.strp != NULL)
+    strsplit_delete(g.strp);
 }
 
 static void close_files(void){
-- 
2.43.0


From 7cde13508c92cf3239cf830c0bc2be1c99ab3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 58/95] fix: nbspcat: an invalid option was read again in the
 next command

---
 filters/filterlib/c/nbspcat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index d4d8191..9c0f430 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -141,9 +141,11 @@ static void process_cmd(int argc, char **argv){
   g.opt_header = 0;
   g.opt_ccbsize = CCB_SIZE;
 
-  optind = 1;
 #ifdef HAVE_OPTRESET
+  optind = 1;
   optreset = 1;
+#else
+  optind = 0;
 #endif
 
   while((status == 0) && ((c = getopt(argc, argv, optstr)) != -1)){
-- 
2.43.0


From 9acd86c0b310f18f8de69e4e19bbed7f85e0db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:58 +0000
Subject: [PATCH 59/95] fix: nbsp2ldm: the fields of the first command were
 used for the next ones

---
 filters/ldmfilter/nbsp2ldm/src/strsplit.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/filters/ldmfilter/nbsp2ldm/src/strsplit.c b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
index 6d56441..671d586 100644
--- a/filters/ldmfilter/nbsp2ldm/src/strsplit.c
+++ b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
@@ -52,14 +52,10 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
-    new_strp = strp;
-  else{
-    if(strp != NULL)
-      strsplit_delete(strp);
+  if(strp != NULL)
+    strsplit_delete(strp);
 
-    new_strp = strsplit_init(n, s);
-  }
+  new_strp = strsplit_init(n, s);
 
   strsplit(new_strp, delim, flags);
 
-- 
2.43.0


From bfdd867879323bc083de04ec64ae6bf7be35f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:13 +0000
Subject: [PATCH 60/95] fix: nbspcat: a file that could not be opened ended the
 program, or closed the standard output

---
 filters/filterlib/c/io.c      | 8 ++------
 filters/filterlib/c/nbspcat.c | 6 +++---
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/filters/filterlib/c/io.c b/filters/filterlib/c/io.c
index e496c3a..1d457b6 100644
--- a/filters/filterlib/c/io.c
+++ b/filters/filterlib/c/io.c
@@ -22,10 +22,8 @@ FILE *fopen_input(char *path){
     return(stdin);
 
   f = fopen(path, "r");
-  if(f == NULL){
-    log_err_open(path);
+  if(f == NULL)
     return(NULL);
-  }
 
   s_input_filename = path;
 
@@ -60,10 +58,8 @@ FILE *fopen_output(char *path, char *mode){
     }
   }
 
-  if(fd == -1){
-    log_err_open(path);
+  if(fd == -1)
     return(NULL);
-  }
 
   f = fdopen(fd, mode);
   if(f == NULL){
diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index 9c0f430..855940b 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -218,10 +218,10 @@ static void close_files(void){
     g.input_fp = NULL;
   }
 
-  if((g.output_fp != NULL) && (g.opt_output_fname != NULL)){
+  if((g.output_fp != NULL) && (g.opt_output_fname != NULL))
     fclose(g.output_fp);
-    g.output_fp = NULL;
-  }
+
+  g.output_fp = NULL;
 }
 
 static void process_file(void){
-- 
2.43.0


From a38703975179654d0771e753ff4294cb4383e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:13 +0000
Subject: [PATCH 61/95] fix: nbspfile, nbsppipe, nbspcat: output that could not
 be written was not reported

---
 filters/filterlib/c/nbspcat.c  | 3 +++
 filters/filterlib/c/nbspfile.c | 3 +++
 filters/filterlib/c/nbsppipe.c | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index 855940b..dc983a1 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -279,4 +279,7 @@ static void process_file(void){
 
   if(g.opt_header == 1)
     fprintf(g.output_fp, GMPK_TRAILER_STR);
+
+  if(fflush(g.output_fp) != 0)
+    log_err_write(g.opt_output_fname);
 }
diff --git a/filters/filterlib/c/nbspfile.c b/filters/filterlib/c/nbspfile.c
index 3ddd86d..ce9630f 100644
--- a/filters/filterlib/c/nbspfile.c
+++ b/filters/filterlib/c/nbspfile.c
@@ -410,6 +410,9 @@ static int process_file(void){
     if(g.opt_nogpkheader == 0)
       fprintf(g.output_fp, GMPK_TRAILER_STR);
 
+    if(fflush(g.output_fp) != 0)
+      log_err_write(g.opt_output_fname);
+
     if((g.opt_verbose == 1) && (g.opt_output_fname != NULL)){
 	log_info("Archiving %s in %s", g.opt_output_fname, g.opt_output_dir);
     }
diff --git a/filters/filterlib/c/nbsppipe.c b/filters/filterlib/c/nbsppipe.c
index fcccc73..e11aa20 100644
--- a/filters/filterlib/c/nbsppipe.c
+++ b/filters/filterlib/c/nbsppipe.c
@@ -189,5 +189,8 @@ static int process_file(void){
   if(g.opt_header == 1)
     fprintf(g.output_fp, GMPK_TRAILER_STR);
 
+  if(fflush(g.output_fp) != 0)
+    log_err_write(g.opt_output_fname);
+
   return(0);
 }
-- 
2.43.0


From 11cf201120f108f12c4c01464b2db1ace809b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:25 +0000
Subject: [PATCH 62/95] fix: an output file was truncated while another program
 that had locked it was writing it

---
 filters/filterlib/c/io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/io.c b/filters/filterlib/c/io.c
index 1d457b6..dc90645 100644
--- a/filters/filterlib/c/io.c
+++ b/filters/filterlib/c/io.c
@@ -8,6 +8,7 @@
 #include <sys/file.h>
 #include <unistd.h>
 #include <fcntl.h>
+#include <errno.h>
 #include "err.h"
 #include "io.h"
 
@@ -45,14 +46,15 @@ FILE *fopen_output(char *path, char *mode){
   if(mode[0] == 'a')
     fd = open(path, O_WRONLY | O_APPEND | O_CREAT, 0666);
   else if(mode[0] == 'w')
-    fd = open(path, O_WRONLY | O_TRUNC | O_CREAT, 0666);
+    fd = open(path, O_WRONLY | O_CREAT, 0666);
   else{
     log_errx(1, "Invalid mode %s.", mode);
     return(NULL);
   }
 
   if(fd != -1){
-    if(flock(fd, LOCK_EX) == -1){
+    if((flock(fd, LOCK_EX) == -1) ||
+       ((mode[0] == 'w') && (ftruncate(fd, 0) == -1) && (errno != EINVAL))){
       (void)close(fd);
       fd = -1;
     }
-- 
2.43.0


From 181acd7801bfd0b2745bfc2c9e256c8135badcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:35 +0000
Subject: [PATCH 63/95] fix: nbspfile, nbsppipe, nbspcat: a corrupted file left
 a header without data in the output

---
 filters/filterlib/c/nbspcat.c  | 6 +++---
 filters/filterlib/c/nbspfile.c | 6 +++---
 filters/filterlib/c/nbsppipe.c | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index dc983a1..e3a7a98 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -252,9 +252,6 @@ static void process_file(void){
   if(g.opt_noccb == 1)
     ccb_size = 0;
 
-  if(g.opt_header == 1)
-    fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
-  
   nread = read_page(g.input_fp, g.page, g.page_size);
   
   if(nread <= ccb_size){
@@ -262,6 +259,9 @@ static void process_file(void){
     return;
   }
     
+  if(g.opt_header == 1)
+    fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
+
   data_start = ccb_size;
 
   while(nread > 0){
diff --git a/filters/filterlib/c/nbspfile.c b/filters/filterlib/c/nbspfile.c
index ce9630f..12da695 100644
--- a/filters/filterlib/c/nbspfile.c
+++ b/filters/filterlib/c/nbspfile.c
@@ -286,6 +286,9 @@ static int write_header(FILE *fp, char *page, int page_size, int *offset){
 
   *offset = header_size + ccb_size;
 
+  if(g.opt_nogpkheader == 0)
+    fprintf(fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
+
   if(g.opt_nowmoheader == 0){
     if((n = write_page(fp, header, header_size)) == -1)
       status = -1;
@@ -348,9 +351,6 @@ static int process_file(void){
     if(g.output_fp == NULL)
       log_err_open(g.opt_output_fname);
 
-    if(g.opt_nogpkheader == 0)
-      fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
-
     nread = fread(g.page, 1, g.page_size, g.input_fp);
     if(nread > 0)
       status = write_header(g.output_fp, g.page, nread, &data_start);
diff --git a/filters/filterlib/c/nbsppipe.c b/filters/filterlib/c/nbsppipe.c
index e11aa20..4724f9b 100644
--- a/filters/filterlib/c/nbsppipe.c
+++ b/filters/filterlib/c/nbsppipe.c
@@ -161,9 +161,6 @@ static int process_file(void){
   if(g.opt_noccb == 1)
     ccb_size = 0;
 
-  if(g.opt_header == 1)
-    fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
-  
   nread = read_page(g.input_fp, g.page, g.page_size);
   
   if(nread <= ccb_size){
@@ -171,6 +168,9 @@ static int process_file(void){
     log_errx(1, "Corrupted data file.");
   }
     
+  if(g.opt_header == 1)
+    fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
+
   data_start = ccb_size;
 
   while(nread > 0){
-- 
2.43.0


From 97e1827cba5fffa2fb63784da3d16606bf36bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:31 +0000
Subject: [PATCH 64/95] fix: nbspfile: a '-' in the name of a directory was
 taken for that of the awips name

---
 filters/filterlib/c/nbspfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/filterlib/c/nbspfile.c b/filters/filterlib/c/nbspfile.c
index 12da695..8d1eafe 100644
--- a/filters/filterlib/c/nbspfile.c
+++ b/filters/filterlib/c/nbspfile.c
@@ -436,6 +436,11 @@ static int has_awips_line(char *fname){
 
   char *s;
 
+  /* Only the name counts, not the directories */
+  s = strrchr(fname, '/');
+  if(s != NULL)
+    fname = s + 1;
+
   s = strchr(fname, FNAME_AWIPS_SEP_CHAR);
   if(s != NULL)
     return(1);
-- 
2.43.0


From c902cf57d73801771a0bc0259463e5d30c7dc318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 65/95] fix: nbspgrib2: a section shorter than its header or
 its fields overran the buffer

---
 filters/filterlib/c/nbspgrib2.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/nbspgrib2.c b/filters/filterlib/c/nbspgrib2.c
index d1d62db..0fc2c8f 100644
--- a/filters/filterlib/c/nbspgrib2.c
+++ b/filters/filterlib/c/nbspgrib2.c
@@ -35,6 +35,8 @@
 #define INDIC_SECTION_SIZE2	16
 
 #define GRIB2_SECTION_HEADER_SIZE	5
+#define GRIB2_SECTION1_MIN_SIZE		18
+#define GRIB2_SECTION4_MIN_SIZE		22
 #define GRIB2_SECTION_INIT_SIZE		(GRIB2_SECTION_HEADER_SIZE + 27)
 
 struct grib2_section_st {
@@ -301,6 +303,7 @@ static int read_grib2_section(FILE *fp, struct grib2_section_st* grb){
   unsigned char *p;
   int size;
   int secnum;
+  int minsize = GRIB2_SECTION_HEADER_SIZE;
   int n;
 
   p = (unsigned char*)(grb->buffer);
@@ -312,7 +315,18 @@ static int read_grib2_section(FILE *fp, struct grib2_section_st* grb){
 
   size = (p[0] << 24) + (p[1] << 16) + (p[2] << 8) + p[3];
   secnum = p[4];
-  
+
+  /* The section must have at least the fields that are extracted from it */
+  if(secnum == 1)
+    minsize = GRIB2_SECTION1_MIN_SIZE;
+  else if(secnum == 4)
+    minsize = GRIB2_SECTION4_MIN_SIZE;
+
+  if(size < minsize){
+    log_errx(1, "Corrupt section header.");
+    return(1);
+  }
+
   if((size > grb->buffer_size) && (grow_grib2_section(grb, size) != 0))
     return(-1);
 
-- 
2.43.0


From a57bd7e9eee7618ccd5caf0557f100522fcb6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 66/95] fix: nbspradinfo, nbspradgis, nbsprad2info: reading
 from a pipe in small pieces failed as a short file

---
 filters/filterlib/c/dcnids/dcnids_header.c |  9 ++++++---
 filters/filterlib/c/misc.c                 |  2 +-
 filters/filterlib/c/nbsprad2info.c         | 22 ++++++++--------------
 3 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_header.c b/filters/filterlib/c/dcnids/dcnids_header.c
index cdf7e51..dd5beab 100644
--- a/filters/filterlib/c/dcnids/dcnids_header.c
+++ b/filters/filterlib/c/dcnids/dcnids_header.c
@@ -10,6 +10,7 @@
 #include <unistd.h>
 #include <string.h>
 #include "const.h"
+#include "io.h"
 #include "misc.h"
 #include "util.h"
 #include "dcnids_extract.h"
@@ -41,9 +42,11 @@ int dcnids_read_header(int fd, int skipcount,
   /*
    * If the file has a gempak header, skip it.
    */
-  n = read(fd, b, 1);
-  if(n != 1)
+  n = readf(fd, b, 1);
+  if(n == -1)
     return(-1);
+  else if(n == 0)
+    return(1);
 
   if(isalnum(*b) == 0){
     /*
@@ -61,7 +64,7 @@ int dcnids_read_header(int fd, int skipcount,
     --b_size;
   }
 
-  n = read(fd, b, b_size);
+  n = readf(fd, b, b_size);
   if(n == -1)
     return(-1);
   else if(n < b_size)
diff --git a/filters/filterlib/c/misc.c b/filters/filterlib/c/misc.c
index 399ea81..4d30b61 100644
--- a/filters/filterlib/c/misc.c
+++ b/filters/filterlib/c/misc.c
@@ -24,7 +24,7 @@ int read_skip_count(int fd, size_t count, char *buffer, size_t buffer_size){
     nread = read(fd, buffer, ntry);
     if(nread == -1)
       return(-1);
-    else if((size_t)nread != ntry)
+    else if(nread == 0)
       return(1);
 
     nleft -= nread;
diff --git a/filters/filterlib/c/nbsprad2info.c b/filters/filterlib/c/nbsprad2info.c
index 5a5729a..ce66227 100644
--- a/filters/filterlib/c/nbsprad2info.c
+++ b/filters/filterlib/c/nbsprad2info.c
@@ -13,6 +13,8 @@
 #include <libgen.h>
 #include <ctype.h>
 #include "err.h"
+#include "io.h"
+#include "misc.h"
 #include "util.h"
 
 /*
@@ -118,8 +120,6 @@ int process_file(void){
   struct l2_header_st header;
   char dummy[4096];
   size_t dummy_size = 4096;
-  size_t nleft;
-  size_t ndummy_read;
   char *p, *q;
 
   memset(&header, 0, sizeof(struct l2_header_st));
@@ -137,20 +137,14 @@ int process_file(void){
   b = &header.header[0];
 
   if(g.opt_skipcount != 0){
-    nleft = g.opt_skipcount;
-    while(nleft > 0){
-      ndummy_read = nleft;
-      if((size_t)nleft > dummy_size)
-	ndummy_read = dummy_size;
-
-      if(read(fd, dummy, ndummy_read) == -1)
-	log_err(1, "Error from read()");
-
-      nleft -= ndummy_read;
-    }
+    n = read_skip_count(fd, g.opt_skipcount, dummy, dummy_size);
+    if(n == -1)
+      log_err(1, "Error from read()");
+    else if(n != 0)
+      log_errx(1, "Corrupt file.");
   }
 
-  n = read(fd, b, L2_HEADER_SIZE);
+  n = readf(fd, b, L2_HEADER_SIZE);
   if(n == -1)
     log_err(1, "Error from read()");
   else if(n < L2_HEADER_SIZE)
-- 
2.43.0


From 64ea7db0e0c84013102f2dbb51f0c3cae1e8b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 67/95] fix: nbspradgis: a damaged product was read past its
 end

---
 filters/filterlib/c/dcnids/dcnids_decode.h    |  6 ++++++
 .../dcnids/dcnids_decode_digital_radials_16.c | 20 +++++++++++++------
 .../c/dcnids/dcnids_decode_radials_af1f.c     | 20 +++++++++++++------
 filters/filterlib/c/dcnids/nbspradgis.c       |  6 ++++++
 4 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_decode.h b/filters/filterlib/c/dcnids/dcnids_decode.h
index 6149594..aff17d5 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode.h
+++ b/filters/filterlib/c/dcnids/dcnids_decode.h
@@ -57,6 +57,12 @@
  */
 #define NIDS_PACKET_RADIALS_START_RUNS		30
 
+/* Size of the header of each radial */
+#define NIDS_RADIAL_HEADER_SIZE			6
+
+/* No product has so many, and the size of their shp file fits in an int */
+#define NIDS_MAX_POLYGONS			10000000
+
 struct nids_product_symbol_block_st {
   int blockid;		/* should be 1 */
   unsigned int blocklength;
diff --git a/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c b/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
index c0285bd..6aaea2f 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
+++ b/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
@@ -286,9 +286,9 @@ static void nids_decode_digital_radials_16_grided(struct nids_data_st *nd){
       */
 
       /* radius in km  - alspo update "total_bins */
-      r1 = ((double)(total_bins * nd->radial_packet_header.scale))/1000.0;
+      r1 = ((double)total_bins * nd->radial_packet_header.scale)/1000.0;
       total_bins += run_bins;
-      r2 = ((double)(total_bins * nd->radial_packet_header.scale))/1000.0;
+      r2 = ((double)total_bins * nd->radial_packet_header.scale)/1000.0;
 
       /* According to doc, 0 and 1 are not data values */
       if(run_code < 2)
@@ -385,6 +385,7 @@ static void nids_decode_digital_radials_16_grided(struct nids_data_st *nd){
 static void nids_count_polygons_radials_16(struct nids_data_st *nd){
 
   unsigned char *b = nd->data;
+  unsigned char *bend = nd->data + nd->data_size;
   struct nids_digital_radial_packet_st radial_packet;
   int i, j;
   int run_code, run_bins, total_bins;
@@ -408,10 +409,16 @@ static void nids_count_polygons_radials_16(struct nids_data_st *nd){
   numpolygons = 0;
 
   for(i = 0; i < nd->radial_packet_header.numradials; ++i){
+    if(bend - b < NIDS_RADIAL_HEADER_SIZE)
+      log_errx(1, "Corrupt file.");
+
     radial_packet.num_bytes = extract_uint16(b, 1);
     radial_packet.angle_start = extract_int16(b, 2);
     radial_packet.angle_delta = extract_uint16(b, 3);
-    b += 6;
+    b += NIDS_RADIAL_HEADER_SIZE;
+
+    if(bend - b < radial_packet.num_bytes)
+      log_errx(1, "Corrupt file.");
 
     radial_packet.angle_start_deg = (double)radial_packet.angle_start/10.0;
     radial_packet.angle_delta_deg = (double)radial_packet.angle_delta/10.0;
@@ -427,9 +434,9 @@ static void nids_count_polygons_radials_16(struct nids_data_st *nd){
       ++b;      
 
       /* radius in km  - alspo update "total_bins */
-      /* r1 = ((double)(total_bins * nd->radial_packet_header.scale))/1000.0; */
+      /* r1 = ((double)total_bins * nd->radial_packet_header.scale)/1000.0; */
       total_bins += run_bins;
-      r2 = ((double)(total_bins * nd->radial_packet_header.scale))/1000.0;
+      r2 = ((double)total_bins * nd->radial_packet_header.scale)/1000.0;
 
       /* According to doc, 0 and 1 are not data values */
       if(run_code < 2)
@@ -447,7 +454,8 @@ static void nids_count_polygons_radials_16(struct nids_data_st *nd){
 	if(theta2p > theta2)
 	  theta2p = theta2;
 
-	++numpolygons;
+	if(++numpolygons > NIDS_MAX_POLYGONS)
+	  log_errx(1, "Corrupt file.");
 
 	/* theta1p = theta2p; */
       }
diff --git a/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c b/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
index 2f5336f..e2ca1b7 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
+++ b/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
@@ -317,9 +317,9 @@ static void nids_decode_radials_af1f_grided(struct nids_data_st *nd){
 	continue;  /* should be the last byte and the loop will break itself */
 
       /* radius in km - also update "total_bins" */
-      r1 = ((double)(total_bins * nd->radial_packet_header.scale))/1000.0;
+      r1 = ((double)total_bins * nd->radial_packet_header.scale)/1000.0;
       total_bins += run_bins;
-      r2 = ((double)(total_bins * nd->radial_packet_header.scale))/1000.0;
+      r2 = ((double)total_bins * nd->radial_packet_header.scale)/1000.0;
 
       /* XXX
 	 fprintf(stdout, "\t%f %f\n", r1, r2);
@@ -442,6 +442,7 @@ static void nids_decode_radials_af1f_grided(struct nids_data_st *nd){
 static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 
   unsigned char *b = nd->data;
+  unsigned char *bend = nd->data + nd->data_size;
   struct nids_radial_packet_st radial_packet;
   int i, j;
   /* int run_code, run_bins, total_bins; */
@@ -467,10 +468,16 @@ static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 
   numpolygons = 0;
   for(i = 0; i < nd->radial_packet_header.numradials; ++i){
+    if(bend - b < NIDS_RADIAL_HEADER_SIZE)
+      log_errx(1, "Corrupt file.");
+
     radial_packet.num_rle_halfwords = extract_uint16(b, 1);
     radial_packet.angle_start = extract_int16(b, 2);
     radial_packet.angle_delta = extract_uint16(b, 3);
-    b += 6;
+    b += NIDS_RADIAL_HEADER_SIZE;
+
+    if(bend - b < radial_packet.num_rle_halfwords * 2)
+      log_errx(1, "Corrupt file.");
 
     radial_packet.angle_start_deg = (double)radial_packet.angle_start/10.0;
     radial_packet.angle_delta_deg = (double)radial_packet.angle_delta/10.0;
@@ -492,9 +499,9 @@ static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 	continue;  /* should be the last byte and the loop will break itself */
 
       /* radius in km - also update "total_bins" */
-      r1 = ((double)(total_bins * nd->radial_packet_header.scale))/1000.0;
+      r1 = ((double)total_bins * nd->radial_packet_header.scale)/1000.0;
       total_bins += run_bins;
-      r2 = ((double)(total_bins * nd->radial_packet_header.scale))/1000.0;
+      r2 = ((double)total_bins * nd->radial_packet_header.scale)/1000.0;
 
       r = r1;
       while(r < r2){
@@ -516,7 +523,8 @@ static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 	  if(theta > theta2)
 	    theta = theta2;
 
-	  ++numpolygons;
+	  if(++numpolygons > NIDS_MAX_POLYGONS)
+	    log_errx(1, "Corrupt file.");
 	}
       }
     }
diff --git a/filters/filterlib/c/dcnids/nbspradgis.c b/filters/filterlib/c/dcnids/nbspradgis.c
index 24e18e9..1873763 100644
--- a/filters/filterlib/c/dcnids/nbspradgis.c
+++ b/filters/filterlib/c/dcnids/nbspradgis.c
@@ -369,6 +369,9 @@ static void nids_decode_data(struct nids_data_st *nd){
    * In the first case we continue, but if the divider is not -1
    * we assume it is a new product and try to send it to libbz2.
    */
+  if(nd->data_size < NIDS_PACKET_RADIALS_START_RUNS)
+    log_errx(1, "Corrupt file.");
+
   divider = (int)extract_int16(b, 1);
   if(divider != -1){
     status = dcnids_bunz(&nd->data, &nd->data_size, &bzerror);
@@ -377,6 +380,9 @@ static void nids_decode_data(struct nids_data_st *nd){
     else if(status == -1)
       log_err(1, "Error from libbz2.");
 
+    if(nd->data_size < NIDS_PACKET_RADIALS_START_RUNS)
+      log_errx(1, "Corrupt file.");
+
     /* repoint b */
     b = nd->data;
   }
-- 
2.43.0


From 148f106cc09db5bf8796baeab41593553f0a40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:02 +0000
Subject: [PATCH 68/95] fix: nbspradgis: the northern bound of the bounding box
 was not initialized

---
 filters/filterlib/c/dcnids/dcnids_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_transform.c b/filters/filterlib/c/dcnids/dcnids_transform.c
index 834797d..faaab5e 100644
--- a/filters/filterlib/c/dcnids/dcnids_transform.c
+++ b/filters/filterlib/c/dcnids/dcnids_transform.c
@@ -77,7 +77,7 @@ void dcnids_polygonmap_bb(struct dcnids_polygon_map_st *pm){
   pm->lon_min = 180.0;
   pm->lon_max = -180.0;
   pm->lat_min = 180.0;
-  pm->lon_max = -180.0;
+  pm->lat_max = -180.0;
   
   for(j = 0; j < pm->numpolygons; ++j){
     for(i = 0; i < 4; ++i){
-- 
2.43.0


From ba00def511f589feb34aac1de9acf688a1a87485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:02 +0000
Subject: [PATCH 69/95] fix: nbspradgis: a file that could not be written
 completely was not reported

---
 filters/filterlib/c/dcnids/dcnids_dbf.c  | 5 ++++-
 filters/filterlib/c/dcnids/dcnids_info.c | 3 ++-
 filters/filterlib/c/dcnids/dcnids_shp.c  | 6 +++---
 filters/filterlib/c/dcnids/nbspradgis.c  | 7 +++++--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_dbf.c b/filters/filterlib/c/dcnids/dcnids_dbf.c
index 79ac395..5607b2d 100644
--- a/filters/filterlib/c/dcnids/dcnids_dbf.c
+++ b/filters/filterlib/c/dcnids/dcnids_dbf.c
@@ -212,7 +212,10 @@ int dcnids_dbf_write(char *dbfname, struct dcnids_polygon_map_st *pm){
   }
 
   n = write(fd, dbf->b, dbf->size);
-  if(n < 0)
+  if(n != dbf->size)
+    status = -1;
+
+  if(close(fd) != 0)
     status = -1;
 
  End:
diff --git a/filters/filterlib/c/dcnids/dcnids_info.c b/filters/filterlib/c/dcnids/dcnids_info.c
index f66ed2c..c78d065 100644
--- a/filters/filterlib/c/dcnids/dcnids_info.c
+++ b/filters/filterlib/c/dcnids/dcnids_info.c
@@ -45,7 +45,8 @@ int dcnids_info_write(char *infofile, struct nids_data_st *nd){
     n = fprintf(f, "bb: %f %f %f %f\n", pm->lon_min, pm->lat_min,
 		pm->lon_max, pm->lat_max);
 
-  fclose(f);
+  if(fclose(f) != 0)
+    n = -1;
 
   if(n < 0){
     log_err(1, "Error writing info file.");
diff --git a/filters/filterlib/c/dcnids/dcnids_shp.c b/filters/filterlib/c/dcnids/dcnids_shp.c
index 31a07be..7ce5d70 100644
--- a/filters/filterlib/c/dcnids/dcnids_shp.c
+++ b/filters/filterlib/c/dcnids/dcnids_shp.c
@@ -394,7 +394,7 @@ int dcnids_shp_write_data(int shp_fd, int shx_fd,
   b = dcnids_shp->b;
 
   if(shp_fd != -1){
-    if(write(shp_fd, b, dcnids_shp->shpsize) == -1){
+    if(write(shp_fd, b, dcnids_shp->shpsize) != (ssize_t)dcnids_shp->shpsize){
       status = -1;
       goto End;
     }
@@ -403,7 +403,7 @@ int dcnids_shp_write_data(int shp_fd, int shx_fd,
   b += dcnids_shp->shpsize;
   
   if(shx_fd != -1){
-    if(write(shx_fd, b, dcnids_shp->shxsize) == -1){
+    if(write(shx_fd, b, dcnids_shp->shxsize) != (ssize_t)dcnids_shp->shxsize){
       status = -1;
       goto End;
     }
@@ -440,7 +440,7 @@ int dcnids_shp_write(char *shpfile, char *shxfile,
       if(shp_fd != -1)
 	close(shp_fd);
 
-      log_err(1, "Cannot open %", shxfile);
+      log_err(1, "Cannot open %s", shxfile);
       return(-1);
     }
   }
diff --git a/filters/filterlib/c/dcnids/nbspradgis.c b/filters/filterlib/c/dcnids/nbspradgis.c
index 1873763..738da8e 100644
--- a/filters/filterlib/c/dcnids/nbspradgis.c
+++ b/filters/filterlib/c/dcnids/nbspradgis.c
@@ -539,11 +539,14 @@ static void nids_csv_write(struct nids_data_st *nd){
   else
     fp = fopen(csvfile, "w");
 
+  if(fp == NULL)
+    log_err(1, "Cannot open %s", csvfile);
+
   if(dcnids_csv_write(fp, pm) != 0)
     log_errx(1, "Cannot write to csv file.");
 
-  if(fp != stdout)
-    fclose(fp);
+  if(((fp == stdout) ? fflush(fp) : fclose(fp)) != 0)
+    log_err(1, "Cannot write to csv file.");
 }
 
 #ifdef PRINT_TEST
-- 
2.43.0


From 0b619019b4b44a0c6ea20d3ca9737ada30b7762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:02 +0000
Subject: [PATCH 70/95] fix: nbspradgis: an awips id with a slash took the
 files out of the output directory

---
 filters/filterlib/c/dcnids/dcnids_misc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_misc.c b/filters/filterlib/c/dcnids/dcnids_misc.c
index 1d871d5..16e1cb4 100644
--- a/filters/filterlib/c/dcnids/dcnids_misc.c
+++ b/filters/filterlib/c/dcnids/dcnids_misc.c
@@ -49,7 +49,8 @@ static int dcnids_verify_wmo_header(void *header){
 static int dcnids_verify_awips_header(void *header){
   /*
    * Check the last WMO_AWIPS_SIZE + 3 bytes to see if it consists of
-   * 6 ascii bytes plus the \r\r\n.
+   * 6 ascii bytes plus the \r\r\n. The id is used to name the output
+   * files, so that it cannot have a '/'.
    */
   int i;
   char *c;
@@ -57,7 +58,7 @@ static int dcnids_verify_awips_header(void *header){
   c = (char*)header;
   c += CTRLHDR_WMO_SIZE;
   for(i = 1; i <= WMO_AWIPS_SIZE; ++i){
-    if(isprint(*c++) == 0)
+    if((*c == '/') || (isprint(*c++) == 0))
       goto end;
   }
 
-- 
2.43.0


From dab8750105cdd7806149244d00a7da23170710be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:42 +0000
Subject: [PATCH 71/95] fix: nbspsat -i, nbspsatinfo: short reads and short
 frames of a pipe or damaged file

---
 filters/filterlib/c/dcgini/dcgini_pdb.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_pdb.c b/filters/filterlib/c/dcgini/dcgini_pdb.c
index 7530706..8afdec9 100644
--- a/filters/filterlib/c/dcgini/dcgini_pdb.c
+++ b/filters/filterlib/c/dcgini/dcgini_pdb.c
@@ -74,10 +74,13 @@ int read_nesdis_pdb_compressed(int fd, struct nesdis_pdb_st *npdb){
   /* Initialize */
   npdb->buffer_size = NESDIS_WMO_HEADER_SIZE + NESDIS_PDB_SIZE;
 
-  n = read(fd, buffer, buffer_size);
+  n = readf(fd, buffer, buffer_size);
   if(n == -1)
     return(-1);
 
+  if(n < NESDIS_WMO_HEADER_SIZE + 2)
+    return(1);	/* file too short */
+
   p = &buffer[NESDIS_WMO_HEADER_SIZE];
   if((p[0] == ZBYTE0) && (p[1] == ZBYTE1)){
     /*
@@ -86,7 +89,7 @@ int read_nesdis_pdb_compressed(int fd, struct nesdis_pdb_st *npdb){
     n -= NESDIS_WMO_HEADER_SIZE;  /* number of bytes in buffer after wmo */
     i = 0;
     status = Z_DATA_ERROR;
-    while(i < n){
+    while(i < n - 2){
       ++i;
       if((p[i] == ZBYTE0) && (p[i + 1] == ZBYTE1)){
 	/*
@@ -104,6 +107,9 @@ int read_nesdis_pdb_compressed(int fd, struct nesdis_pdb_st *npdb){
     if(status != Z_OK){
       return(3);	/* zlib error */
     }
+
+    if(npdb->buffer_size != buffer_size)
+      return(1);	/* the first frame does not have the whole pdb */
   }else{
     /*
      * The frame is uncompressed.
-- 
2.43.0


From 2b5496fc0902d4ccd1e06e0feb2f203591bfeb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:42 +0000
Subject: [PATCH 72/95] fix: nbspsatgis: the northern bound of the bounding box
 was not initialized

---
 filters/filterlib/c/dcgini/dcgini_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_transform.c b/filters/filterlib/c/dcgini/dcgini_transform.c
index 8cbc6f1..f3af058 100644
--- a/filters/filterlib/c/dcgini/dcgini_transform.c
+++ b/filters/filterlib/c/dcgini/dcgini_transform.c
@@ -130,7 +130,7 @@ static void dcgini_pointmap_bb(struct dcgini_point_map_st *pm){
   pm->lon_min = 180.0;
   pm->lon_max = -180.0;
   pm->lat_min = 180.0;
-  pm->lon_max = -180.0;
+  pm->lat_max = -180.0;
 
   pm->lon_ll = pm->lon_min;
   pm->lat_ll = pm->lat_min;
-- 
2.43.0


From d3530b36285407b6803ed2408712eba33e304f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:26 +0000
Subject: [PATCH 73/95] fix: nbspsatgis: the asc grid of a degenerate image was
 read outside of the image

---
 filters/filterlib/c/dcgini/dcgini_grid.h      |  1 +
 filters/filterlib/c/dcgini/dcgini_transform.c | 31 ++++++++++++++-----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_grid.h b/filters/filterlib/c/dcgini/dcgini_grid.h
index 91ca1f6..4ddbd08 100644
--- a/filters/filterlib/c/dcgini/dcgini_grid.h
+++ b/filters/filterlib/c/dcgini/dcgini_grid.h
@@ -47,6 +47,7 @@
 
 /* level value for points that lie outside the original array bounds */
 #define DCGINI_GRID_MAP_NODATA -1
+#define DCGINI_GRID_MAP_MAX_POINTS 100000000.0
 
 struct dcgini_grid_map_st {
   int *level;		/* declared int so that NODATA can be used */
diff --git a/filters/filterlib/c/dcgini/dcgini_transform.c b/filters/filterlib/c/dcgini/dcgini_transform.c
index f3af058..b41b10d 100644
--- a/filters/filterlib/c/dcgini/dcgini_transform.c
+++ b/filters/filterlib/c/dcgini/dcgini_transform.c
@@ -246,9 +246,10 @@ int dcgini_regrid_data(struct dcgini_st *dcg){
       else if(dcg->pdb.map_projection == NESDIS_MAP_PROJ_MER)
 	nesdis_proj_mer_lonlat_ij(&dcg->pmer, lon_deg, lat_deg, &ii, &jj);
 
-      if((ii < 0.0) || (ii > (double)dcg->pdb.nx - 1))
+      /* written so that it is true also when ii or jj is not a number */
+      if(!((ii >= 0.0) && (ii <= (double)dcg->pdb.nx - 1)))
 	*datap = DCGINI_GRID_MAP_NODATA;
-      else if((jj < 0.0) || (jj > (double)dcg->pdb.ny - 1))
+      else if(!((jj >= 0.0) && (jj <= (double)dcg->pdb.ny - 1)))
 	*datap = DCGINI_GRID_MAP_NODATA;
       else{
 	i = LROUND_SIZE_T(ii);
@@ -280,6 +281,7 @@ int dcgini_regrid_data_asc(struct dcgini_st *dcg,
   double ii, jj, lon_deg, lat_deg;
   double cellsize;	/* asc format requires square cell size */
   double dlon, dlat;
+  double nlon, nlat;
   double rlon1, rlat1, rlon2, rlat2;
 
   dlon = (dcg->pointmap.lon_max - dcg->pointmap.lon_min)/(dcg->pdb.nx - 1);
@@ -321,10 +323,22 @@ int dcgini_regrid_data_asc(struct dcgini_st *dcg,
     }
   }
 
-  dcg->gridmap.nlon =
-    (dcg->gridmap.lon2_deg - dcg->gridmap.lon1_deg)/cellsize + 1.0;
-  dcg->gridmap.nlat =
-    (dcg->gridmap.lat2_deg - dcg->gridmap.lat1_deg)/cellsize + 1.0;
+  nlon = (dcg->gridmap.lon2_deg - dcg->gridmap.lon1_deg)/cellsize + 1.0;
+  nlat = (dcg->gridmap.lat2_deg - dcg->gridmap.lat1_deg)/cellsize + 1.0;
+
+  /*
+   * There is no grid if the image has only one line or column, or nothing
+   * but background, or if the limits are not an actual rectangle; each
+   * comparison is also false when the value is not a number.
+   */
+  if(!((cellsize > 0.0) && (nlon >= 1.0) && (nlat >= 1.0) &&
+       (nlon * nlat <= DCGINI_GRID_MAP_MAX_POINTS))){
+    log_warnx("Cannot define the grid of the image");
+    return(1);
+  }
+
+  dcg->gridmap.nlon = nlon;
+  dcg->gridmap.nlat = nlat;
 
   /* Allocate storage for the levels array */
   numpoints = dcg->gridmap.nlon * dcg->gridmap.nlat;
@@ -369,9 +383,10 @@ int dcgini_regrid_data_asc(struct dcgini_st *dcg,
       else if(dcg->pdb.map_projection == NESDIS_MAP_PROJ_MER)
 	nesdis_proj_mer_lonlat_ij(&dcg->pmer, lon_deg, lat_deg, &ii, &jj);
 
-      if((ii < 0.0) || (ii > (double)dcg->pdb.nx - 1))
+      /* written so that it is true also when ii or jj is not a number */
+      if(!((ii >= 0.0) && (ii <= (double)dcg->pdb.nx - 1)))
 	*datap = DCGINI_GRID_MAP_NODATA;
-      else if((jj < 0.0) || (jj > (double)dcg->pdb.ny - 1))
+      else if(!((jj >= 0.0) && (jj <= (double)dcg->pdb.ny - 1)))
 	*datap = DCGINI_GRID_MAP_NODATA;
       else{
 	i = LROUND_SIZE_T(ii);
-- 
2.43.0


From 9cc037309f60c8ee24976a81dfb2f897eea73647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:26 +0000
Subject: [PATCH 74/95] fix: nbspsatgis: the asc grid of an image in a southern
 projection was empty

---
 filters/filterlib/c/dcgini/dcgini_transform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_transform.c b/filters/filterlib/c/dcgini/dcgini_transform.c
index b41b10d..e4aafb1 100644
--- a/filters/filterlib/c/dcgini/dcgini_transform.c
+++ b/filters/filterlib/c/dcgini/dcgini_transform.c
@@ -474,7 +474,7 @@ void nesdis_proj_str_lonlat_ij(struct nesdis_proj_str_st *pstr,
   y = -pstr->s * r * cos(lon_rad - pstr->lov_rad);
 
   *ii = (x - pstr->x1)/pstr->dx;
-  *jj = (y - pstr->y1)/pstr->dy;
+  *jj = (y - pstr->y1)/(pstr->s * pstr->dy);
 }
 
 void nesdis_proj_llc_init(struct nesdis_pdb_st *npdb,
@@ -568,7 +568,7 @@ void nesdis_proj_llc_lonlat_ij(struct nesdis_proj_llc_st *pllc,
   y = -pllc->s * pllc->r_E * a * cos(b);
 
   *ii = (x - pllc->x1)/pllc->dx;
-  *jj = (y - pllc->y1)/pllc->dy;
+  *jj = (y - pllc->y1)/(pllc->s * pllc->dy);
 }
 
 void nesdis_proj_mer_init(struct nesdis_pdb_st *npdb,
-- 
2.43.0


From 1e2e255620bda36b6b28640a81606b9db1de64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 75/95] fix: nbspsat, nbspsatgis: a file that could not be
 written completely was not reported

---
 filters/filterlib/c/dcgini/dcgini_asc.c  |  5 ++---
 filters/filterlib/c/dcgini/dcgini_csv.c  |  5 ++---
 filters/filterlib/c/dcgini/dcgini_dbf.c  |  5 ++++-
 filters/filterlib/c/dcgini/dcgini_info.c |  5 +++--
 filters/filterlib/c/dcgini/dcgini_shp.c  |  6 +++---
 filters/filterlib/c/dcgini/nbspsat.c     | 17 ++++++++++++-----
 6 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_asc.c b/filters/filterlib/c/dcgini/dcgini_asc.c
index 0c5185a..8802a7f 100644
--- a/filters/filterlib/c/dcgini/dcgini_asc.c
+++ b/filters/filterlib/c/dcgini/dcgini_asc.c
@@ -28,9 +28,8 @@ int dcgini_asc_write(char *file, struct dcgini_grid_map_st *gm){
 
   status = dcgini_asc_write_data(fp, gm);
 
-  if(fp != stdout)
-    fclose(fp);
-
+  if(((fp == stdout) ? fflush(fp) : fclose(fp)) != 0)
+    status = -1;
   if(status != 0)
     log_err(1, "Cannot write to %s", file);
 
diff --git a/filters/filterlib/c/dcgini/dcgini_csv.c b/filters/filterlib/c/dcgini/dcgini_csv.c
index 7331c73..20d8212 100644
--- a/filters/filterlib/c/dcgini/dcgini_csv.c
+++ b/filters/filterlib/c/dcgini/dcgini_csv.c
@@ -28,9 +28,8 @@ int dcgini_csv_write(char *file, struct dcgini_point_map_st *pm){
 
   status = dcgini_csv_write_data(fp, pm);
 
-  if(fp != stdout)
-    fclose(fp);
-
+  if(((fp == stdout) ? fflush(fp) : fclose(fp)) != 0)
+    status = -1;
   if(status != 0)
     log_err(1, "Cannot write to %s", file);
 
diff --git a/filters/filterlib/c/dcgini/dcgini_dbf.c b/filters/filterlib/c/dcgini/dcgini_dbf.c
index 1a93f1a..1ded547 100644
--- a/filters/filterlib/c/dcgini/dcgini_dbf.c
+++ b/filters/filterlib/c/dcgini/dcgini_dbf.c
@@ -207,7 +207,10 @@ int dcgini_dbf_write(char *file, struct dcgini_point_map_st *pm){
   }
 
   n = write(fd, dbf->b, dbf->size);
-  if(n < 0)
+  if(n != dbf->size)
+    status = -1;
+
+  if(close(fd) != 0)
     status = -1;
 
  End:
diff --git a/filters/filterlib/c/dcgini/dcgini_info.c b/filters/filterlib/c/dcgini/dcgini_info.c
index b84fb96..158f9d9 100644
--- a/filters/filterlib/c/dcgini/dcgini_info.c
+++ b/filters/filterlib/c/dcgini/dcgini_info.c
@@ -17,7 +17,7 @@ int dcgini_info_write(char *file, struct dcgini_st *dcg){
 
   f = fopen(file, "w");
   if(f == NULL){
-    log_err(1, "Cannot open %", file);
+    log_err(1, "Cannot open %s", file);
     return(1);
   }
 
@@ -51,7 +51,8 @@ int dcgini_info_write(char *file, struct dcgini_st *dcg){
 		dcg->pointmap.lon_ll, dcg->pointmap.lat_ll,
 		dcg->pointmap.lon_ur, dcg->pointmap.lat_ur);
 
-  fclose(f);
+  if(fclose(f) != 0)
+    n = -1;
 
   if(n < 0){
     log_err(1, "Error writing info file.");
diff --git a/filters/filterlib/c/dcgini/dcgini_shp.c b/filters/filterlib/c/dcgini/dcgini_shp.c
index c763cfa..8fd4318 100644
--- a/filters/filterlib/c/dcgini/dcgini_shp.c
+++ b/filters/filterlib/c/dcgini/dcgini_shp.c
@@ -305,7 +305,7 @@ int dcgini_shp_write_data(int shp_fd, int shx_fd,
   b = dcgini_shp->b;
 
   if(shp_fd != -1){
-    if(write(shp_fd, b, dcgini_shp->shpsize) == -1){
+    if(write(shp_fd, b, dcgini_shp->shpsize) != (ssize_t)dcgini_shp->shpsize){
       status = -1;
       goto End;
     }
@@ -314,7 +314,7 @@ int dcgini_shp_write_data(int shp_fd, int shx_fd,
   b += dcgini_shp->shpsize;
 
   if(shx_fd != -1){
-    if(write(shx_fd, b, dcgini_shp->shxsize) == -1){
+    if(write(shx_fd, b, dcgini_shp->shxsize) != (ssize_t)dcgini_shp->shxsize){
       status = -1;
       goto End;
     }
@@ -351,7 +351,7 @@ int dcgini_shp_write(char *shpfile, char *shxfile,
       if(shp_fd != -1)
 	close(shp_fd);
 
-      log_err(1, "Cannot open %", shxfile);
+      log_err(1, "Cannot open %s", shxfile);
       return(-1);
     }
   }
diff --git a/filters/filterlib/c/dcgini/nbspsat.c b/filters/filterlib/c/dcgini/nbspsat.c
index f9f47a7..4ee5ac8 100644
--- a/filters/filterlib/c/dcgini/nbspsat.c
+++ b/filters/filterlib/c/dcgini/nbspsat.c
@@ -285,7 +285,10 @@ static int process_file(void){
       else
 	log_errx(1, "Could not write to %s: error from libpng", fname);
     }
-    fclose(fp);
+    if(fclose(fp) != 0){
+      unlink(fname);
+      log_err(1, "Could not write to %s", fname);
+    }
   }
 
   if(g.opt_gempak_output == 1){
@@ -304,7 +307,10 @@ static int process_file(void){
       else if(status == 1)
 	log_errx(1, "zip error %d compressing %s", zstatus, fname);
     }
-    close(gempak_fd);
+    if(close(gempak_fd) != 0){
+      unlink(fname);
+      log_err(1, "Could not write to %s", fname);
+    }
   }
 
   if(g.opt_silent == 0)
@@ -399,13 +405,14 @@ static int write_gempak(int gempak_fd, int fd,
   if(lseek(fd, npdb->buffer_size, SEEK_SET) == -1)
     return(-1);
 
-  if(write(gempak_fd, npdb->buffer, NESDIS_WMO_HEADER_SIZE) == -1)
+  if(write(gempak_fd, npdb->buffer, NESDIS_WMO_HEADER_SIZE) !=
+     NESDIS_WMO_HEADER_SIZE)
     return(-1);
 
   *zstatus = zip(&zblock, &zblock_size, npdb->buffer, npdb->buffer_size,
 		 level);
   if(*zstatus == 0){
-    if(write(gempak_fd, zblock, zblock_size) == -1)
+    if(write(gempak_fd, zblock, zblock_size) != zblock_size)
       status = -1;
 
     free(zblock);
@@ -426,7 +433,7 @@ static int write_gempak(int gempak_fd, int fd,
       break;
     }
 
-    if(write(gempak_fd, zblock, zblock_size) == -1)
+    if(write(gempak_fd, zblock, zblock_size) != zblock_size)
       status = -1;
 
     free(zblock);
-- 
2.43.0


From d2abd93bc71a1ba85dca401e9bd929ed4e86b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 76/95] fix: nbspsat, nbspsatgis: a wmo id with a slash took
 the files out of the output directory

---
 filters/filterlib/c/dcgini/dcgini_misc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_misc.c b/filters/filterlib/c/dcgini/dcgini_misc.c
index 905a674..5d673be 100644
--- a/filters/filterlib/c/dcgini/dcgini_misc.c
+++ b/filters/filterlib/c/dcgini/dcgini_misc.c
@@ -15,14 +15,15 @@
 int dcgini_verify_wmo_header(void *header){
   /*
    * Check the first NESDIS_WMO_HEADER_SIZE bytes to see if it consists of
-   * 18 ascii bytes plus the \r\r\n.
+   * 18 ascii bytes plus the \r\r\n. The wmo id is used to name the output
+   * files, so that there cannot be a '/'.
    */
   int i;
   char *c;
 
   c = (char*)header;
   for(i = 1; i <= NESDIS_WMO_HEADER_SIZE - 3; ++i){    
-    if(isascii(*c++) == 0)
+    if((*c == '/') || (isascii(*c++) == 0))
       goto end;
   }
 
-- 
2.43.0


From a7a56aef163c8d9850a5b28c343b5b3545ebd156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:40 +0000
Subject: [PATCH 77/95] fix: nbspsat -g: the input could not be a pipe

---
 filters/filterlib/c/dcgini/nbspsat.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/filters/filterlib/c/dcgini/nbspsat.c b/filters/filterlib/c/dcgini/nbspsat.c
index 4ee5ac8..31493ce 100644
--- a/filters/filterlib/c/dcgini/nbspsat.c
+++ b/filters/filterlib/c/dcgini/nbspsat.c
@@ -402,9 +402,6 @@ static int write_gempak(int gempak_fd, int fd,
   int level = 9;
   int n;
 
-  if(lseek(fd, npdb->buffer_size, SEEK_SET) == -1)
-    return(-1);
-
   if(write(gempak_fd, npdb->buffer, NESDIS_WMO_HEADER_SIZE) !=
      NESDIS_WMO_HEADER_SIZE)
     return(-1);
@@ -426,7 +423,7 @@ static int write_gempak(int gempak_fd, int fd,
   if(block == NULL)
     return(-1);
 
-  while((n = read(fd, block, block_size)) > 0){
+  while((n = readf(fd, block, block_size)) > 0){
     *zstatus = zip(&zblock, &zblock_size, block, n, level);
     if(*zstatus != 0){
       status = 1;
-- 
2.43.0


From c753f04cb325be1f6d17d8f0f7e93a38232afd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:40 +0000
Subject: [PATCH 78/95] fix: nbspsat -p: the prefix was ignored

---
 filters/filterlib/c/dcgini/nbspsat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgini/nbspsat.c b/filters/filterlib/c/dcgini/nbspsat.c
index 31493ce..ea018b0 100644
--- a/filters/filterlib/c/dcgini/nbspsat.c
+++ b/filters/filterlib/c/dcgini/nbspsat.c
@@ -262,7 +262,7 @@ static int process_file(void){
   }
 
   if(g.opt_output_fname == NULL){
-    fname = dcgini_default_name(&npdb, NULL, DCGINI_PNGEXT);
+    fname = dcgini_default_name(&npdb, g.opt_fname_prefix, DCGINI_PNGEXT);
     if(fname == NULL)
       log_err(1, "malloc()");
   }else{
@@ -493,7 +493,7 @@ static int write_file_info(void){
     }
   }
 
-  output_fname = dcgini_default_name(&npdb, NULL, DCGINI_PNGEXT);
+  output_fname = dcgini_default_name(&npdb, g.opt_fname_prefix, DCGINI_PNGEXT);
   if(output_fname == NULL)
     log_err(1, "Error from malloc().");
 
-- 
2.43.0


From 90e39eefee2452891c9941439e1cd876ddeab96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:38 +0000
Subject: [PATCH 79/95] fix: nbspsatgis: pi/180 had only three digits, which
 displaced the images by up to half a degree

---
 filters/filterlib/c/dcgini/dcgini_const.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcgini/dcgini_const.h b/filters/filterlib/c/dcgini/dcgini_const.h
index 3f516d1..a7d3f69 100644
--- a/filters/filterlib/c/dcgini/dcgini_const.h
+++ b/filters/filterlib/c/dcgini/dcgini_const.h
@@ -8,8 +8,8 @@
 #ifndef DCGINI_CONST_H
 #define DCGINI_CONST_H
 
-#define RAD_PER_DEG     0.0174          /* pi/180 */
-#define DEG_PER_RAD	57.2958		/* 180/pi */
+#define RAD_PER_DEG     0.017453292519943       /* pi/180 */
+#define DEG_PER_RAD	57.295779513082321	/* 180/pi */
 #define RE_METERS	6371200		/* Eart radius */
 
 #endif
-- 
2.43.0


From 08743ff7026ffc53022a0752ecab0f887763b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:46 +0000
Subject: [PATCH 80/95] fix: nbspradgis: pi/180 had only three digits, which
 turned the radials by up to one degree

---
 filters/filterlib/c/dcnids/dcnids_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_transform.c b/filters/filterlib/c/dcnids/dcnids_transform.c
index faaab5e..7b58acb 100644
--- a/filters/filterlib/c/dcnids/dcnids_transform.c
+++ b/filters/filterlib/c/dcnids/dcnids_transform.c
@@ -9,7 +9,7 @@
 #include "dcnids.h"
 
 #define KM_PER_DEG	111.111		/* R_E * pi/180 */
-#define RAD_PER_DEG	0.0174		/* pi/180 */
+#define RAD_PER_DEG	0.017453292519943	/* pi/180 */
 
 void dcnids_sine_cosine(double theta_deg,
 			double *sin_theta, double *cos_theta){
-- 
2.43.0


From 7e98f293402a87730746ab5d6805c402e43722f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:58 +0000
Subject: [PATCH 81/95] fix: mscheduler: the specifications of days and
 weekdays never matched, they were an error

---
 filters/filterlib/tcl/mscheduler.tcl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filters/filterlib/tcl/mscheduler.tcl b/filters/filterlib/tcl/mscheduler.tcl
index 75ea687..60b3a43 100644
--- a/filters/filterlib/tcl/mscheduler.tcl
+++ b/filters/filterlib/tcl/mscheduler.tcl
@@ -161,10 +161,10 @@ proc nbsp::mscheduler::match_dayspec {dayspec} {
     variable option;
 
     set seconds [clock seconds];
-    set ddhhmm [clock format $seconds -format "%d%H%M" $option(gmt)];
-    set hhmm [clock format $seconds -format "%H%M" $option(gmt)];
+    set ddhhmm [eval clock format $seconds -format "%d%H%M" $option(gmt)];
+    set hhmm [eval clock format $seconds -format "%H%M" $option(gmt)];
     set  Dhhmm "D$hhmm"; 
-    set day [clock format $seconds -format "%e" $option(gmt)];
+    set day [eval clock format $seconds -format "%e" $option(gmt)];
 
     set match 0;
     switch -glob $dayspec {
@@ -196,9 +196,9 @@ proc nbsp::mscheduler::match_wdayspec {wdayspec} {
     variable option;
 
     set seconds [clock seconds];
-    set wdayhhmm [clock format $seconds -format "%w%H%M" $option(gmt)];
-    set hhmm [clock format $seconds -format "%H%M" $option(gmt)];
-    set wday [clock format $seconds -format "%w" $option(gmt)];
+    set wdayhhmm [eval clock format $seconds -format "%w%H%M" $option(gmt)];
+    set hhmm [eval clock format $seconds -format "%H%M" $option(gmt)];
+    set wday [eval clock format $seconds -format "%w" $option(gmt)];
     set Whhmm "W$hhmm";
 
     set match 0;
-- 
2.43.0


From 5cd89334b7f725122c604d8bec522182835b2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:05 +0000
Subject: [PATCH 82/95] fix: periodic: a task registered as hourly first ran
 one minute late

---
 filters/filterlib/tcl/periodic.tcl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/tcl/periodic.tcl b/filters/filterlib/tcl/periodic.tcl
index 5f1560d..4e9e2e7 100644
--- a/filters/filterlib/tcl/periodic.tcl
+++ b/filters/filterlib/tcl/periodic.tcl
@@ -213,8 +213,9 @@ proc nbsp::periodic::_hourly_run_time_reset {now} {
 # now is the result of "clock seconds".
 #
     scan [clock format $now -format "%M"] "%d" current_minute;
+    scan [clock format $now -format "%S"] "%d" current_second;
 
-    return [expr $now - ($current_minute * 60) + 3600];
+    return [expr $now - ($current_minute * 60) - $current_second + 3600];
 }
 
 proc nbsp::periodic::_daily_run_time_reset {now} {
-- 
2.43.0


From 38c34fad9bfde25ea9c0a5e9f8b4b99f57c1591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:05 +0000
Subject: [PATCH 83/95] fix: periodic: daily tasks ran late, or an hour before,
 after a change of the hour

---
 filters/filterlib/tcl/periodic.tcl | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/filters/filterlib/tcl/periodic.tcl b/filters/filterlib/tcl/periodic.tcl
index 4e9e2e7..73c0a90 100644
--- a/filters/filterlib/tcl/periodic.tcl
+++ b/filters/filterlib/tcl/periodic.tcl
@@ -223,11 +223,9 @@ proc nbsp::periodic::_daily_run_time_reset {now} {
 # This function returns the time corresponding to the next day.
 # now is the result of "clock seconds".
 #
-    scan [clock format $now -format "%H"] "%d" current_hour;
-    scan [clock format $now -format "%M"] "%d" current_minute;
-    set current_minutes [expr ($current_hour * 60) + $current_minute];
+    set tomorrow [clock format [clock add $now 1 day] -format "%Y%m%d"];
 
-    return [expr $now - ($current_minutes * 60) + 24 * 3600];
+    return [clock scan $tomorrow -format "%Y%m%d"];
 }
 
 proc nbsp::periodic::_run_time_reset {now run_period} {
-- 
2.43.0


From c01acb59b50aefb52a645bc08e464634d97a5f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:25 +0000
Subject: [PATCH 84/95] fix: nbspscheduler: the variables of -M were defined
 after the schedule that uses them had been read

---
 filters/scheduler/tcl/nbspscheduler.tcl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/scheduler/tcl/nbspscheduler.tcl b/filters/scheduler/tcl/nbspscheduler.tcl
index d4eda8d..a5c8555 100755
--- a/filters/scheduler/tcl/nbspscheduler.tcl
+++ b/filters/scheduler/tcl/nbspscheduler.tcl
@@ -109,10 +109,10 @@ if {[file exists $rcfile] == 0} {
 }
 
 set g(cmdlist) [list];
-source_rcfile $rcfile;
-
 configure_defines $option(M);
 
+source_rcfile $rcfile;
+
 foreach cmd $g(cmdlist) {
     if {$option(v) == 1} {
 	::nbsp::syslog::msg "Executing $cmd";
-- 
2.43.0


From c5b89ac28ed2dae16a6dff2bc359ce93bf7aae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:56 +0000
Subject: [PATCH 85/95] fix: nbspinvrm: a line that starts with a null byte
 read and wrote before the buffer

---
 utils/nbspinvrm/nbspinvrm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nbspinvrm/nbspinvrm.c b/utils/nbspinvrm/nbspinvrm.c
index 24b5a86..f4ed982 100644
--- a/utils/nbspinvrm/nbspinvrm.c
+++ b/utils/nbspinvrm/nbspinvrm.c
@@ -117,7 +117,7 @@ static void process_file(char *input_file){
 
   while(fgets(fpath, FPATH_BUFFER_SIZE, g.fp) != NULL){
     size = strlen(fpath);
-    if(fpath[size - 1] == '\n'){
+    if((size > 0) && (fpath[size - 1] == '\n')){
       fpath[size - 1] = '\0';
       --size;
     }
-- 
2.43.0


From b784f455b959c1c0826a3f0076874aeaabafebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:50 +0000
Subject: [PATCH 86/95] fix: nbspcleanup: an error of find in a directory of
 inventories ended the script, and the following directories were not cleaned

---
 scripts/nbspcleanup.tcl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/nbspcleanup.tcl b/scripts/nbspcleanup.tcl
index 6a2f08f..f313663 100755
--- a/scripts/nbspcleanup.tcl
+++ b/scripts/nbspcleanup.tcl
@@ -206,6 +206,7 @@ proc process_dir_byinv {dir expression} {
 
     if {$status != 0} {
 	puts $errmsg;
+	return;
     }
 
     foreach invdir $invlist {
-- 
2.43.0


From f62708398706653974419e739911001ba73ea566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:50 +0000
Subject: [PATCH 87/95] fix: nbspcleanup: a wrong option, or a file that could
 not be deleted, ended the script

---
 scripts/nbspcleanup.tcl | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/scripts/nbspcleanup.tcl b/scripts/nbspcleanup.tcl
index f313663..d78a2d0 100755
--- a/scripts/nbspcleanup.tcl
+++ b/scripts/nbspcleanup.tcl
@@ -69,17 +69,25 @@ proc process_dir {dir expression} {
     puts "### Scheduled cleanup of $dir - [exec date]";
 
     set pwd [pwd];
-    cd $dir;
 
-    if {[regexp {^-c} $expression]} {
-	process_dir_bycount "." $expression;
-    } elseif {[regexp {^-i} $expression]} {
-	process_dir_byinv "." $expression;
-    } else {
-	process_dir_bytime "." $expression;
-    }
+    # An error in one directory must not prevent processing the others.
+    set status [catch {
+	cd $dir;
+
+	if {[regexp {^-c} $expression]} {
+	    process_dir_bycount "." $expression;
+	} elseif {[regexp {^-i} $expression]} {
+	    process_dir_byinv "." $expression;
+	} else {
+	    process_dir_bytime "." $expression;
+	}
+    } errmsg];
 
     cd $pwd;
+
+    if {$status != 0} {
+	puts $errmsg;
+    }
 }
 
 proc process_dir_bytime {dir expression} {
-- 
2.43.0


From 1d18d0b322922618b52b13b8eb05cd76c8297af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:50 +0000
Subject: [PATCH 88/95] fix: nbspcleanup: find expressions that begin with
 -cmin, -iname and similar were taken as the options -c and -i

---
 scripts/nbspcleanup.tcl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/nbspcleanup.tcl b/scripts/nbspcleanup.tcl
index d78a2d0..4b78802 100755
--- a/scripts/nbspcleanup.tcl
+++ b/scripts/nbspcleanup.tcl
@@ -74,9 +74,9 @@ proc process_dir {dir expression} {
     set status [catch {
 	cd $dir;
 
-	if {[regexp {^-c} $expression]} {
+	if {[regexp {^-c\s} $expression]} {
 	    process_dir_bycount "." $expression;
-	} elseif {[regexp {^-i} $expression]} {
+	} elseif {[regexp {^-i(\s|$)} $expression]} {
 	    process_dir_byinv "." $expression;
 	} else {
 	    process_dir_bytime "." $expression;
-- 
2.43.0


From c72da5046c5636ac1900b621e92baa0232d91043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:45 +0000
Subject: [PATCH 89/95] fix: nbspgrib, nbspgrib2, nbspradinfo, nbsprad2info,
 nbspsat, nbspsatinfo: output that could not be written was not reported

---
 filters/filterlib/c/dcgini/nbspsat.c     | 3 +++
 filters/filterlib/c/dcgini/nbspsatinfo.c | 3 +++
 filters/filterlib/c/dcnids/nbspradinfo.c | 3 +++
 filters/filterlib/c/nbspgrib.c           | 3 +++
 filters/filterlib/c/nbspgrib2.c          | 6 ++++++
 filters/filterlib/c/nbsprad2info.c       | 4 ++++
 6 files changed, 22 insertions(+)

diff --git a/filters/filterlib/c/dcgini/nbspsat.c b/filters/filterlib/c/dcgini/nbspsat.c
index ea018b0..36dd31e 100644
--- a/filters/filterlib/c/dcgini/nbspsat.c
+++ b/filters/filterlib/c/dcgini/nbspsat.c
@@ -185,6 +185,9 @@ int main(int argc, char **argv){
   else
     status = process_file();
 
+  if(fflush(stdout) != 0)
+    log_err(1, "Cannot write the output.");
+
   return(status != 0 ? 1 : 0);
 }
 
diff --git a/filters/filterlib/c/dcgini/nbspsatinfo.c b/filters/filterlib/c/dcgini/nbspsatinfo.c
index 0d78913..53d56f8 100644
--- a/filters/filterlib/c/dcgini/nbspsatinfo.c
+++ b/filters/filterlib/c/dcgini/nbspsatinfo.c
@@ -161,6 +161,9 @@ int write_file_info(char *in_file){
 
   output(&npdb, g.opt_extended_info);
 
+  if(fflush(stdout) != 0)
+    log_err(1, "Cannot write the output.");
+
   return(0);
 }
 
diff --git a/filters/filterlib/c/dcnids/nbspradinfo.c b/filters/filterlib/c/dcnids/nbspradinfo.c
index 7e173ad..1f5d6e0 100644
--- a/filters/filterlib/c/dcnids/nbspradinfo.c
+++ b/filters/filterlib/c/dcnids/nbspradinfo.c
@@ -211,6 +211,9 @@ int process_file(void){
 	    nheader.pdb_code);
   }
 
+  if(fflush(stdout) != 0)
+    log_err(1, "Cannot write the output.");
+
   /*
    * If reading from stdin, then consume the input to avoid generating
    * a pipe error in the tcl scripts.
diff --git a/filters/filterlib/c/nbspgrib.c b/filters/filterlib/c/nbspgrib.c
index defd073..4853fce 100644
--- a/filters/filterlib/c/nbspgrib.c
+++ b/filters/filterlib/c/nbspgrib.c
@@ -206,6 +206,9 @@ static int process_file(void){
 
   fprintf(stdout, "\n");
 
+  if(fflush(stdout) != 0)
+    log_err(1, "Cannot write the output.");
+
   return(status);
 }
 
diff --git a/filters/filterlib/c/nbspgrib2.c b/filters/filterlib/c/nbspgrib2.c
index 0fc2c8f..7d75345 100644
--- a/filters/filterlib/c/nbspgrib2.c
+++ b/filters/filterlib/c/nbspgrib2.c
@@ -211,6 +211,9 @@ static int process_file(void){
     fprintf(stdout, " %.2hu%.2hu%.2hu%.2hu%.2hu\n",
 	    yyyy, mm, dd, hh, MM);
 
+    if(fflush(stdout) != 0)
+      log_err(1, "Cannot write the output.");
+
     return(0);
   }
 
@@ -247,6 +250,9 @@ static int process_file(void){
 
   fprintf(stdout, "\n");
 
+  if(fflush(stdout) != 0)
+    log_err(1, "Cannot write the output.");
+
   destroy_grib2_section(grb);
 
   return(status);
diff --git a/filters/filterlib/c/nbsprad2info.c b/filters/filterlib/c/nbsprad2info.c
index ce66227..709468f 100644
--- a/filters/filterlib/c/nbsprad2info.c
+++ b/filters/filterlib/c/nbsprad2info.c
@@ -171,6 +171,10 @@ int process_file(void){
 	    header.tape_filename, header.extension_number,
 	    header.julianday, header.milliseconds,
 	    header.seconds, header.icao);
+
+  if(fflush(stdout) != 0)
+    log_err(1, "Cannot write the output.");
+
   /*
    * If reading from stdin, then consume the input to avoid generating
    * a pipe error in the tcl scripts.
-- 
2.43.0


From 71e2eea1e43f76caf2f5d9efa68eaa8d10d9ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:50 +0000
Subject: [PATCH 90/95] fix: filters.lib: nbsprad2info was never executed, so
 that the level 2 variables were not set

---
 filters/filterlib/tcl/filters.lib | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/tcl/filters.lib b/filters/filterlib/tcl/filters.lib
index 276eab1..3323427 100644
--- a/filters/filterlib/tcl/filters.lib
+++ b/filters/filterlib/tcl/filters.lib
@@ -397,7 +397,7 @@ proc filterlib_get_rcvars {rc_name finfo args} {
 
     if {[regexp {^level2} $rc(wmoid)] && ($dorad == 1)} {
 	set rad2info_status [catch {
-	    set rad2info [split [nbsprad2info -b -t $rc(fpath)]];
+	    set rad2info [split [exec nbsprad2info -b -t $rc(fpath)]];
 	} errmsg];
 
 	if {$rad2info_status == 0} {
-- 
2.43.0


From 514db0b3c8f9c80505f175d86e7da0b0e11191c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:51 +0000
Subject: [PATCH 91/95] fix: filters.lib: filterlib_exec_nbsppipe used a
 variable before it was set and always failed

---
 filters/filterlib/tcl/filters.lib | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/tcl/filters.lib b/filters/filterlib/tcl/filters.lib
index 3323427..6bce69b 100644
--- a/filters/filterlib/tcl/filters.lib
+++ b/filters/filterlib/tcl/filters.lib
@@ -843,6 +843,6 @@ proc filterlib_exec_nbsppipe {seq fpath pipe_cmd args} {
 	lappend opts "-n";
     }
 
-    set cmd [concat "nbsppipe" $cmd $opts "-s" $seq "<" $fpath "|" $pipe_cmd];
+    set cmd [concat "nbsppipe" $opts "-s" $seq "<" $fpath "|" $pipe_cmd];
     filterlib_exec $cmd;
 }
-- 
2.43.0


From 13719fd460a155dfbccfad2bf51cb8006b4dca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:51 +0000
Subject: [PATCH 92/95] fix: filters.lib: filterlib_stripcr failed with an
 empty body

---
 filters/filterlib/tcl/filters.lib | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filters/filterlib/tcl/filters.lib b/filters/filterlib/tcl/filters.lib
index 6bce69b..22f25be 100644
--- a/filters/filterlib/tcl/filters.lib
+++ b/filters/filterlib/tcl/filters.lib
@@ -494,6 +494,7 @@ proc filterlib_cmdfound cmdname {
 
 proc filterlib_stripcr {body} {
 
+    set r "";
     set lines [split $body "\n"];
     foreach l $lines {
 	append r [string trimright $l] "\n";
-- 
2.43.0


From 365a899a460373b3a7a5f7978209228198d87e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:51 +0000
Subject: [PATCH 93/95] fix: filters.lib: filterlib_nbsppipe ignored its
 options, and filterlib_nbsppipe_F its errors

---
 filters/filterlib/tcl/filters.lib | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/tcl/filters.lib b/filters/filterlib/tcl/filters.lib
index 22f25be..6fe11ab 100644
--- a/filters/filterlib/tcl/filters.lib
+++ b/filters/filterlib/tcl/filters.lib
@@ -680,7 +680,7 @@ proc filterlib_nbsppipe {seq inputfile cmd_line args} {
     set status [catch {
 	set fout [open "|$cmd_line" "w"];
 	fconfigure $fout -translation binary -encoding binary;
-	filterlib_nbsppipe_F $seq $inputfile $fout $args;
+	eval filterlib_nbsppipe_F [list $seq $inputfile $fout] $args;
     } errmsg];
 
     if {[info exists fout]} {
@@ -739,7 +739,7 @@ proc filterlib_nbsppipe_F {seq inputfile fout args} {
     }
 
     if {$status != 0} {
-        return error -code $errmsg;
+        return -code error $errmsg;
     }
 }
 
-- 
2.43.0


From ae242e89973fc62cc25b6845ae98b92b0c7f3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:51 +0000
Subject: [PATCH 94/95] fix: filters.lib: an error in the last write of
 filterlib_nbspfile or filterlib_nbsppipe was passed on and not logged

---
 filters/filterlib/tcl/filters.lib | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/tcl/filters.lib b/filters/filterlib/tcl/filters.lib
index 6fe11ab..9554d4c 100644
--- a/filters/filterlib/tcl/filters.lib
+++ b/filters/filterlib/tcl/filters.lib
@@ -659,7 +659,11 @@ proc filterlib_nbspfile {seq inputfile outputdir outputfile args} {
         close $fin;
     }
     if {[info exists fout]} {
-        close $fout;
+        set close_status [catch {close $fout} close_errmsg];
+        if {($status == 0) && ($close_status != 0)} {
+            set status $close_status;
+            set errmsg $close_errmsg;
+        }
     }
 
     if {$status != 0} {
@@ -684,7 +688,11 @@ proc filterlib_nbsppipe {seq inputfile cmd_line args} {
     } errmsg];
 
     if {[info exists fout]} {
-	close $fout;
+        set close_status [catch {close $fout} close_errmsg];
+        if {($status == 0) && ($close_status != 0)} {
+            set status $close_status;
+            set errmsg $close_errmsg;
+        }
     }
 
     if {$status != 0} {
-- 
2.43.0


From 0e5cca4525bf8beb0c5d9d1e94871339860dacec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:51 +0000
Subject: [PATCH 95/95] fix: nbsp::util::split_first: the second part lost what
 it had in common with the separator

---
 filters/filterlib/tcl/util.tcl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/tcl/util.tcl b/filters/filterlib/tcl/util.tcl
index 1f3f57f..571f438 100644
--- a/filters/filterlib/tcl/util.tcl
+++ b/filters/filterlib/tcl/util.tcl
@@ -87,7 +87,10 @@ proc nbsp::util::split_first {str substr} {
 # by the first instance of substr.
 #
     set i [string first $substr $str];
-    set s2 [string trimleft [string range $str $i end] $substr];
+    set s2 $str;
+    if {$i != -1} {
+	set s2 [string range $str [expr $i + [string length $substr]] end];
+    }
     incr i -1;
     set s1 [string range $str 0 $i];
 
-- 
2.43.0

