From 6e996b1b94e0b6aae5206d69f4f5b3aed6a9204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 001/112] fix: update(minTime) returned up to a second early
 across a second boundary

---
 src/jsiCmds.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 58061ec..c36ef30 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -421,10 +421,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         if (udata.minTime==0)
             break;
         jsiGetTime(&cur_sec, &cur_ms);
-        if (cur_sec == start_sec)
-            diftime = (long long)(cur_ms-start_ms);
-        else
-            diftime = (cur_sec-start_sec)*1000LL + cur_ms + (1000-start_ms);
+        diftime = (cur_sec-start_sec)*1000LL + (cur_ms-start_ms);
         if (udata.minTime>0 && diftime >= (long long)udata.minTime)
             break;
         if (udata.maxPasses && ++lcnt >= udata.maxPasses)
-- 
2.43.0


From 611c352b6b505ec400a0a20dac36c04fb27a5a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 002/112] fix: timers due at a whole second fired immediately

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index c36ef30..0796643 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -270,7 +270,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
         case JSI_EVENT_TIMER:
             if (cur_sec <= evPtr->when_sec && (cur_sec != evPtr->when_sec || cur_ms < evPtr-> when_ms)) {
-                if (evPtr->when_sec && evPtr->when_ms)
+                if (evPtr->when_sec || evPtr->when_ms)
                     continue;
             }
             cnt++;
-- 
2.43.0


From f4fff2ff0ae94a620b65b9b64fa141f13b5d15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 003/112] fix: event callbacks that cancel or create events
 corrupted the event table

---
 src/jsiCmds.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 0796643..1ef726e 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -204,12 +204,17 @@ static void jsiGetTime(long *seconds, long *milliseconds)
 
 void Jsi_EventFree(Jsi_Interp *interp, Jsi_Event* event) {
     SIGASSERTV(event,EVENT);
-    if (event->funcVal)
-        Jsi_DecrRefCount(interp, event->funcVal);
     if (event->hPtr) {
         Jsi_HashValueSet(event->hPtr, NULL);
         Jsi_HashEntryDelete(event->hPtr);
+        event->hPtr = NULL;
     }
+    if (event->busy) { /* Still in its callback: Jsi_EventProcess frees it afterwards. */
+        event->once = 1;
+        return;
+    }
+    if (event->funcVal)
+        Jsi_DecrRefCount(interp, event->funcVal);
     _JSI_MEMCLEAR(event);
     Jsi_Free(event);
 }
@@ -252,10 +257,18 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
     /*if (Jsi_MutexLock(interp, interp->Mutex) != JSI_OK)
         return JSI_ERROR;*/
 
+    /* Callbacks can add and remove events, so iterate over the ids present at the start. */
+    int i, nids = 0;
+    uintptr_t *ids = (uintptr_t*)Jsi_Malloc(sizeof(*ids)*(Jsi_HashSize(interp->eventTbl)+1));
     for (hPtr = Jsi_HashSearchFirst(interp->eventTbl, &search);
-            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search)) {
+            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search))
+        ids[nids++] = (uintptr_t)Jsi_HashKeyGet(hPtr);
+
+    for (i = 0; i < nids; i++) {
 
-        if (!(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
+        if (!(hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)ids[i])))
+            continue;
+        if (!(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)) || evPtr->busy)
             continue;
         SIGASSERT(evPtr,EVENT);
         if ((int)evPtr->id > newIdx) /* Avoid infinite loop of event creating events. */
@@ -281,8 +294,6 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         default:
             assert(0);
         }
-        if (evPtr->busy)
-            continue;
         evPtr->busy = 1;
         if (evPtr->handler) {
             rc = evPtr->handler(interp, evPtr->data);
@@ -297,11 +308,15 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         }
         evPtr->busy = 0;
         if (interp->deleting) {
+            if (!evPtr->hPtr)
+                Jsi_EventFree(interp, evPtr);
             cnt = -1;
             goto bail;
         }
         if (rc != JSI_OK) {
             if (interp->exited) {
+                if (!evPtr->hPtr)
+                    Jsi_EventFree(interp, evPtr);
                 cnt = rc;
                 goto bail;
             }
@@ -321,6 +336,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
     }
 bail:
+    Jsi_Free(ids);
     if (vpargs)
         Jsi_DecrRefCount(interp, vpargs);
     if (nret)
-- 
2.43.0


From 883d2cd2ee4edc412c4f1f8342cdff49ec15c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 004/112] fix: Channel methods used the freed handle of a
 closed channel

---
 src/jsiFilesys.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3d38a24..8d27be3 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -770,6 +770,11 @@ static int try_open_file(Jsi_Interp *interp, FileObj *udf, Jsi_Value *args)
     if (!udf) \
         return Jsi_LogError("Channel.%s called with non-file object", funcPtr->cmdSpec->name);
 
+#define UdfGetOpen(udf, _this, funcPtr) \
+    UdfGet(udf, _this, funcPtr) \
+    if (!udf->filename) \
+        return Jsi_LogError("Channel.%s called on closed channel", funcPtr->cmdSpec->name);
+
 static Jsi_RC FilesysOpenCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -817,7 +822,7 @@ static Jsi_RC FilesysModeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     UdfGet(udf, _this, funcPtr);
-    if (udf->mode)
+    if (udf->filename && udf->mode)
         Jsi_ValueMakeStringKey(interp, ret, udf->mode);
     return JSI_OK;
 }
@@ -874,7 +879,7 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 {
     static const char *posStr[] = { "set", "cur", "end", NULL };
     enum { W_SET, W_CUR, W_END };
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Value *vWhence = Jsi_ValueArrayIndex(interp, args, 1);
     int mode = 0, p;
@@ -898,7 +903,7 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Number num;
     if (Jsi_ValueGetNumber(interp, vPos, &num) != JSI_OK)
@@ -911,7 +916,7 @@ static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
 static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 0);
 #else
@@ -922,7 +927,7 @@ static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 1);
 #else
@@ -933,7 +938,7 @@ static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Wide pos = Jsi_Tell(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -942,7 +947,7 @@ static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysFlushCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     int pos = Jsi_Flush(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -995,7 +1000,7 @@ static Jsi_RC FilesysPutsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysEofCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_ValueMakeBool(interp, ret, Jsi_Eof(interp, udf->chan));
     return JSI_OK;
 }
-- 
2.43.0


From 847bc10933e2f13ff3e87a33e2e1a1d7d42bbeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 005/112] fix: Channel.open and Channel.close reported success
 when they failed

---
 src/jsiFilesys.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 8d27be3..9fe8549 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -37,7 +37,7 @@ typedef struct FileObj {
     int objId;
 } FileObj;
 
-static void fileObjErase(FileObj *fo);
+static int fileObjErase(FileObj *fo);
 static Jsi_RC fileObjFree(Jsi_Interp *interp, void *data);
 static bool fileObjIsTrue(void *data);
 static bool fileObjEqual(void *data1, void *data2);
@@ -592,8 +592,7 @@ int Jsi_Close(Jsi_Interp *interp, Jsi_Channel chan) {
     if (chan->fsPtr==0 || !chan->fsPtr->closeProc) return -1;
     if (chan->flags&JSI_FS_NOCLOSE) return -1;
     int rc = chan->fsPtr->closeProc(chan);
-    if (rc == 0)
-        Jsi_Free(chan);
+    Jsi_Free(chan);
     return rc;
 }
 int Jsi_Flush(Jsi_Interp *interp, Jsi_Channel chan) {
@@ -699,15 +698,17 @@ char *Jsi_Realpath(Jsi_Interp *interp, Jsi_Value *src, char *newname)
 }
 
 
-static void fileObjErase(FileObj *fo)
+static int fileObjErase(FileObj *fo)
 {
+    int rc = 0;
     if (fo->filename) {
-        Jsi_Close(fo->interp, fo->chan);
+        rc = Jsi_Close(fo->interp, fo->chan);
         Jsi_Free(fo->filename);
         Jsi_DecrRefCount(fo->interp, fo->fname);
         Jsi_Free(fo->mode);
     }
     fo->filename = NULL;
+    return rc;
 }
 
 static Jsi_RC fileObjFree(Jsi_Interp *interp, void *data)
@@ -779,10 +780,7 @@ static Jsi_RC FilesysOpenCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     UdfGet(udf, _this, funcPtr);
-    if (try_open_file(interp, udf, args) != JSI_OK) {
-        Jsi_ValueMakeBool(interp, ret, 0);
-    }
-    Jsi_ValueMakeBool(interp, ret, 1);
+    Jsi_ValueMakeBool(interp, ret, (try_open_file(interp, udf, args) == JSI_OK));
     return JSI_OK;
 }
 
@@ -790,8 +788,7 @@ static Jsi_RC FilesysCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     UdfGet(udf, _this, funcPtr);
-    fileObjErase(udf);
-    Jsi_ValueMakeBool(interp, ret, 1);
+    Jsi_ValueMakeBool(interp, ret, (fileObjErase(udf) == 0));
     return JSI_OK;
 }
 
-- 
2.43.0


From 5442c5583f6cda2063751ddb8f9625020ad8eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 006/112] fix: File.write reported success for data that was
 not written

---
 src/jsiFileCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 17a5332..6e7fdbe 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -486,7 +486,8 @@ static Jsi_RC FileWriteCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         sum += n;
         cnt++;
     }
-    Jsi_Close(interp, chan);
+    if (Jsi_Close(interp, chan) != 0 || len > 0)
+        return Jsi_LogError("failed write: %s", GSVal(fname));
     /* TODO: handle nulls. */
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)sum);
     return JSI_OK;
-- 
2.43.0


From 464671a9df563857c633fb5184287d3672614215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 007/112] fix: a read error was taken for the end of the file

---
 src/jsiFileCmds.c |  8 ++++++++
 src/jsiFilesys.c  | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 6e7fdbe..26d1ede 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -435,6 +435,10 @@ Jsi_RC Jsi_FileRead(Jsi_Interp *interp, Jsi_Value *name, Jsi_DString *dStr) {
         sum += n;
     }
     Jsi_Close(interp, chan);
+    if (n < 0) {
+        Jsi_DSFree(dStr);
+        return Jsi_LogError("failed read: %s", GSVal(name));
+    }
     return JSI_OK;
 }
 
@@ -457,6 +461,10 @@ static Jsi_RC FileReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         sum += n;
     }
     Jsi_Close(interp, chan);
+    if (n < 0) {
+        Jsi_DSFree(&dStr);
+        return Jsi_LogError("failed read: %s", GSVal(fname));
+    }
     Jsi_ValueMakeDStringObject(interp, ret, &dStr);
     return JSI_OK;
 }
diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 9fe8549..864e326 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -176,7 +176,13 @@ static int jsi_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
 }
 
 static int jsi_FSReadProc(Jsi_Channel chan, char *buf, int size) {
-    return fread(buf, 1, size, _JSI_GETFP(chan,0));
+    FILE *fp = _JSI_GETFP(chan,1);
+    int n = fread(buf, 1, size, fp);
+    if (n <= 0 && ferror(fp)) {
+        clearerr(fp);
+        return -1;
+    }
+    return n;
 }
 
 #ifdef __WIN32
@@ -836,7 +842,7 @@ static Jsi_RC FilesysFilenameCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
 static Jsi_RC FilesysReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    int  sum = 0, n;
+    int  sum = 0, n = 0;
     Jsi_DString dStr;
     Jsi_DSInit(&dStr);
     UdfGet(udf, _this, funcPtr);
@@ -860,6 +866,10 @@ static Jsi_RC FilesysReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         if (nsiz>=0 && sum >=nsiz)
             break;
     }
+    if (n < 0) {
+        Jsi_DSFree(&dStr);
+        return Jsi_LogError("read failed: %s", udf->filename);
+    }
     if (Jsi_DSLength(&dStr)>0)
         Jsi_ValueMakeDStringObject(interp, ret, &dStr);
     return JSI_OK;
-- 
2.43.0


From 71a63ff55438620ac08315e0cdb5ff1b5b893458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 008/112] fix: File.copy reported success for an incomplete
 copy

---
 src/jsiFileCmds.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 26d1ede..bc286bc 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -536,11 +536,13 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
         Jsi_Remove(interp, dest, 0);
     }
     Jsi_Channel och = Jsi_Open(interp, dest, "wb+");
-    if (!och)
+    if (!och) {
+        Jsi_Close(interp, ich);
         return -1;
+    }
+    int n;
     while (1) {
         char buf[JSI_BUFSIZ];
-        int n;
         n = Jsi_Read(interp, ich, buf, JSI_BUFSIZ);
         if (n<=0)
             break;
@@ -557,7 +559,8 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
     Jsi_Chmod(interp, dest, sb.st_mode);
 #endif
     Jsi_Close(interp, ich);
-    Jsi_Close(interp, och);
+    if (Jsi_Close(interp, och) != 0 || n < 0)
+        return -1;
     return 0;
 }
 
-- 
2.43.0


From 0e7cbc171a09c6158158c5f8f74e4a9c5a6c18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 009/112] fix: Channel writes, flush and close lost earlier
 stdio errors

---
 src/jsiFilesys.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 864e326..e71952e 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -163,16 +163,28 @@ static int jsi_FSLstatProc(Jsi_Interp *interp, Jsi_Value* path, Jsi_StatBuf *buf
     return rc;
 #endif
 }
-static int jsi_FSFlushProc(Jsi_Channel chan) { return fflush(_JSI_GETFP(chan,0));}
+static int jsi_FSFlushProc(Jsi_Channel chan) {
+    FILE *fp = _JSI_GETFP(chan,0);
+    int rc = fflush(fp);
+    return (ferror(fp) ? -1 : rc);
+}
 static int jsi_FSTellProc(Jsi_Channel chan) { return ftell(_JSI_GETFP(chan,1));}
 static int jsi_FSEofProc(Jsi_Channel chan) { return feof(_JSI_GETFP(chan,1));}
 static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) { return ftruncate(fileno(_JSI_GETFP(chan,1)), len);}
 static int jsi_FSRewindProc(Jsi_Channel chan) { rewind(_JSI_GETFP(chan,1)); return 0;}
-static int jsi_FSCloseProc(Jsi_Channel chan) { return fclose(_JSI_GETFP(chan,1));}
+static int jsi_FSCloseProc(Jsi_Channel chan) {
+    FILE *fp = _JSI_GETFP(chan,1);
+    int err = ferror(fp); /* Buffered data lost by an earlier write. */
+    int rc = fclose(fp);
+    return (err ? -1 : rc);
+}
 static int jsi_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) { return fseek(_JSI_GETFP(chan,1), offset, mode);}
 
 static int jsi_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
-    return fwrite(buf, 1, size, _JSI_GETFP(chan,0));
+    FILE *fp = _JSI_GETFP(chan,0);
+    int n = fwrite(buf, 1, size, fp);
+    /* After an error stdio may have dropped buffered data, so the rest can not just be retried. */
+    return (ferror(fp) ? -1 : n);
 }
 
 static int jsi_FSReadProc(Jsi_Channel chan, char *buf, int size) {
-- 
2.43.0


From 5ded75f230fb39bb1aa9771fb10e28936b70649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 010/112] fix: a script cut short by a read error was evaluated

---
 src/jsiEval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3ab20bb..8238edb 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2647,6 +2647,10 @@ cont:
             }
             if (cnt>=MAX_LOOP_COUNT)
                 Jsi_LogError("source file too large");
+            else if (Jsi_Eof(interp, input) == 0) { // Do not evaluate a truncated script.
+                rc = Jsi_LogError("failed read: %s", fname);
+                goto bail;
+            }
             if (flags&JSI_EVAL_IMPORT)
                 Jsi_DSAppend(&dStr, "})(); ", NULL);
             str = Jsi_DSValue(&dStr);
-- 
2.43.0


From a6841872f8f5bb23e7311d2950f922f6f699ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 011/112] fix: Util.hash ignored read errors of its file

---
 src/jsiCmds.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 1ef726e..598804e 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4519,13 +4519,14 @@ static Jsi_RC SysHashCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             rc = Jsi_LogError("unable to open file");
             goto done;
         }
-        for(;;) {
-            int n;
-            n = Jsi_Read(interp, in, zbuf, sizeof(zbuf));
-            if( n<=0 ) break;
-            Jsi_DSAppendLen(&dStr, zbuf, n);;
-        }
+        int nr;
+        while ((nr = Jsi_Read(interp, in, zbuf, sizeof(zbuf))) > 0)
+            Jsi_DSAppendLen(&dStr, zbuf, nr);
         Jsi_Close(interp, in);
+        if (nr < 0) {
+            rc = Jsi_LogError("failed read");
+            goto done;
+        }
     }
     cp = Jsi_DSValue(&dStr);
     n = Jsi_DSLength(&dStr);
-- 
2.43.0


From 7e930ea014fb0c5e8587bb5477fbf633e3b66945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 012/112] fix: a read that recovered from an error made the
 later close fail

---
 src/jsiFilesys.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index e71952e..15fab9b 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -190,9 +190,10 @@ static int jsi_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
 static int jsi_FSReadProc(Jsi_Channel chan, char *buf, int size) {
     FILE *fp = _JSI_GETFP(chan,1);
     int n = fread(buf, 1, size, fp);
-    if (n <= 0 && ferror(fp)) {
+    if (ferror(fp)) {
         clearerr(fp);
-        return -1;
+        if (n <= 0)
+            return -1;
     }
     return n;
 }
-- 
2.43.0


From 502df49c623d4df127fcf6d62334f0c29b59aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 013/112] fix: an error left by a seek made the next read or
 write fail

---
 src/jsiFilesys.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 15fab9b..f8b47eb 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -182,14 +182,18 @@ static int jsi_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) { return
 
 static int jsi_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
     FILE *fp = _JSI_GETFP(chan,0);
+    int old = ferror(fp);
     int n = fwrite(buf, 1, size, fp);
     /* After an error stdio may have dropped buffered data, so the rest can not just be retried. */
-    return (ferror(fp) ? -1 : n);
+    return ((n < size || (!old && ferror(fp))) ? -1 : n);
 }
 
 static int jsi_FSReadProc(Jsi_Channel chan, char *buf, int size) {
     FILE *fp = _JSI_GETFP(chan,1);
-    int n = fread(buf, 1, size, fp);
+    int n;
+    if (ferror(fp))
+        clearerr(fp);
+    n = fread(buf, 1, size, fp);
     if (ferror(fp)) {
         clearerr(fp);
         if (n <= 0)
-- 
2.43.0


From 54613b9347759d27366669f703e1c05df926acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 014/112] fix: Sqlite conf() no longer drops handlers and busy
 timeout that are already set

---
 src/jsiSqlite.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 395ec53..1d8c9a6 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3510,52 +3510,52 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth && (!ojdb || !ojdb->onAuth) )
+    if (db->onAuth)
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
 
-    if (db->onCommit && (!ojdb || !ojdb->onCommit) )
+    if (db->onCommit)
         sqlite3_commit_hook(db->db, dbCommitHandler, db);
     else
         sqlite3_commit_hook(db->db, 0, 0);
 
-    if (db->onBusy && (!ojdb || !ojdb->onBusy) )
+    if (db->onBusy)
         sqlite3_busy_handler(db->db, dbBusyHandler, db);
     else
-        sqlite3_busy_handler(db->db, 0, 0);
+        sqlite3_busy_timeout( db->db, db->timeout );
     
-    if (db->onTrace && (!ojdb || !ojdb->onTrace) )
+    if (db->onTrace)
         sqlite3_trace(db->db, dbTraceHandler, db);
     else
         sqlite3_trace(db->db, 0, 0);
 
-    if (db->onNeedCollate && (!ojdb || !ojdb->onNeedCollate) )
+    if (db->onNeedCollate)
         sqlite3_collation_needed(db->db, db, dbCollateNeeded);
     else
         sqlite3_collation_needed(db->db, 0, 0);
 
-    if (db->onUpdate && (!ojdb || !ojdb->onUpdate) )
+    if (db->onUpdate)
         sqlite3_update_hook(db->db, dbUpdateHandler, db);
     else
         sqlite3_update_hook(db->db, 0, 0);
 
-    if (db->onWalHook && (!ojdb || !ojdb->onWalHook) )
+    if (db->onWalHook)
         sqlite3_wal_hook(db->db, dbWalHandler, db);
     else
         sqlite3_wal_hook(db->db, 0, 0);
 
-    if (db->onRollback && (!ojdb || !ojdb->onRollback) )
+    if (db->onRollback)
         sqlite3_rollback_hook(db->db, dbRollbackHandler, db);
     else
         sqlite3_rollback_hook(db->db, 0, 0);
 
-    if (db->onProfile && (!ojdb || !ojdb->onProfile) )
+    if (db->onProfile)
         sqlite3_profile(db->db, dbProfileHandler, db);
     else
         sqlite3_profile(db->db, 0, 0);
 
-    if (db->onProgress && db->progressSteps && (!ojdb || !ojdb->onProgress || ojdb->progressSteps != db->progressSteps) )
+    if (db->onProgress && db->progressSteps)
         sqlite3_progress_handler(db->db, db->progressSteps, dbProgressHandler, db);
     else
         sqlite3_progress_handler(db->db, 0, 0, 0);
@@ -3563,9 +3563,6 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
     if (!ojdb || db->load != ojdb->load)
         sqlite3_enable_load_extension(db->db, db->load);
 
-    if (!ojdb || db->timeout != ojdb->timeout)
-        sqlite3_busy_timeout( db->db, db->timeout );
-
 /*    if (db->onUnlock && (!ojdb || !ojdb->onUnlock) )
         sqlite3_unlock_notify(db->db, dbUnlockNotify, (void*)db);
     else
-- 
2.43.0


From 647cbe168760667d5d513996d2301f2446afcb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 015/112] fix: pass the db argument to Sqlite onCommit and
 onRollback handlers

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 1d8c9a6..60fc182 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1196,7 +1196,7 @@ static int dbCommitHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, NULL, &ret, NULL) ) {
+    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, vpargs, &ret, NULL) ) {
         db->errCnt++;
         rc = 1;
     } else
@@ -1240,7 +1240,7 @@ static void dbRollbackHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    Jsi_FunctionInvoke(interp, db->onRollback, NULL, &ret, NULL);
+    Jsi_FunctionInvoke(interp, db->onRollback, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
     Jsi_DecrRefCount(interp, ret);
 }
-- 
2.43.0


From 60353dc8b84f10f8ad1189d1a3e9e06b9b19a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 016/112] fix: transaction(callback,type) takes its arguments
 in the documented order

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 60fc182..2e1eb8b 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3405,7 +3405,7 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
     const char *zBegin = "SAVEPOINT _jsi_transaction";
 
     if( db->nTransaction==0 && argc==2 ) {
-        Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 0);
+        Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 1);
         static const char *TTYPE_strs[] = {
             "deferred",   "exclusive",  "immediate", 0
         };
@@ -3429,7 +3429,7 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
             break;
         }
     }
-    pScript = Jsi_ValueArrayIndex(interp, args, argc-1);
+    pScript = Jsi_ValueArrayIndex(interp, args, 0);
     if(!Jsi_ValueIsFunction(interp, pScript)) 
         return Jsi_LogErrorExt("expected function");
 
-- 
2.43.0


From 8db045f34cd942ada4c62a30981430a5eefd94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 017/112] fix: a query that finds the database locked says so
 instead of raising an empty error

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2e1eb8b..20d3145 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -499,6 +499,8 @@ static Jsi_RC dbEvalStepSub(DbEvalContext *p, int release, int *erc) {
     rcs = sqlite3_step(pStmt);
     if( rcs==SQLITE_BUSY ) {
         if (erc) *erc = -2;
+        else
+            Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
         return JSI_ERROR;
     }
     if( rcs==SQLITE_ROW ) {
-- 
2.43.0


From 8240389ebaccdeb2b4d09a22c80b440b69ff00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 018/112] fix: an error caught after a thrown value reported
 the earlier throw's message

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 8238edb..fa49499 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1981,8 +1981,8 @@ undef_eval:
                         Jsi_ValueReset(interp, &ps->last_exception);
                     } else {
                         Jsi_ValueMakeStringDup(interp, &excpt, interp->errMsgBuf);
-                        interp->errMsgBuf[0] = 0;
                     }
+                    interp->errMsgBuf[0] = 0;
                     Jsi_ValueInsert(interp, currentScope, (char*)ip->data, excpt, JSI_OM_DONTENUM);
                     Jsi_DecrRefCount(interp, excpt);
                     context_id = ps->_context_id++;
-- 
2.43.0


From 0f5525a47a0007ae090d2b9dd0d89b8efddd72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 019/112] fix: an error raised by a query's row callback was
 swallowed

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 20d3145..857637f 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1945,10 +1945,12 @@ static Jsi_RC dbEvalCallCmd( DbEvalContext *p, Jsi_Interp *interp, Jsi_RC result
             Jsi_ObjInsert(interp, argso, apColName[i], nnv, 0);
         }
         Jsi_IncrRefCount(interp, varg1);
-        bool rb = Jsi_FunctionInvokeBool(interp, p->tocall, varg1, NULL);
+        int rb = Jsi_FunctionInvokeBool(interp, p->tocall, varg1, NULL);
         Jsi_DecrRefCount(interp, varg1);
         if (Jsi_InterpGone(interp))
             return JSI_ERROR;
+        if (rb == 2) // Callback raised an error.
+            return JSI_ERROR;
         if (rb)
             break;
     }
-- 
2.43.0


From 97bf7e418eb0caec84a252e5fbe0e7f94c78589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 020/112] fix: running a query again inside its own row
 callback corrupted the statement cache

---
 src/jsiSqlite.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 857637f..68bd894 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -157,6 +157,7 @@ typedef struct SqlPreparedStmt SqlPreparedStmt;
 struct SqlPreparedStmt {
     Sqlite_Sig sig;
     int deleting;
+    int inUse;               /* Handed out by dbPrepareStmt and not yet released */
     SqlPreparedStmt *pNext;  /* Next in linked list */
     SqlPreparedStmt *pPrev;  /* Previous on the list */
     sqlite3_stmt    *pStmt;  /* The prepared statement */
@@ -569,10 +570,9 @@ static void dbPrepStmtFree( Jsi_Db *db, SqlPreparedStmt *prep)
 
 static void dbPrepStmtLimit( Jsi_Db *db)
 {
-    while(db->stmtCacheCnt>db->stmtCacheMax ) {
+    while((db->stmtCacheCnt = Jsi_ListSize(db->stmtCache))>db->stmtCacheMax ) {
         Jsi_ListEntry *l = Jsi_ListPopBack(db->stmtCache);
         dbPrepStmtFree(db, (SqlPreparedStmt*)Jsi_ListValueGet(l));
-        db->stmtCacheCnt = Jsi_ListSize(db->stmtCache);
     }
 }
 
@@ -620,8 +620,9 @@ static void dbReleaseStmt(
         Jsi_DecrRefCount(interp, pPreStmt->apParm[i]);
     }*/
     //pPreStmt->nParm = 0;
+    pPreStmt->inUse = 0;
 
-    if( db->stmtCacheMax<=0 || discard ) {
+    if( db->stmtCacheMax<=0 || discard || !pPreStmt->entry ) {
         /* If the cache is turned off, deallocated the statement */
         dbPrepStmtFree(db, pPreStmt);
     } else {
@@ -696,7 +697,9 @@ static Jsi_RC dbPrepareStmt(
     }
     //nSql = Jsi_Strlen(zSql);
     Jsi_HashEntry *entry = Jsi_HashEntryFind(db->stmtHash, zSql);
-    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry)))) {
+    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry))) && pPreStmt->inUse)
+        pPreStmt = NULL; /* Same SQL is already running, eg. in a callback: needs a statement of its own. */
+    if (pPreStmt) {
         
         if (db->debug & TMODE_PREPARE)
             JSI_DBQUERY_PRINTF( "DEBUG: prepare cache-hit: %s\n", zSql);
@@ -749,16 +752,18 @@ static Jsi_RC dbPrepareStmt(
         pPreStmt->nSql = (*pzOut - zSql);
         pPreStmt->zSql = sqlite3_sql(pStmt);
         bool isNew = 0;
-        pPreStmt->entry = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
-        if (!isNew)
-            JSI_DBQUERY_PRINTF( "sqlite dup stmt entry");
-        Jsi_HashValueSet(pPreStmt->entry, pPreStmt);
+        Jsi_HashEntry *hPtr = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
+        if (isNew) {
+            pPreStmt->entry = hPtr;
+            Jsi_HashValueSet(hPtr, pPreStmt);
+        } /* else this one is not cached. */
             
         //pPreStmt->apParm = (Jsi_Value **)&pPreStmt[1];
     }
     assert( pPreStmt );
     assert( Jsi_Strlen(pPreStmt->zSql)==pPreStmt->nSql );
     assert( 0==memcmp(pPreStmt->zSql, zSql, pPreStmt->nSql) );
+    pPreStmt->inUse = 1;
     *ppPreStmt = pPreStmt;
     //pPreStmt->nParm = iParm; 
     return rc;
-- 
2.43.0


From 205ecfdc9407c67883efe56c713bfc7790c72101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 021/112] fix: a query ending in blanks or a comment after the
 last statement crashed

---
 src/jsiSqlite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 68bd894..ccf89f5 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -789,6 +789,7 @@ static Jsi_RC dbEvalStep(DbEvalContext *p) {
         if( p->pPreStmt==0 ) {
             rc = dbPrepareAndBind(p->db, p->zSql, &p->zSql, &p->pPreStmt);
             if( rc!=JSI_OK ) return rc;
+            if( p->pPreStmt==0 ) continue;
         }
         rc = dbEvalStepSub(p, 1, NULL);
         if (rc != JSI_BREAK)
@@ -994,6 +995,8 @@ static Jsi_RC dbPrepareAndBind(
 ) {
     if (dbPrepareStmt(db, zIn, pzOut, ppPreStmt) != JSI_OK)
         return JSI_ERROR;
+    if (*ppPreStmt == NULL) // Nothing but whitespace or comments.
+        return JSI_OK;
     return dbBindStmt(db, *ppPreStmt);
 }
 #endif
-- 
2.43.0


From cf12705c121e85fcd53fedbe93c50f8f280318a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 022/112] fix: a typed or array bind was applied to the
 parameters after it

---
 src/jsiSqlite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index ccf89f5..7929369 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -816,6 +816,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
    /* Bind values to parameters that begin with @, $, :, or ? */
     for(i=1; i<=nVar; i++) {
         tname[0] = 0;
+        btype = bindArr = 0;
         int isInt = 0, isBlob = 0;
         const char *zVar = sqlite3_bind_parameter_name(pStmt, i);
         if (zVar == NULL) {
-- 
2.43.0


From 00fa281ee8a38c701de8216b305d52edce41e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 023/112] fix: the SQL regexp function read a missing third
 argument and crashed on NULL

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 7929369..0c06093 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1415,7 +1415,9 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
         return;
     }
     const char *str = (char *)sqlite3_value_text(argv[1]);
-    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (char *)sqlite3_value_text(argv[2]);
+    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (argc>2?(char *)sqlite3_value_text(argv[2]):NULL);
+    if (!str || !spat)
+        return;
     int rc = 0;
     bool isNew = 0;
     Jsi_Value *pat = NULL;
-- 
2.43.0


From 4b01977549baa17339a7cb6030ee5b33fa4c1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 024/112] fix: query mode insert went on into the csv
 rendering, dropping its limit and errors

---
 src/jsiSqlite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 0c06093..8f64cd9 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2919,6 +2919,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             if (opts.limit && cnt>=opts.limit) break;
         }
         Jsi_DSFree(&vStr);
+        break;
     }
 
     case _JSI_EF_TABS:
-- 
2.43.0


From f4d72a86ff14f227b7bf36010c3115a3fd893edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 025/112] fix: query mode insert took the first row's NULLs for
 every row

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 8f64cd9..52839fd 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2895,7 +2895,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 
                 azArg = Jsi_DSValue(&vStr);
                 const char *zSep = i>0 ? ",": "";
-                if(apColType && apColType[i]==SQLITE_NULL) {
+                if(ptype==SQLITE_NULL) {
                   Jsi_DSAppend(dStr, zSep, "NULL", NULL);
                 }else if( ptype ==SQLITE_TEXT ) {
                   if( zSep[0] ) Jsi_DSAppend(dStr,zSep, NULL);
-- 
2.43.0


From cd0a5b29dd83449f27acf4a2e11a3013d49b03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 026/112] fix: messages queued on a socket were sent in reverse
 order

---
 src/jsiSocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 69cd020..a6e7eaa 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -765,7 +765,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
         if (deleted) return JSI_ERROR;
         n=0;
         while (1) {
-            Jsi_Value *dv = (Jsi_Value*)Jsi_StackPeek(pss->stack);
+            Jsi_Value *dv = (Jsi_Value*)Jsi_StackHead(pss->stack);
             char *data;
             int sLen;
             if (dv == NULL || (data=Jsi_ValueString(interp, dv, &sLen)) == NULL)
@@ -786,7 +786,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
                 return JSI_ERROR;
             }
             if (n >= osiz) {
-                Jsi_StackPop(pss->stack);
+                Jsi_StackUnshift(pss->stack);
                 pss->offset = 0;
             } else {
                 if (cmdPtr->debug)
-- 
2.43.0


From 481395b93d2a87bfd0ab35d669cde3077c012563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 027/112] fix: a partial send on a socket freed the message
 still queued

---
 src/jsiSocket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index a6e7eaa..4b1ca25 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -795,7 +795,8 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
             }
             if (cmdPtr->debug)
                 fprintf(stderr, "SOCK:CLIENT WRITE(%d): %d=>%d: %s\n", pss->id, sLen, n, data);
-            Jsi_DecrRefCount(interp, dv);                                   
+            if (n >= osiz)
+                Jsi_DecrRefCount(interp, dv);
             if (n >= 0) {
                 pss->sentCnt++;
                 pss->sentLast = time(NULL);
-- 
2.43.0


From fe2ea7869c91a88c204d103364f9c52973272a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 028/112] fix: a stalled, interrupted or lost socket peer
 blocked or killed the process

---
 src/jsiSocket.c | 57 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 4b1ca25..a54af8f 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -41,6 +41,13 @@
 #include <signal.h>
 #include <errno.h>
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+#ifndef MSG_DONTWAIT
+#define MSG_DONTWAIT 0
+#endif
+
 typedef enum {  PSS_DEAD, PSS_HTTP, PSS_CONNECTED, PSS_RECV, PSS_SENT, PSS_SENDERR } pss_state;
 
 typedef enum {
@@ -282,6 +289,22 @@ static int sockAddrSize(SockAddrAll* sa) {
     return sizeof(sa->sin);
 }
 
+/* Send on a connection: a lost peer is an error and not a signal, and only a "wait" may block. */
+static int sockSend(SocketObj* cmdPtr, SocketPss* pss, const char *data, int len, bool wait) {
+    int n, flags = (cmdPtr->sendFlags | MSG_NOSIGNAL | (wait?0:MSG_DONTWAIT));
+    do {
+        if (cmdPtr->udp)
+            n = sendto(pss->fd, data, len, flags, (struct sockaddr*)&cmdPtr->stats.sa.sin, sockAddrSize(&pss->sa));
+        else
+            n = send(pss->fd, data, len, flags);
+    } while (n < 0 && errno == EINTR);
+    return n;
+}
+
+static bool sockErrIsTransient(void) {
+    return (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR || errno == ENOBUFS);
+}
+
 static void sockUpdateEvent(SocketObj* cmdPtr, SocketPss* pss) {
     pss->eventCnt++;
     cmdPtr->stats.eventCnt++;
@@ -451,14 +474,12 @@ static Jsi_RC SocketSendCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 process:
             sockUpdateEvent(cmdPtr, pss);
             if (cmdPtr->noAsync || opts.noAsync) {
-                rc = sock_handler(cmdPtr, SOCK_CALLBACK_WRITEABLE, pss, NULL, 0);
-                int n, siLen = sockAddrSize(&pss->sa);
-                if (cmdPtr->udp)
-                    n = sendto(pss->fd, str, aLen, cmdPtr->sendFlags, (struct sockaddr*)&cmdPtr->stats.sa.sin, siLen);
-                else
-                    n = send(pss->fd, str, aLen, cmdPtr->sendFlags);
-                if (n != aLen)
-                    rc = Jsi_LogError("wrote only %d of %d bytes", n, aLen);
+                int n = 0, cnt = 0;
+                if (sock_handler(cmdPtr, SOCK_CALLBACK_WRITEABLE, pss, NULL, 1) == JSI_OK && Jsi_StackSize(pss->stack) == 0)
+                    while (cnt < aLen && (n = sockSend(cmdPtr, pss, str+cnt, aLen-cnt, 1)) > 0)
+                        cnt += n;
+                if (cnt != aLen)
+                    rc = Jsi_LogError("wrote only %d of %d bytes", cnt, aLen);
             } else {
                 if (!cmdPtr->echo && pss->echo)
                     Jsi_LogInfo("WS-SEND: %s\n", str); 
@@ -467,7 +488,7 @@ process:
                 if (pss->fd>=0)
                     FD_SET (pss->fd, &cmdPtr->writeSet);
             }
-            if (id != -1 ||  rc != JSI_OK)
+            if (id != -1)
                 break;
         }
     }
@@ -761,7 +782,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
         if (rc != JSI_OK) 
             return Jsi_LogError("sock bad rcv eval");
         break;
-    case SOCK_CALLBACK_WRITEABLE:
+    case SOCK_CALLBACK_WRITEABLE: // A non-zero len: wait for the data to be sent.
         if (deleted) return JSI_ERROR;
         n=0;
         while (1) {
@@ -773,12 +794,10 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
             pss->state = PSS_SENT;
         
             int osiz = sLen-pss->offset;
-            int siLen = sockAddrSize(&pss->sa);
             sockUpdateEvent(cmdPtr, pss);
-            if (cmdPtr->udp)
-                n = sendto(pss->fd, data + pss->offset, osiz, cmdPtr->sendFlags, (struct sockaddr*)&cmdPtr->stats.sa.sin, siLen);
-            else
-                n = send(pss->fd, data + pss->offset, osiz, cmdPtr->sendFlags);
+            n = sockSend(cmdPtr, pss, data + pss->offset, osiz, len!=0);
+            if (n == 0 || (n < 0 && sockErrIsTransient())) // Still queued, for the next writeable event.
+                break;
             if (n<=0) {
                 perror("failed");
                 if (cmdPtr->debug)
@@ -921,10 +940,12 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 }
                 uint siLen = sockAddrSize(&pss->recvAddr);
                 if (cmdPtr->udp)
-                    n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->sendFlags, (struct sockaddr*)&pss->recvAddr.sin, &siLen);
+                    n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags|MSG_DONTWAIT, (struct sockaddr*)&pss->recvAddr.sin, &siLen);
                 else
-                    n = recv(i, buf, sizeof(buf)-1, cmdPtr->recvFlags);
-                if (n<=0) {
+                    n = recv(i, buf, sizeof(buf)-1, cmdPtr->recvFlags|MSG_DONTWAIT);
+                if (n < 0 && sockErrIsTransient()) {
+                    // Nothing to read after all.
+                } else if (n<=0) {
                     if (cmdPtr->debug)
                         fprintf(stderr, "read failed %d\n", i);
                     close(i);
-- 
2.43.0


From 93bd82090cd5cb210befd58f58ee9106d34d0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 029/112] fix: a socket read clobbered the count of ready
 descriptors

---
 src/jsiSocket.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index a54af8f..496b5c7 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -888,7 +888,7 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
     char buf[JSI_BUFSIZ];
     struct sockaddr_in sin;
     fd_set writeSet, readSet;
-    int i, n, cnt = 0;
+    int i, n, len, cnt = 0;
     Jsi_RC rc = JSI_ERROR;
 
     readSet = cmdPtr->readSet;
@@ -940,12 +940,12 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 }
                 uint siLen = sockAddrSize(&pss->recvAddr);
                 if (cmdPtr->udp)
-                    n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags|MSG_DONTWAIT, (struct sockaddr*)&pss->recvAddr.sin, &siLen);
+                    len = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags|MSG_DONTWAIT, (struct sockaddr*)&pss->recvAddr.sin, &siLen);
                 else
-                    n = recv(i, buf, sizeof(buf)-1, cmdPtr->recvFlags|MSG_DONTWAIT);
-                if (n < 0 && sockErrIsTransient()) {
+                    len = recv(i, buf, sizeof(buf)-1, cmdPtr->recvFlags|MSG_DONTWAIT);
+                if (len < 0 && sockErrIsTransient()) {
                     // Nothing to read after all.
-                } else if (n<=0) {
+                } else if (len<=0) {
                     if (cmdPtr->debug)
                         fprintf(stderr, "read failed %d\n", i);
                     close(i);
@@ -955,8 +955,8 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 }
                 buf[sizeof(buf)-1] = 0;
                 if (cmdPtr->debug)
-                    fprintf(stderr, "Read data(%d): %s\n", n, buf);
-                if (n>0 && sock_handler(cmdPtr, SOCK_CALLBACK_RECEIVE, pss, buf, n) != JSI_OK) {
+                    fprintf(stderr, "Read data(%d): %s\n", len, buf);
+                if (len>0 && sock_handler(cmdPtr, SOCK_CALLBACK_RECEIVE, pss, buf, len) != JSI_OK) {
                     sockDeletePss(pss);
                     continue;
                 }
-- 
2.43.0


From 03c81aa6b0a485239471019880ee2adeea14ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 030/112] fix: closing a socket connection, or a failure of
 one, leaked it, hit a reused descriptor or used freed memory

---
 src/jsiSocket.c | 108 ++++++++++++++++++++++++++++++------------------
 1 file changed, 68 insertions(+), 40 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 496b5c7..78a20f1 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -89,6 +89,8 @@ typedef struct SocketPss { /* Per session connection to server */
     int id;
     int fd;
     int offset;
+    int busy; // In use by the event loop: free only when zero.
+    bool deleted;
     bool echo;
     SockAddrAll sa;
     SockAddrAll recvAddr;
@@ -372,24 +374,46 @@ static Jsi_RC sockFreeStackPss(Jsi_Interp *interp, void *data) {
     return JSI_OK;
 }
 
+static void sockCloseFd(SocketPss *pss)
+{
+    if (pss->fd < 0)
+        return;
+    FD_CLR(pss->fd, &pss->cmdPtr->writeSet);
+    FD_CLR(pss->fd, &pss->cmdPtr->readSet);
+    close(pss->fd);
+    pss->fd = -1;
+}
+
 static void
 sockDeletePss(SocketPss *pss)
 {
     if (pss == &pss->cmdPtr->stats)
         return;
+    sockCloseFd(pss);
     if (pss->hPtr) {
         Jsi_HashValueSet(pss->hPtr, NULL);
         Jsi_HashEntryDelete(pss->hPtr);
         pss->hPtr = NULL;
     }
+    if (!pss->deleted) {
+        pss->deleted = 1;
+        pss->cmdPtr->connectCnt--;
+        pss->state = PSS_DEAD;
+    }
+    if (pss->busy)
+        return;
     Jsi_StackFreeElements(pss->cmdPtr->interp, pss->stack, sockFreeStackPss);
     Jsi_StackFree(pss->stack);
     Jsi_OptionsFree(pss->cmdPtr->interp, SPSOptions, pss, 0);
-    pss->cmdPtr->connectCnt--;
-    pss->state = PSS_DEAD;
     Jsi_Free(pss);
 }
 
+static void sockRelease(SocketPss *pss)
+{
+    if (--pss->busy <= 0 && pss->deleted)
+        sockDeletePss(pss);
+}
+
 static Jsi_RC SocketConfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -539,34 +563,28 @@ static Jsi_RC SocketCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     SocketPss *pss;
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch cursor;
+    Jsi_RC rc = JSI_OK;
     int id = 0, argc = Jsi_ValueGetLength(interp, args);
-    if (argc>1) {
+    if (argc>0) {
         if (sockGetPssId(cmdPtr, Jsi_ValueArrayIndex(interp, args, 0), &id) != JSI_OK)
             return JSI_ERROR;
     }
     if (id == 0) {
-        if (cmdPtr->stats.fd>=0) {
-            close(cmdPtr->stats.fd);
-            FD_CLR(cmdPtr->stats.fd, &cmdPtr->writeSet);
-            FD_CLR(cmdPtr->stats.fd, &cmdPtr->readSet);
-            cmdPtr->stats.fd = -1;
-        }
+        sockCloseFd(&cmdPtr->stats);
     } else {
-        for (hPtr = Jsi_HashSearchFirst(cmdPtr->pssTable, &cursor);
-            hPtr != NULL; hPtr = Jsi_HashSearchNext(&cursor)) {
-            pss = (SocketPss *)Jsi_HashValueGet(hPtr);
-            SIGASSERT(pss, SOCKETPSS);
-            if ((id==-1 || pss->id == id) && pss->state != PSS_DEAD) {
-                if (pss->fd>=0) {
-                    close(pss->fd);
-                    FD_CLR(pss->fd, &cmdPtr->writeSet);
-                    FD_CLR(pss->fd, &cmdPtr->readSet);
-                    pss->fd = -1;
-                }
+        do { // The callbacks may change the table, so search it again after each.
+            for (hPtr = Jsi_HashSearchFirst(cmdPtr->pssTable, &cursor);
+                hPtr != NULL; hPtr = Jsi_HashSearchNext(&cursor)) {
+                pss = (SocketPss *)Jsi_HashValueGet(hPtr);
+                SIGASSERT(pss, SOCKETPSS);
+                if ((id==-1 || pss->id == id) && pss->state != PSS_DEAD)
+                    break;
             }
-        }
+            if (hPtr && sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0) != JSI_OK)
+                rc = JSI_ERROR;
+        } while (hPtr && cmdPtr->pssTable);
     }
-    return JSI_OK;
+    return rc;
 }
 
 static Jsi_RC SocketUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
@@ -747,7 +765,10 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
         if (cmdPtr->debug)
             fprintf(stderr, "SOCK:CALLBACK_CLOSE: %p\n", pss);
         if (!pss) break;
-            sockUpdateEvent(cmdPtr, pss);
+        sockUpdateEvent(cmdPtr, pss);
+        sockCloseFd(pss);
+        pss->state = PSS_DEAD;
+        pss->busy++;
         if (cmdPtr->onClose && !Jsi_InterpGone(interp)) {
             /* Pass 2 args: ws, id. */
             Jsi_Obj *oarg1;
@@ -766,6 +787,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
             Jsi_DecrRefCount(interp, ret);
         }        
         sockDeletePss(pss);
+        sockRelease(pss);
         if (rc == JSI_OK && cmdPtr->connectCnt<=0 && cmdPtr->onCloseLast && !Jsi_InterpGone(interp)) {
             if (Jsi_InterpGone(interp))
                 return JSI_ERROR;
@@ -890,7 +912,10 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
     fd_set writeSet, readSet;
     int i, n, len, cnt = 0;
     Jsi_RC rc = JSI_ERROR;
+    Jsi_Interp *interp = cmdPtr->interp;
+    Jsi_Obj *fobj = cmdPtr->fobj;
 
+    Jsi_ObjIncrRefCount(interp, fobj); // A callback may drop the last reference.
     readSet = cmdPtr->readSet;
     writeSet = cmdPtr->writeSet;
     int maxfd = cmdPtr->maxfd+1;
@@ -917,16 +942,19 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 uint c = sizeof(sin);
                 int csock = accept(cmdPtr->stats.fd, (struct sockaddr*)&sin, &c);
                 if (csock < 0) {
-                    perror("accept");
-                    goto done;
+                    if (!sockErrIsTransient())
+                        perror("accept");
+                    continue;
                 }
                 SocketPss* pss = sockGetPss(cmdPtr, csock, 1);
                 pss->sa.sin = sin;
-                if (sock_handler(cmdPtr, SOCK_CALLBACK_OPEN, pss, NULL, 0) != JSI_OK) {
-                    close(csock);
+                pss->busy++;
+                if (sock_handler(cmdPtr, SOCK_CALLBACK_OPEN, pss, NULL, 0) != JSI_OK)
                     sockDeletePss(pss);
+                bool dead = (pss->state == PSS_DEAD);
+                sockRelease(pss);
+                if (dead)
                     continue;
-                }
                 if (cmdPtr->debug)
                     fprintf (stderr, "Server: connect %d from host %s, port %d.\n",
                         csock, inet_ntoa(sin.sin_addr), ntohs(sin.sin_port));
@@ -948,17 +976,17 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 } else if (len<=0) {
                     if (cmdPtr->debug)
                         fprintf(stderr, "read failed %d\n", i);
-                    close(i);
-                    FD_CLR(i, &cmdPtr->readSet);
-                    FD_CLR(i, &cmdPtr->writeSet);
                     sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
+                    continue;
                 }
                 buf[sizeof(buf)-1] = 0;
                 if (cmdPtr->debug)
                     fprintf(stderr, "Read data(%d): %s\n", len, buf);
-                if (len>0 && sock_handler(cmdPtr, SOCK_CALLBACK_RECEIVE, pss, buf, len) != JSI_OK) {
-                    sockDeletePss(pss);
-                    continue;
+                if (len>0) {
+                    pss->busy++;
+                    if (sock_handler(cmdPtr, SOCK_CALLBACK_RECEIVE, pss, buf, len) != JSI_OK && pss->state != PSS_DEAD && pss != &cmdPtr->stats)
+                        sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
+                    sockRelease(pss);
                 }
             }
         }
@@ -971,11 +999,7 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 continue;
             }
             if (sock_handler(cmdPtr, SOCK_CALLBACK_WRITEABLE, pss, NULL, 0) != JSI_OK) {
-                close(pss->fd);
-                FD_CLR(pss->fd, &cmdPtr->writeSet);
-                FD_CLR(pss->fd, &cmdPtr->readSet);
-                pss->fd = -1;
-                sockDeletePss(pss);
+                sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
                 if (cmdPtr->udp)
                     goto done;
                 continue;
@@ -987,6 +1011,7 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
     }
     rc = JSI_OK;
 done:
+    Jsi_ObjDecrRefCount(interp, fobj);
     return rc;
 }
 
@@ -1048,7 +1073,7 @@ static Jsi_RC SocketIdsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
 static Jsi_CmdSpec sockCmds[] = {
     { "Socket",     SocketConstructor, 0,  1, "options:object=void", .help="Create socket server/client object",
             .retType=(uint)JSI_TT_USEROBJ, .flags=JSI_CMD_IS_CONSTRUCTOR, .info=FN_Socket, .opts=SockOptions },
-    { "close",      SocketCloseCmd,    0,  1, "", .help="Close socket(s)", .retType=(uint)JSI_TT_VOID },
+    { "close",      SocketCloseCmd,    0,  1, "id:number=void", .help="Close socket(s)", .retType=(uint)JSI_TT_VOID },
     { "conf",       SocketConfCmd,     0,  1, "options:string|object=void",.help="Configure options", .retType=(uint)JSI_TT_ANY, .flags=0, .info=0, .opts=SockOptions },
     { "names",      SocketIdsCmd,      0,  0, "", .help="Return list of active ids on server", .retType=(uint)JSI_TT_ARRAY },
     { "idconf",     SocketIdConfCmd,   0,  2, "id:number=void, options:string|object=void",.help="Configure options for a connection id, or return list of ids", .retType=(uint)JSI_TT_ANY, .flags=0, .info=0, .opts=SPSOptions },
@@ -1290,6 +1315,9 @@ static Jsi_RC SocketConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
                 Jsi_LogError("sock listen failed");
                 goto bail;
             }
+#ifndef __WIN32
+            fcntl(lfd, F_SETFL, O_NONBLOCK); // A connection may be gone again before the accept.
+#endif
         }
         if (cmdPtr->port==0) {
             struct sockaddr_in sin;
-- 
2.43.0


From 3bdcbf8f2f8a0e792b5e622163a1b4fede506def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 031/112] fix: socket names() lost ids, and crashed on a client

---
 src/jsiSocket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 78a20f1..82a8697 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -1050,7 +1050,7 @@ static Jsi_RC SocketIdsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         return Jsi_LogError("Apply in a non-socket object");
     Jsi_DString dStr;
     Jsi_DSInit(&dStr);
-    Jsi_DSAppend(&dStr, "{", NULL);
+    Jsi_DSAppend(&dStr, "[", NULL);
     SocketPss *pss = NULL;
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch cursor;
@@ -1063,7 +1063,7 @@ static Jsi_RC SocketIdsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             Jsi_DSPrintf(&dStr, "%s%d", cnt++?",":"", pss->id);
         }
     }
-    Jsi_DSAppend(&dStr, "}", NULL);
+    Jsi_DSAppend(&dStr, "]", NULL);
     Jsi_RC rc = Jsi_JSONParse(interp, Jsi_DSValue(&dStr), ret, 0);
     Jsi_DSFree(&dStr);
     return rc;
@@ -1292,6 +1292,7 @@ static Jsi_RC SocketConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
 
     if (fd>cmdPtr->maxfd)
         cmdPtr->maxfd = fd;
+    cmdPtr->pssTable = Jsi_HashNew(interp, JSI_KEYS_ONEWORD, sockFreePss);
     
     if (cmdPtr->client) { // Client
         lfd = cmdPtr->stats.fd = fd;
@@ -1330,7 +1331,6 @@ static Jsi_RC SocketConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         }
         if (cmdPtr->debug)
             printf("listening on port: %d\n", cmdPtr->port);
-        cmdPtr->pssTable = Jsi_HashNew(interp, JSI_KEYS_ONEWORD, sockFreePss);
         FD_SET(lfd, &cmdPtr->readSet);
     }
 
-- 
2.43.0


From f4a0b64753e862ec0451d4a6493725c9d258803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 032/112] fix: the options of a socket send were not read

---
 src/jsiSocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 82a8697..aa618c6 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -475,7 +475,7 @@ static Jsi_RC SocketSendCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected int id or options object");
     Jsi_Value *arg2 = Jsi_ValueArrayIndex(interp, args, 2);
     if (argc>2 && arg2 &&
-        Jsi_OptionsProcess(interp, SockSendOptions, &opts, arg, 0) < 0)
+        Jsi_OptionsProcess(interp, SockSendOptions, &opts, arg2, 0) < 0)
         return JSI_ERROR;
    /* if (cmdPtr->udp) {
         Jsi_IncrRefCount(interp, arg);
-- 
2.43.0


From 21fdc23e92aad383d99ee0e59de256698ee424d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 033/112] fix: socket recv() ignored its id and returned memory
 it did not own

---
 src/jsiSocket.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index aa618c6..65aa97b 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -530,17 +530,21 @@ static Jsi_RC SocketRecvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 
     SocketPss *pss = &cmdPtr->stats;
     int id = 0, argc = Jsi_ValueGetLength(interp, args);
-    if (argc>1) {
+    if (argc>0) {
         if (sockGetPssId(cmdPtr, Jsi_ValueArrayIndex(interp, args, 0), &id) != JSI_OK)
             return JSI_ERROR;
+        if (!(pss = sockFindPss(cmdPtr, id)))
+            return Jsi_LogError("No such id: %d", id);
     }
     char buf[JSI_BUFSIZ];
     int n;
     pss->siLen = sockAddrSize(&pss->recvAddr);
-    if (cmdPtr->udp)
-        n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->sendFlags, (struct sockaddr*)&pss->recvAddr.sin, &pss->siLen);
-    else
-        n = recv(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags);
+    do {
+        if (cmdPtr->udp)
+            n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags, (struct sockaddr*)&pss->recvAddr.sin, &pss->siLen);
+        else
+            n = recv(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags);
+    } while (n < 0 && errno == EINTR);
     if (n>0)
         buf[n] = 0;
     else 
@@ -549,7 +553,7 @@ static Jsi_RC SocketRecvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     unsigned char *uptr = (unsigned char*)Jsi_Malloc(n+1);
     memcpy(uptr, buf, n+1);
     uptr[n] = 0;
-    Jsi_ValueMakeBlob(interp, ret, (unsigned char*)buf, n);
+    Jsi_ValueMakeBlob(interp, ret, uptr, n);
     return JSI_OK;
 }
 
-- 
2.43.0


From 8c0826f8ee10d05176f0652b0f5acfd1eaf7512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 034/112] fix: an empty, long or unsendable datagram closed a
 udp socket or was cut short

---
 src/jsiSocket.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 65aa97b..a4b340b 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -41,6 +41,8 @@
 #include <signal.h>
 #include <errno.h>
 
+#define SOCK_BUFSIZ 65536 /* The largest datagram fits. */
+
 #ifndef MSG_NOSIGNAL
 #define MSG_NOSIGNAL 0
 #endif
@@ -536,7 +538,7 @@ static Jsi_RC SocketRecvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         if (!(pss = sockFindPss(cmdPtr, id)))
             return Jsi_LogError("No such id: %d", id);
     }
-    char buf[JSI_BUFSIZ];
+    char buf[SOCK_BUFSIZ];
     int n;
     pss->siLen = sockAddrSize(&pss->recvAddr);
     do {
@@ -545,7 +547,7 @@ static Jsi_RC SocketRecvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         else
             n = recv(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags);
     } while (n < 0 && errno == EINTR);
-    if (n>0)
+    if (n>0 || (n==0 && cmdPtr->udp))
         buf[n] = 0;
     else 
         return Jsi_LogError("read failed");
@@ -824,6 +826,14 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
             n = sockSend(cmdPtr, pss, data + pss->offset, osiz, len!=0);
             if (n == 0 || (n < 0 && sockErrIsTransient())) // Still queued, for the next writeable event.
                 break;
+            if (n<0 && cmdPtr->udp) { // Only this datagram is lost.
+                Jsi_LogWarn("datagram not sent: %s", strerror(errno));
+                Jsi_StackUnshift(pss->stack);
+                Jsi_DecrRefCount(interp, dv);
+                pss->sentErrCnt++;
+                pss->sentErrLast = time(NULL);
+                continue;
+            }
             if (n<=0) {
                 perror("failed");
                 if (cmdPtr->debug)
@@ -911,7 +921,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
 
 static Jsi_RC jsk_Service(SocketObj *cmdPtr)
 {
-    char buf[JSI_BUFSIZ];
+    char buf[SOCK_BUFSIZ];
     struct sockaddr_in sin;
     fd_set writeSet, readSet;
     int i, n, len, cnt = 0;
@@ -975,9 +985,9 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                     len = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags|MSG_DONTWAIT, (struct sockaddr*)&pss->recvAddr.sin, &siLen);
                 else
                     len = recv(i, buf, sizeof(buf)-1, cmdPtr->recvFlags|MSG_DONTWAIT);
-                if (len < 0 && sockErrIsTransient()) {
+                if (len < 0 && (cmdPtr->udp || sockErrIsTransient())) {
                     // Nothing to read after all.
-                } else if (len<=0) {
+                } else if (len<=0 && !cmdPtr->udp) {
                     if (cmdPtr->debug)
                         fprintf(stderr, "read failed %d\n", i);
                     sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
@@ -986,7 +996,7 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 buf[sizeof(buf)-1] = 0;
                 if (cmdPtr->debug)
                     fprintf(stderr, "Read data(%d): %s\n", len, buf);
-                if (len>0) {
+                if (len>0 || (len==0 && cmdPtr->udp)) {
                     pss->busy++;
                     if (sock_handler(cmdPtr, SOCK_CALLBACK_RECEIVE, pss, buf, len) != JSI_OK && pss->state != PSS_DEAD && pss != &cmdPtr->stats)
                         sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
-- 
2.43.0


From 064675dc262a3fec01ef473bdd91fc25c09ed739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 035/112] fix: socket maxConnects was ignored, and a descriptor
 over FD_SETSIZE was accepted

---
 src/jsiSocket.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index a4b340b..b32d88a 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -960,6 +960,10 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                         perror("accept");
                     continue;
                 }
+                if (csock >= FD_SETSIZE || (cmdPtr->maxConnects>0 && cmdPtr->connectCnt >= cmdPtr->maxConnects)) {
+                    close(csock);
+                    continue;
+                }
                 SocketPss* pss = sockGetPss(cmdPtr, csock, 1);
                 pss->sa.sin = sin;
                 pss->busy++;
@@ -1168,6 +1172,10 @@ static Jsi_RC SocketConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
 //#ifndef WIN32
     fcntl(fd, F_SETFD, FD_CLOEXEC);
 //#endif
+    if (fd >= FD_SETSIZE) {
+        Jsi_LogError("too many open files");
+        goto bail;
+    }
     on = 1;
     if (cmdPtr->reuse && setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on) )) {
         Jsi_LogError("sock reuse failed");
-- 
2.43.0


From 276d3e3262fa4ec7b116acc57689f307ed2d4301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 036/112] fix: a connection being closed was reported closed
 twice, or its descriptor taken over, by what its close callback did

---
 src/jsiSocket.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index b32d88a..14d7f14 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -92,6 +92,7 @@ typedef struct SocketPss { /* Per session connection to server */
     int fd;
     int offset;
     int busy; // In use by the event loop: free only when zero.
+    int closing; // Being closed: onClose was called.
     bool deleted;
     bool echo;
     SockAddrAll sa;
@@ -511,7 +512,7 @@ process:
                     Jsi_LogInfo("WS-SEND: %s\n", str); 
                 Jsi_StackPush(pss->stack, arg);
                 Jsi_IncrRefCount(interp, arg);
-                if (pss->fd>=0)
+                if (pss->fd>=0 && !pss->closing)
                     FD_SET (pss->fd, &cmdPtr->writeSet);
             }
             if (id != -1)
@@ -570,7 +571,7 @@ static Jsi_RC SocketCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch cursor;
     Jsi_RC rc = JSI_OK;
-    int id = 0, argc = Jsi_ValueGetLength(interp, args);
+    int last = cmdPtr->idx, id = 0, argc = Jsi_ValueGetLength(interp, args);
     if (argc>0) {
         if (sockGetPssId(cmdPtr, Jsi_ValueArrayIndex(interp, args, 0), &id) != JSI_OK)
             return JSI_ERROR;
@@ -583,7 +584,7 @@ static Jsi_RC SocketCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 hPtr != NULL; hPtr = Jsi_HashSearchNext(&cursor)) {
                 pss = (SocketPss *)Jsi_HashValueGet(hPtr);
                 SIGASSERT(pss, SOCKETPSS);
-                if ((id==-1 || pss->id == id) && pss->state != PSS_DEAD)
+                if ((id==-1 || pss->id == id) && pss->id <= last && pss->state != PSS_DEAD)
                     break;
             }
             if (hPtr && sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0) != JSI_OK)
@@ -770,9 +771,13 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
     case SOCK_CALLBACK_CLOSED:
         if (cmdPtr->debug)
             fprintf(stderr, "SOCK:CALLBACK_CLOSE: %p\n", pss);
-        if (!pss) break;
+        if (!pss || pss->closing) break;
+        pss->closing = 1;
         sockUpdateEvent(cmdPtr, pss);
-        sockCloseFd(pss);
+        if (pss->fd >= 0) { // Stays open, so that no new connection gets the number, until deleted below.
+            FD_CLR(pss->fd, &cmdPtr->readSet);
+            FD_CLR(pss->fd, &cmdPtr->writeSet);
+        }
         pss->state = PSS_DEAD;
         pss->busy++;
         if (cmdPtr->onClose && !Jsi_InterpGone(interp)) {
@@ -792,6 +797,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
             Jsi_DecrRefCount(interp, vpargs);
             Jsi_DecrRefCount(interp, ret);
         }        
+        sockCloseFd(pss);
         sockDeletePss(pss);
         sockRelease(pss);
         if (rc == JSI_OK && cmdPtr->connectCnt<=0 && cmdPtr->onCloseLast && !Jsi_InterpGone(interp)) {
-- 
2.43.0


From a0e26088fd6a8988c59edeb615e634bd20ce6337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 037/112] fix: setting the system clock fired or stalled timers
 and update()

---
 src/jsiCmds.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 598804e..67da352 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -195,6 +195,14 @@ static Jsi_RC SysImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
 
 static void jsiGetTime(long *seconds, long *milliseconds)
 {
+#ifdef CLOCK_MONOTONIC
+    struct timespec ts; // Setting the system clock must not fire or stall timers.
+    if (clock_gettime(CLOCK_MONOTONIC, &ts) == 0) {
+        *seconds = ts.tv_sec;
+        *milliseconds = ts.tv_nsec / 1000000;
+        return;
+    }
+#endif
     struct timeval tv;
 
     gettimeofday(&tv, NULL);
-- 
2.43.0


From 50be1d316213ba0dbd9c56673e800ce385393293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 038/112] fix: File.glob freed the filter function it was
 given, and went on after a filter raised

---
 src/jsiFileCmds.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index bc286bc..f717626 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -935,7 +935,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     char pbuf[PATH_MAX];
     Jsi_RC rc = JSI_OK;
     int i, n, flags = opts->flags, slen;
-    bool bres = 0;
+    int bres = 0;
     Jsi_DString tStr = {}, pStr = {}, eStr = {}, zStr = {};
     Jsi_Value *rpPath = Jsi_ValueNew1(interp);
     const char *mid = NULL;
@@ -1045,14 +1045,15 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 if (opts->dirFilter && Jsi_ValueIsFunction(interp, opts->dirFilter)) {
                     bres=Jsi_FunctionInvokeBool(interp, opts->dirFilter,
                         Jsi_ValueNewStringDup(interp, Jsi_DSValue(&sStr)), _this);
-                    if (Jsi_InterpGone(interp)) {
+                    if (Jsi_InterpGone(interp) || (bres!=0 && bres!=1)) {
+                        Jsi_DSFree(&sStr);
                         rc = JSI_ERROR;
                         goto done;
                     }
-                    if (!bres)
+                    if (!bres) {
+                        Jsi_DSFree(&sStr);
                         continue;
-                    else if (bres!=0 && bres!=1)
-                        rc = JSI_ERROR;
+                    }
                 }
                 if (opts->types && Jsi_Strchr(opts->types, 'd'))
                     goto dumpit;
@@ -1124,16 +1125,15 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
             Jsi_Value *nval = Jsi_ValueNewStringDup(interp, z);
             Jsi_IncrRefCount(interp, nval);
             bres=Jsi_FunctionInvokeBool(interp, opts->filter, nval, _this);
-            if (Jsi_InterpGone(interp)) {
+            Jsi_DecrRefCount(interp, nval);
+            if (Jsi_InterpGone(interp) || (bres!=0 && bres!=1)) {
                 rc = JSI_ERROR;
                 goto done;
             }
-            Jsi_DecrRefCount(interp, nval);
             if (!bres) {
                 opts->discardCnt++;
                 continue;
-            } else if (bres!=0 && bres!=1)
-                rc = JSI_ERROR;
+            }
         }
 dumpit:
         opts->cnt++;
@@ -1234,6 +1234,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 switch (sobj->ot) {
                     case JSI_OT_FUNCTION:
                         Data.filter = arg;
+                        Jsi_IncrRefCount(interp, arg); // Released with the options.
                         break;
                     case JSI_OT_OBJECT:
                         if (!sobj->isarrlist) {
-- 
2.43.0


From d84fcd9b9bf745147f29287a5b8e86584f368879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 039/112] fix: File.glob('*/x') looked below the root directory
 instead of the current one

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index f717626..3fff4dc 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1031,7 +1031,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 if (zPattern != NULL && Jsi_GlobMatch(zPattern, z, 0) == 0)
                     continue;
                 Jsi_DString sStr = {};
-                Jsi_DSAppend(&sStr, spath, "/", z, mid, NULL);
+                Jsi_DSAppend(&sStr, spath, (spath[0]?"/":""), z, mid, NULL);
                 rc = SubGlobsDirectory(interp, obj, NULL, NULL, Jsi_DSValue(&sStr), opts, deep, cnt+1, _this);
                 Jsi_DSFree(&sStr);
                 continue;
-- 
2.43.0


From 479f317a0a87b39bed2b4e4697e97cb1aacc2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 040/112] fix: File.glob with a regexp also returned everything
 that does not match it

---
 src/jsiFileCmds.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 3fff4dc..c4f4523 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1260,10 +1260,9 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         Data.limit = interp->maxArrayList;
     if (!Data.dir) {
         Jsi_DString dStr = {};
-        dcp = Jsi_GetCwd(interp, &dStr);
-        Data.dirLen = Jsi_Strlen(dcp);
-        Data.dir = Jsi_ValueNewStringDup(interp, dcp);
+        Data.dir = Jsi_ValueNewStringDup(interp, Jsi_GetCwd(interp, &dStr));
         Jsi_IncrRefCount(interp, Data.dir);
+        dcp = Jsi_ValueString(interp, Data.dir, &Data.dirLen);
         Jsi_DSFree(&dStr);
         isOpts = 1;
     } else {
@@ -1292,9 +1291,10 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (pat == NULL || Jsi_ValueIsNull(interp, pat))
         dcp = "*";
-    else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP))
+    else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP)) {
         rc = SubGlobsDirectory(interp, obj, pat, NULL, dcp, &Data, 0, 0, _this);
-    else {
+        goto result;
+    } else {
         dcp = Jsi_ValueString(interp, pat, NULL);
         if (!dcp) {
             rc = Jsi_LogError("expected string, regex or null");
@@ -1316,6 +1316,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         dcp = Jsi_DSAppend(&dStr, dcp, NULL);
         
     rc = SubGlobsDirectory(interp, obj, NULL, zPattern, dcp, &Data, 0, 0, _this);
+result:
     if (rc != JSI_OK)
         Jsi_ValueMakeUndef(interp, ret);   
     else if (Data.retCount)
-- 
2.43.0


From 0ea72e7a3cb17bde5d8c5879b4c53dc318458578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 041/112] fix: File.glob cut the start off every name longer
 than the current directory's

---
 src/jsiFileCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index c4f4523..8f91aea 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1144,7 +1144,8 @@ dumpit:
             Jsi_DSAppend(&tStr, z, NULL);
             z = Jsi_DSValue(&tStr);
             uint dlen = (uint)opts->dirLen;
-            if (!opts->tails && dlen && Jsi_Strlen(z)>=dlen) {
+            const char *dstr = (opts->dir ? Jsi_ValueString(interp, opts->dir, NULL) : NULL);
+            if (!opts->tails && dlen && dstr && !Jsi_Strncmp(z, dstr, dlen) && (dstr[dlen-1] == '/' || z[dlen] == '/')) {
                 z += dlen;
                 if (z[0] == '/' && !opts->prefix) z++;
             }
-- 
2.43.0


From 1969a7a8dc497058762cb63eccbfa3607a2a911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 042/112] fix: File.remove followed a link to a directory,
 could not remove a dangling link, and with force hid failures

---
 src/jsiFileCmds.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 8f91aea..bbbbbb2 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -626,11 +626,8 @@ static Jsi_RC RmdirAll(Jsi_Interp *interp, Jsi_Value *path, int force)
 
     /* TODO: change to Jsi_Scandir */
     dir = opendir(dirname);
-    if (dir == NULL) {
-        if (force)
-            return JSI_OK;
+    if (dir == NULL)
         return Jsi_LogError("opening directory: %s", dirname);
-    }
 
     while ((entry = readdir(dir)) != NULL) {
         if (Jsi_Strcmp(entry->d_name, ".") && Jsi_Strcmp(entry->d_name, "..")) {
@@ -655,7 +652,8 @@ static Jsi_RC RmdirAll(Jsi_Interp *interp, Jsi_Value *path, int force)
         }
     }
     closedir(dir);
-    Jsi_Remove(interp, path, force);
+    if (Jsi_Remove(interp, path, force) != 0 && erc == JSI_OK)
+        erc = Jsi_LogError("deleting directory: %s: %s", dirname, strerror(errno));
     return erc;
 }
 
@@ -675,21 +673,21 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected boolean");
     if (vf)
         force = vf->d.val;
-    rc = Jsi_Stat(interp, source, &st);
+    errno = 0;
+    rc = Jsi_Lstat(interp, source, &st);
     if (Jsi_Strcmp(spath,"/")==0)
-        return JSI_ERROR;
+        return Jsi_LogError("error deleting \"%s\"", spath);
     if (rc != 0) {
+        if (errno && errno != ENOENT && errno != ENOTDIR)
+            return Jsi_LogError("error deleting \"%s\": %s", spath, strerror(errno));
         if (force)
             return JSI_OK;
         return Jsi_LogError("error deleting \"%s\": target not found", spath);
     }
 
     if (Jsi_Remove(interp, source, force) != 0) {
-        if (!S_ISDIR(st.st_mode)) {
-            if (force)
-                return JSI_OK;
-            return Jsi_LogError("error deleting \"%s\"", spath);
-        }
+        if (!S_ISDIR(st.st_mode))
+            return Jsi_LogError("error deleting \"%s\": %s", spath, strerror(errno));
         if (force==0) 
             return Jsi_LogError("error deleting \"%s\": directory not empty", spath);
         return RmdirAll(interp, source, force);
-- 
2.43.0


From d8e4b6df5f9937abc7b634380011d5417626e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 043/112] fix: File.rename without force replaced a dangling
 link, or a target it could not look at

---
 src/jsiFileCmds.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index bbbbbb2..822fb41 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -517,8 +517,14 @@ static Jsi_RC FileRenameCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected boolean");
     if (vf)
         force = vf->d.val;
-    if (force==0 && Jsi_Access(interp, dest, F_OK) == 0) 
-        return Jsi_LogError("error renaming \"%s\" to \"%s\": target exists", GSVal(source), GSVal(dest));
+    if (force==0) {
+        Jsi_StatBuf st;
+        errno = 0;
+        if (Jsi_Lstat(interp, dest, &st) == 0)
+            return Jsi_LogError("error renaming \"%s\" to \"%s\": target exists", GSVal(source), GSVal(dest));
+        if (errno && errno != ENOENT && errno != ENOTDIR)
+            return Jsi_LogError("error renaming \"%s\" to \"%s\": %s", GSVal(source), GSVal(dest), strerror(errno));
+    }
 
     if (Jsi_Rename(interp, source, dest) != 0) 
         return Jsi_LogError( "error renaming \"%s\" to \"%s\": %s", GSVal(source),
-- 
2.43.0


From ea32a228b615966cab3052328ad5b3b692a48792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 044/112] fix: File.mknod made the device number from the mode

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 822fb41..80c841f 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -402,7 +402,7 @@ static Jsi_RC FileMknodCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         return Jsi_LogError("expected numbers for arg 2 & 3");
     SAFEACCESS(fname, 1, 1)
     mode_t mode = (mode_t)m;
-    dev_t dev = (dev_t)m;
+    dev_t dev = (dev_t)d;
     if (mknod(nam, mode, dev))
         return Jsi_LogError("mknod failed: %s", strerror(errno));
     return JSI_OK;
-- 
2.43.0


From 5a60f888a7217c900144c61bc84649cdb4ba536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 045/112] fix: File.truncate wrapped a size out of range, and
 failed without saying why

---
 src/jsiFileCmds.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 80c841f..263a5e8 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -378,11 +378,16 @@ static Jsi_RC FileTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     if (Jsi_GetNumberFromValue(interp, sizv, &siz) != JSI_OK)
         return JSI_ERROR;
     SAFEACCESS(fname, 1, 0)
+    if (!(siz >= 0 && siz <= UINT_MAX))
+        return Jsi_LogError("size out of range");
     Jsi_Channel ch = Jsi_Open(interp, fname, "rb+");
     if (!ch)
         return JSI_ERROR;
-    rc = (Jsi_Truncate(interp, ch, (unsigned int)siz) == 0 ? JSI_OK : JSI_ERROR);
-    Jsi_Close(interp, ch);
+    rc = JSI_OK;
+    if (Jsi_Truncate(interp, ch, (unsigned int)siz) != 0)
+        rc = Jsi_LogError("truncate failed: %s", strerror(errno));
+    if (Jsi_Close(interp, ch) != 0 && rc == JSI_OK)
+        rc = Jsi_LogError("truncate failed: %s", strerror(errno));
     return rc;
 }
 
-- 
2.43.0


From c152a973e3b066b78faf0ea45c05e1443b5a8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 046/112] fix: File.chmod failed without saying why

---
 src/jsiFileCmds.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 263a5e8..c252cd6 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -425,7 +425,9 @@ static Jsi_RC FileChmodCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     if (Jsi_GetNumberFromValue(interp, modv, &fmod) != JSI_OK)
         return JSI_ERROR;
     SAFEACCESS(fname, 1, 0)
-    return (Jsi_Chmod(interp, fname, (unsigned int)fmod) == 0 ? JSI_OK : JSI_ERROR);
+    if (Jsi_Chmod(interp, fname, (unsigned int)fmod) != 0)
+        return Jsi_LogError("chmod failed: %s", strerror(errno));
+    return JSI_OK;
 }
 
 Jsi_RC Jsi_FileRead(Jsi_Interp *interp, Jsi_Value *name, Jsi_DString *dStr) {
-- 
2.43.0


From 46748c4c5e278f637aa8a1b19120ea4f8e8c280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 047/112] fix: File.pwd returned an empty string when the
 current directory can not be found

---
 src/jsiFileCmds.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index c252cd6..34a22e7 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -266,9 +266,14 @@ static Jsi_RC FilePwdCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     Jsi_DString dStr = {};
-    Jsi_ValueMakeStringDup(interp, ret, Jsi_GetCwd(interp, &dStr));
+    const char *cwd = Jsi_GetCwd(interp, &dStr);
+    Jsi_RC rc = JSI_OK;
+    if (!*cwd)
+        rc = Jsi_LogError("can't get current directory: %s", strerror(errno));
+    else
+        Jsi_ValueMakeStringDup(interp, ret, cwd);
     Jsi_DSFree(&dStr);
-    return JSI_OK;
+    return rc;
 }
 
 static Jsi_RC FileChdirCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
-- 
2.43.0


From b51970e22cbdbcc511604f70d4e750933f1122c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 048/112] fix: File.glob and File.remove did not know
 directories where the filesystem gives no entry types

---
 src/jsiFileCmds.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 34a22e7..13953e7 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -653,7 +653,11 @@ static Jsi_RC RmdirAll(Jsi_Interp *interp, Jsi_Value *path, int force)
             Jsi_Value *tpPtr = Jsi_ValueNew1(interp);
             Jsi_ValueMakeStringDup(interp, &tpPtr, spath);
 #ifndef __WIN32
-            if (entry->d_type == DT_DIR) {
+            int isdir = (entry->d_type == DT_DIR);
+            Jsi_StatBuf lst;
+            if (entry->d_type == DT_UNKNOWN && Jsi_Lstat(interp, tpPtr, &lst) == 0)
+                isdir = S_ISDIR(lst.st_mode);
+            if (isdir) {
                 Jsi_RC rc = RmdirAll(interp, tpPtr, force);
                 if (rc != JSI_OK)
                     erc = rc;
@@ -1025,6 +1029,15 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
         ftyp = (namelist[i]->d_ino? DT_DIR : DT_REG);
 #else
         ftyp = namelist[i]->d_type;
+        if (ftyp == DT_UNKNOWN) { /* Not all filesystems know. */
+            snprintf(pbuf, sizeof(pbuf), "%s%s%s", spath, (spath[0]?"/":""),  z);
+            Jsi_StatBuf lst;
+            Jsi_Value *upath = Jsi_ValueNewStringConst(interp, pbuf, -1);
+            Jsi_IncrRefCount(interp, upath);
+            if (Jsi_Lstat(interp, upath, &lst) == 0)
+                ftyp = IFTODT(lst.st_mode);
+            Jsi_DecrRefCount(interp, upath);
+        }
 #endif
         if (ftyp == DT_LNK) {
             if (opts->noTypes && (!(flags&JSI_FILE_TYPE_LINK)))
-- 
2.43.0


From bd5e1e174ea7d7968050e4c949d5a4fb280f5052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 049/112] fix: a relative path was taken to be below / when the
 current directory can not be found

---
 src/jsiFilesys.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index f8b47eb..f3ab0b6 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1350,7 +1350,7 @@ static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
     Jsi_DString dStr = {}, eStr = {};
     if (path[0] != '/' && Jsi_Strstr(path, "..")) {
         char *npath = Jsi_GetCwd(interp, &eStr);
-        if (npath && Jsi_Strcmp(npath,"/")) {
+        if (npath && *npath && Jsi_Strcmp(npath,"/")) {
             Jsi_DSAppend(&eStr, "/", path, NULL);
             path = Jsi_DSValue(&eStr);
         }
@@ -1430,10 +1430,12 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
     if (!apath && path[0] != '~') {
         if ((path[0] == '.' && path[1] == '/') || (path[0] != '/' && 
         !(path[0] == '.' && path[1] == '.') && path[1] != ':')) {
-            Jsi_GetCwd(interp, &eStr);
-            Jsi_DSAppend(&eStr, "/", path, NULL);
-            npath = Jsi_DSValue(&eStr);
-            apath = realpath(npath, newname);
+            /* With no current directory the path stays relative: "/path" is another file. */
+            if (*Jsi_GetCwd(interp, &eStr)) {
+                Jsi_DSAppend(&eStr, "/", path, NULL);
+                npath = Jsi_DSValue(&eStr);
+                apath = realpath(npath, newname);
+            }
             //npath = (char*)path;
         }
     }
-- 
2.43.0


From bba7cd55ef90348d2c53b838d6162043107a0c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 050/112] fix: File.remove('link/',true) emptied the directory
 the link points to

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 13953e7..59408ca 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -708,7 +708,7 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     }
 
     if (Jsi_Remove(interp, source, force) != 0) {
-        if (!S_ISDIR(st.st_mode))
+        if (!S_ISDIR(st.st_mode) || errno == ENOTDIR) /* ENOTDIR: a link with "/" appended. */
             return Jsi_LogError("error deleting \"%s\": %s", spath, strerror(errno));
         if (force==0) 
             return Jsi_LogError("error deleting \"%s\": directory not empty", spath);
-- 
2.43.0


From 30ebff32823332c06ba600ff91bc02f3fde2adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 051/112] fix: a recursive File.glob went round through links
 that lead back up, without end when there are several

---
 src/jsiFileCmds.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 59408ca..ecad275 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -905,6 +905,12 @@ static Jsi_RC FileSizeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     return JSI_OK;
 }
 
+typedef struct GlobDir {  /* Directory being scanned by a recursive glob. */
+    dev_t dev;
+    ino_t ino;
+    struct GlobDir *up;
+} GlobDir;
+
 typedef struct {
     int limit;            /* Max number of results to return. */
     bool recurse;        /* Recurse into directories. */
@@ -925,6 +931,7 @@ typedef struct {
     const char *dirStr;
     int dirLen;
     const char *prefix;
+    GlobDir *dirs;
 } GlobData;
 
 static Jsi_OptionSpec GlobOptions[] = {
@@ -1007,8 +1014,22 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     if (dcp) {
         Jsi_ValueMakeString(interp, &rpPath, dcp);
     }*/
+    GlobDir self = { .up=opts->dirs };
+    Jsi_StatBuf dst;
+    n = 0;
+    if (opts->recurse && Jsi_Stat(interp, rpPath, &dst) == 0 && dst.st_ino) {
+        /* A link may lead back to a directory we are in. */
+        GlobDir *gp;
+        for (gp = self.up; gp; gp = gp->up)
+            if (gp->dev == dst.st_dev && gp->ino == dst.st_ino)
+                goto done;
+        self.dev = dst.st_dev;
+        self.ino = dst.st_ino;
+        opts->dirs = &self;
+    }
     if ((n=Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort)) < 0) {
         if (opts->recurse && deep) goto done;
+        opts->dirs = self.up;
         Jsi_LogError("bad directory");
         Jsi_DecrRefCount(interp, rpPath);
         return JSI_ERROR;
@@ -1216,6 +1237,7 @@ dumpit:
     }
 
 done:
+    opts->dirs = self.up;
     Jsi_DSFree(&tStr); Jsi_DSFree(&pStr); Jsi_DSFree(&eStr); Jsi_DSFree(&zStr);
     if (rpPath)
         Jsi_DecrRefCount(interp, rpPath);
-- 
2.43.0


From 5b4c3122eac50236c6016ce5b75249a14dec7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 052/112] fix: File.remove with force emptied a directory that
 can not itself be removed

---
 src/jsiFileCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index ecad275..a3f03b3 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -708,7 +708,8 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     }
 
     if (Jsi_Remove(interp, source, force) != 0) {
-        if (!S_ISDIR(st.st_mode) || errno == ENOTDIR) /* ENOTDIR: a link with "/" appended. */
+        /* Anything but "not empty" is final, eg. ENOTDIR for a link with "/" appended. */
+        if (!S_ISDIR(st.st_mode) || (errno != ENOTEMPTY && errno != EEXIST))
             return Jsi_LogError("error deleting \"%s\": %s", spath, strerror(errno));
         if (force==0) 
             return Jsi_LogError("error deleting \"%s\": directory not empty", spath);
-- 
2.43.0


From 49238e7a8aa8b3b32bd8140d8dc0701dab488c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:36 +0000
Subject: [PATCH 053/112] fix: File.glob with noTypes left out all directories
 and links as well

---
 src/jsiFileCmds.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index a3f03b3..3c2e08f 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1062,8 +1062,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
         }
 #endif
         if (ftyp == DT_LNK) {
-            if (opts->noTypes && (!(flags&JSI_FILE_TYPE_LINK)))
-                continue;
             snprintf(pbuf, sizeof(pbuf), "%s%s%s", spath, (spath[0]?"/":""),  z);
             Jsi_StatBuf stat;
             Jsi_Value *vpath = Jsi_ValueNewStringConst(interp, pbuf, -1);
@@ -1118,8 +1116,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 if (rc != JSI_OK)
                     goto done;
             }
-            if (opts->types==0 && opts->noTypes && (!(flags&JSI_FILE_TYPE_DIRS)))
-                continue;
         }
         // TODO: sanity check types/noTypes.
         if (opts->types) {
-- 
2.43.0


From 2a0dfd9c965566e666f8efbda5795e1883963ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 054/112] fix: a recursive File.glob for directories ignored
 the pattern and the filter, and did not recurse

---
 src/jsiFileCmds.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 3c2e08f..3abe5f9 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1104,8 +1104,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                         continue;
                     }
                 }
-                if (opts->types && Jsi_Strchr(opts->types, 'd'))
-                    goto dumpit;
                 zz = Jsi_DSValue(&sStr);
                 rc = SubGlobsDirectory(interp, obj, reg, zPattern, zz, opts, deep+1, cnt+1, _this);
                 Jsi_DSFree(&sStr);
@@ -1182,7 +1180,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 continue;
             }
         }
-dumpit:
         opts->cnt++;
         if (!opts->retCount) {
             Jsi_DSSetLength(&tStr, 0);
-- 
2.43.0


From b69b072c0854ff887f037e93330003d6585c70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 055/112] fix: exec with input died when its command did not
 read it all, and repeated or lost input after a failed write

---
 src/jsiCmds.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 67da352..9a8f2f6 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1500,7 +1500,7 @@ By default, returns the string output, unless the 'bg', 'inputStr', 'retCode' or
 Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr, bool restricted)
 {
-    int n, exitCode = 0, hasopts = 0, sLen, sLen2 = 0;
+    int n, exitCode = 0, hasopts = 0, sLen, sLen2 = 0, ioErr = 0;
     Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 0);
     const char *cp2=NULL, *cp = Jsi_ValueString(interp, arg, &sLen);
     FILE *fp = NULL;
@@ -1612,9 +1612,24 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 edata.retCode = 1;
                 edata.retval = 0;
                 cp2 = Jsi_ValueString(interp, edata.inputStr, &sLen2);
-                while ((n=fwrite(cp2, 1, sLen2, fp))>0) {
-                    sLen2 -= n;
+#ifndef __WIN32
+                void (*opipe)(int) = signal(SIGPIPE, SIG_IGN); // A command need not read its input.
+#endif
+                while (sLen2>0) {
+                    n = write(fileno(fp), cp2, sLen2);
+                    if (n>0) {
+                        cp2 += n;
+                        sLen2 -= n;
+                    } else if (n==0 || errno != EINTR) {
+                        if (n<0 && errno != EPIPE)
+                            ioErr = errno;
+                        break;
+                    }
                 }
+#ifndef __WIN32
+                if (opipe != SIG_ERR)
+                    signal(SIGPIPE, opipe);
+#endif
             } else {
                 char buf[JSI_BUFSIZ];;
                 while ((n=fread(buf, 1, sizeof(buf), fp))>0)
@@ -1626,7 +1641,9 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 exitCode = ((ec=jsi_pclose(fp, cpid))>>8);
         }
     }
-    if (exitCode && edata.noError==0 && edata.retCode==0 && edata.retAll==0) {
+    if (ioErr && edata.noError==0)
+        rc = Jsi_LogError("exec input: %s", strerror(ioErr));
+    else if (exitCode && edata.noError==0 && edata.retCode==0 && edata.retAll==0) {
         if (exitCode==ENOENT)
             Jsi_LogError("command not found: %s", cp);
         else
-- 
2.43.0


From 6e4e8ab07504e446d5fd1528d7947cf4661be047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 056/112] fix: exec returned part of the output as all of it
 when reading it failed or was interrupted

---
 src/jsiCmds.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 9a8f2f6..0bbe11c 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1632,8 +1632,18 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
 #endif
             } else {
                 char buf[JSI_BUFSIZ];;
-                while ((n=fread(buf, 1, sizeof(buf), fp))>0)
-                    Jsi_DSAppendLen(&dStr, buf, n);
+                while (1) {
+                    n = fread(buf, 1, sizeof(buf), fp);
+                    int err = (ferror(fp) ? errno : 0);
+                    if (n>0)
+                        Jsi_DSAppendLen(&dStr, buf, n);
+                    if (err == EINTR)
+                        clearerr(fp);
+                    else if (err || n<=0) {
+                        ioErr = err;
+                        break;
+                    }
+                }
             }
             if (native)
                 exitCode = ((ec=pclose(fp))>>8);
@@ -1642,7 +1652,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         }
     }
     if (ioErr && edata.noError==0)
-        rc = Jsi_LogError("exec input: %s", strerror(ioErr));
+        rc = Jsi_LogError("exec %s: %s", (edata.inputStr?"input":"output"), strerror(ioErr));
     else if (exitCode && edata.noError==0 && edata.retCode==0 && edata.retAll==0) {
         if (exitCode==ENOENT)
             Jsi_LogError("command not found: %s", cp);
-- 
2.43.0


From 742c919818e2766ef9b61e2eb0e59509ffdc6c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 057/112] fix: exec of a command killed by a signal looked like
 success

---
 src/jsiCmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 0bbe11c..f964638 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1651,6 +1651,10 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 exitCode = ((ec=jsi_pclose(fp, cpid))>>8);
         }
     }
+#ifndef __WIN32
+    if (ec != -1 && WIFSIGNALED(ec))
+        exitCode = 128+WTERMSIG(ec);
+#endif
     if (ioErr && edata.noError==0)
         rc = Jsi_LogError("exec %s: %s", (edata.inputStr?"input":"output"), strerror(ioErr));
     else if (exitCode && edata.noError==0 && edata.retCode==0 && edata.retAll==0) {
-- 
2.43.0


From f53abd537f50417097de6ec2897f3fabaa4280f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:36 +0000
Subject: [PATCH 058/112] fix: exec with chdir left the current directory
 changed without an error when it could not go back

---
 src/jsiCmds.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index f964638..e560646 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1561,7 +1561,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (cd) {
         ocd = Jsi_GetCwd(interp, &cStr);
-        if (!Jsi_FSNative(interp, edata.chdir) || Jsi_Chdir(interp, edata.chdir)<0) {
+        if (!ocd || !*ocd || !Jsi_FSNative(interp, edata.chdir) || Jsi_Chdir(interp, edata.chdir)<0) {
             cd = NULL;
             rc = Jsi_LogError("chdir failed");
             goto done;        
@@ -1693,7 +1693,8 @@ done:
     if (cd && ocd) {
         Jsi_Value *oc = Jsi_ValueNewStringDup(interp, ocd);
         Jsi_IncrRefCount(interp, oc);
-        Jsi_Chdir(interp, oc);
+        if (Jsi_Chdir(interp, oc)<0)
+            rc = Jsi_LogError("chdir back to %s failed", ocd);
         Jsi_DecrRefCount(interp, oc);
     }
     Jsi_DSFree(&cStr);
-- 
2.43.0


From 32b612881c3942d572788b17f48c6c9a09911e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:07 +0000
Subject: [PATCH 059/112] fix: exec with bg of a command that already ends in &
 ran a command the shell can not parse

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index e560646..a452564 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1567,7 +1567,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             goto done;        
         }
     }
-    if (edata.bg || (isbg=((sLen>1 && cp[sLen-1] == '&')))) {
+    if ((isbg=(sLen>1 && cp[sLen-1] == '&')) || edata.bg) {
         if (edata.inputStr) {
             rc = Jsi_LogError("input string may not used with bg");
             goto done;
-- 
2.43.0


From e9b6dd5ed089d78c6beedc11ee334756b559fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 060/112] fix: exec with input and noError returned an empty
 string, not a code, when the command could not be started

---
 src/jsiCmds.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index a452564..7e44ca7 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1605,9 +1605,11 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             fp = jsi_popen(argv, type, &cpid);
             Jsi_DSFree(&pStr);
         }
-        if (!fp) 
+        if (!fp) {
             exitCode = errno;
-        else {
+            if (edata.inputStr)
+                edata.retval = 0;
+        } else {
             if (edata.inputStr) {
                 edata.retCode = 1;
                 edata.retval = 0;
-- 
2.43.0


From ec908ec05022dd92139a292547f22164b95c978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 061/112] fix: a safe interp could create a file outside its
 directories through a dangling link

---
 src/jsi.h        |  1 +
 src/jsiFilesys.c | 64 ++++++++++++++++++++++++++++++++++++++++++++++--
 src/jsiInt.h     |  1 +
 src/jsiInterp.c  |  5 ++--
 4 files changed, 67 insertions(+), 4 deletions(-)

diff --git a/src/jsi.h b/src/jsi.h
index bfe25a0..4350aa7 100644
--- a/src/jsi.h
+++ b/src/jsi.h
@@ -169,6 +169,7 @@ typedef enum {
     JSI_INTACCESS_SETSSL    = 0x3,
     JSI_INTACCESS_MAININTERP= 0x4,
     JSI_INTACCESS_CREATE    = 0x5,
+    JSI_INTACCESS_ENTRY     = 0x6,   /* Like WRITE, but for the directory entry: a link is not followed. */
     
     JSI_LOG_BUG=0,   JSI_LOG_ASSERT,  JSI_LOG_DEBUG,
     JSI_LOG_TRACE,   JSI_LOG_TEST,    JSI_LOG_INFO,  
diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index f3ab0b6..2dcb8f4 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -6,6 +6,7 @@
 #include <fcntl.h>
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 
 #ifndef __WIN32
 #include <pwd.h>
@@ -543,8 +544,9 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
             Jsi_LogError("File open failed '%s'", fileName);
     } else {
         if (interp->isSafe) {
-            if ((rc && Jsi_InterpAccess(interp, file, JSI_INTACCESS_CREATE) != JSI_OK)
-            || (Jsi_InterpAccess(interp, file, aflag) != JSI_OK
+            Jsi_Value *nfile = (path ? path : file); /* The one that is opened. */
+            if ((rc && Jsi_InterpAccess(interp, nfile, JSI_INTACCESS_CREATE) != JSI_OK)
+            || (Jsi_InterpAccess(interp, nfile, aflag) != JSI_OK
                 && (aflag || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
             ) {
                 if (writ || Jsi_Strcmp(fileName, jsiIntData.execName)) {
@@ -1386,6 +1388,64 @@ static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
 }
 #endif
 
+/* Resolve the links in a native path just as the system would, even when the end of it does not exist yet.
+   With entry, a link in the last component is not followed. Returns NULL when in doubt, eg. for a dangling link. */
+char *jsi_SafeRealpath(Jsi_Interp *interp, Jsi_Value *file, char *newname, bool entry)
+{
+#ifdef __WIN32
+    return Jsi_Realpath(interp, file, newname);
+#else
+    Jsi_DString dStr = {}, tStr = {}, uStr = {};
+    const char *path = Jsi_ValueString(interp, file, NULL);
+    char buf[PATH_MAX], *cp, *res = NULL;
+    struct stat st;
+    int n;
+    if (!path || !*path) return NULL;
+    path = jsi_TildePath(interp, path, &dStr);
+    if ((n = Jsi_Strlen(path)) >= (int)sizeof(buf)) goto done;
+    Jsi_Strcpy(buf, path);
+    while (1) {
+        while (n>1 && buf[n-1] == '/')
+            buf[--n] = 0;
+        if (!entry) {
+            if ((res = realpath(buf, newname)))
+                break;
+            /* Just a missing file is ok. */
+            if (errno != ENOENT || lstat(buf, &st) == 0 || errno != ENOENT)
+                goto done;
+        }
+        cp = Jsi_Strrchr(buf, '/');
+        const char *last = (cp ? cp+1 : buf);
+        if (!*last || !Jsi_Strcmp(last, ".") || !Jsi_Strcmp(last, "..")) {
+            if (!entry) goto done;
+            entry = 0;
+            continue;
+        }
+        entry = 0;
+        Jsi_DSSetLength(&uStr, 0);
+        Jsi_DSAppend(&uStr, "/", last, Jsi_DSValue(&tStr), NULL);
+        Jsi_DSSetLength(&tStr, 0);
+        Jsi_DSAppend(&tStr, Jsi_DSValue(&uStr), NULL);
+        if (!cp)
+            Jsi_Strcpy(buf, ".");
+        else
+            cp[cp == buf] = 0;
+        n = Jsi_Strlen(buf);
+    }
+    if (res && (n = Jsi_DSLength(&tStr))) {
+        if (!Jsi_Strcmp(res, "/"))
+            res[0] = 0;
+        if (Jsi_Strlen(res)+n >= PATH_MAX)
+            res = NULL;
+        else
+            Jsi_Strcpy(res+Jsi_Strlen(res), Jsi_DSValue(&tStr));
+    }
+done:
+    Jsi_DSFree(&dStr); Jsi_DSFree(&tStr); Jsi_DSFree(&uStr);
+    return res;
+#endif
+}
+
 char * Jsi_GetCwd(Jsi_Interp *interp, Jsi_DString *cwdPtr) {
     char cdbuf[PATH_MAX];
     Jsi_DSInit(cwdPtr);
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3598052..15cfe5f 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1452,6 +1452,7 @@ extern Jsi_RC jsi_ObjectToStringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
 extern Jsi_Value* jsi_ValueMakeBlobDup(Jsi_Interp *interp, Jsi_Value **vPtr, unsigned char *s, int len);
 
 extern const char *jsi_GetHomeDir(Jsi_Interp *interp);
+extern char *jsi_SafeRealpath(Jsi_Interp *interp, Jsi_Value *file, char *newname, bool entry);
 extern Jsi_RC jsi_RegExpValueNew(Jsi_Interp *interp, const char *regtxt, Jsi_Value *ret);
 extern void jsi_DumpOptionSpecs(Jsi_Interp *interp, Jsi_Obj *nobj, Jsi_OptionSpec* spec);
 extern Jsi_Func *jsi_FuncMake(jsi_Pstate *pstate, Jsi_ScopeStrs *args, Jsi_OpCodes *ops, jsi_Pline *line, const char *name, int isArrow);
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 3ad7609..7123164 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2965,6 +2965,7 @@ Jsi_RC Jsi_InterpAccess(Jsi_Interp *interp, Jsi_Value* resource, int aflag)
         case JSI_INTACCESS_CREATE:
             return (interp->isSafe && interp->safeMode==jsi_safe_Lockdown?JSI_ERROR: JSI_OK);
         case JSI_INTACCESS_WRITE:
+        case JSI_INTACCESS_ENTRY:
         case JSI_INTACCESS_READ:
             break;
         default:
@@ -2972,14 +2973,14 @@ Jsi_RC Jsi_InterpAccess(Jsi_Interp *interp, Jsi_Value* resource, int aflag)
     }
     if (!resource)
         return JSI_ERROR;
-    Jsi_Value *v, *dirs = ((aflag==JSI_INTACCESS_WRITE) ? interp->safeWriteDirs : interp->safeReadDirs);
+    Jsi_Value *v, *dirs = ((aflag!=JSI_INTACCESS_READ) ? interp->safeWriteDirs : interp->safeReadDirs);
     if (!interp->isSafe)
         return JSI_OK;
     if (!dirs)
         return JSI_ERROR;
     char pbuf[PATH_MAX];
     int i, m, argc = Jsi_ValueGetLength(interp, dirs);
-    char *str, *dstr = Jsi_Realpath(interp, resource, pbuf);
+    char *str, *dstr = jsi_SafeRealpath(interp, resource, pbuf, aflag==JSI_INTACCESS_ENTRY);
     if (!dstr)
         return JSI_ERROR;
     for (i=0; i<argc; i++) {
-- 
2.43.0


From 81555abd358421410289e23c3863ad122e2d6acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 062/112] fix: a safe interp could remove, rename or replace a
 link outside its directories that points into them

---
 src/jsiFileCmds.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 3abe5f9..7a67655 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -52,6 +52,11 @@ if (interp->isSafe && (Jsi_InterpAccess(interp, fname, (!writ ? JSI_INTACCESS_RE
         || (create && Jsi_InterpAccess(interp, fname, JSI_INTACCESS_CREATE) != JSI_OK))) \
         return Jsi_LogError("%s access denied by safe interp: %s", writ?"write":"read", GSVal(fname));
 
+/* The entry itself is removed, replaced or created, even when it is a link to an allowed file. */
+#define SAFEENTRY(fname)  \
+if (interp->isSafe && Jsi_InterpAccess(interp, fname, JSI_INTACCESS_ENTRY) != JSI_OK) \
+        return Jsi_LogError("write access denied by safe interp: %s", GSVal(fname));
+
 static Jsi_RC jsi_SAFEACCESS(Jsi_Interp *interp, Jsi_Value *fname, bool write, bool create)
 {
     SAFEACCESS(fname, write, create);
@@ -525,6 +530,8 @@ static Jsi_RC FileRenameCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 
     SAFEACCESS(source, 1, 0)
     SAFEACCESS(dest, 1, 1)
+    SAFEENTRY(source)
+    SAFEENTRY(dest)
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
         return Jsi_LogError("expected boolean");
     if (vf)
@@ -599,6 +606,8 @@ static Jsi_RC FileCopyCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         return Jsi_LogError("expected boolean");
     if (vf)
         force = vf->d.val;
+    if (force)
+        SAFEENTRY(dest)
     if (force==0 && Jsi_Access(interp, dest, F_OK) == 0) 
         return Jsi_LogError("error copying \"%s\" to \"%s\": target exists", GSVal(source), GSVal(dest));
 
@@ -620,6 +629,7 @@ static Jsi_RC FileLinkCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     int hard = 0; 
     SAFEACCESS(source, 1, 0)
     SAFEACCESS(dest, 1, 1)
+    SAFEENTRY(dest)
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
         return Jsi_LogError("expected boolean");
     if (vf)
@@ -689,6 +699,7 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     const char *spath = GSVal(source);
     int rc, force = 0; 
     SAFEACCESS(source, 1, 0)
+    SAFEENTRY(source)
 
     Jsi_StatBuf st;
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
-- 
2.43.0


From fdb5b84c017f2424ad4ac37715e9b4adbf36fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 063/112] fix: File.glob in a safe interp listed directories
 outside of those it may read

---
 src/jsiFilesys.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 2dcb8f4..a9c0c2e 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -430,6 +430,10 @@ int Jsi_Scandir(Jsi_Interp *interp, Jsi_Value* path, Jsi_Dirent ***namelist,
     void *data;
     Jsi_Filesystem *fsPtr = Jsi_FilesystemForPath(interp, path, &data);
     if (fsPtr == NULL || !fsPtr->scandirProc) return -1;
+    if (interp->isSafe && fsPtr == &jsiFilesystem && Jsi_InterpAccess(interp, path, JSI_INTACCESS_READ) != JSI_OK) {
+        errno = EACCES;
+        return -1;
+    }
     return fsPtr->scandirProc(interp, path, namelist, filter, compar);
 }
 
-- 
2.43.0


From 5d159f0558d90cef86aa74c69339463b9c8f874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 064/112] fix: a safe interp could read any file with a
 sub-interp given a lockDown or scriptFile option

---
 src/jsiEval.c   | 2 +-
 src/jsiInterp.c | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index fa49499..344579f 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2540,7 +2540,7 @@ Jsi_RC jsi_evalStrFile(Jsi_Interp* interp, Jsi_Value *path, const char *str, int
                 }
                 
                 bool osafe = interp->isSafe;
-                if (interp->startSafe  && flags&JSI_EVAL_ARGV0) {
+                if (interp->startSafe  && flags&JSI_EVAL_ARGV0 && !(interp->parent && interp->parent->isSafe)) {
                     if (interp->safeReadDirs || interp->safeMode == jsi_safe_None)
                         interp->isSafe = 0;
                     else {
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 7123164..94b0bb6 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1378,6 +1378,10 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
             interp->safeWriteDirs = interp->safeReadDirs = NULL;
             interp->safeExecPattern = NULL;
         }
+        if (interp->lockDown) {
+            Jsi_LogWarn("ignoring lockDown in safe sub-sub-interp");
+            interp->lockDown = NULL;
+        }
         // Enforce LOCKSAFE options.
         interp->maxDepth = parent->maxDepth;
         interp->maxArrayList = parent->maxArrayList;
-- 
2.43.0


From b87f18232df08b281db6000a367ae5a1858cd8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 065/112] fix: a safe interp could read and write any database
 with ATTACH, VACUUM INTO, backup and restore

---
 src/jsiSqlite.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 52839fd..e687ad0 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1497,6 +1497,21 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
     Jsi_DecrRefCount(interp, ret);
 }
 
+/* May a safe interp use this database file? */
+static Jsi_RC dbSafeAccess(Jsi_Interp *interp, const char *zFile, bool readonly) {
+    if( !Jsi_InterpSafe(interp) ) return JSI_OK;
+    if( !zFile || !Jsi_Strncmp(zFile, "file:", 5) ) return JSI_ERROR; /* Not known until run, or an URI. */
+    if( !*zFile || !Jsi_Strcmp(zFile, ":memory:") ) return JSI_OK;
+    Jsi_StatBuf st;
+    Jsi_Value *vf = Jsi_ValueNewStringDup(interp, zFile);
+    Jsi_IncrRefCount(interp, vf);
+    Jsi_RC rc = Jsi_InterpAccess(interp, vf, (readonly ? JSI_INTACCESS_READ : JSI_INTACCESS_WRITE));
+    if( rc==JSI_OK && Jsi_Lstat(interp, vf, &st)!=0 )
+        rc = Jsi_InterpAccess(interp, vf, JSI_INTACCESS_CREATE);
+    Jsi_DecrRefCount(interp, vf);
+    return rc;
+}
+
 /*
 ** This is the authentication function.  It appends the authentication
 ** type code and the two arguments to zCmd[] then invokes the result
@@ -1516,6 +1531,14 @@ static int dbAuthCallback(
     const char *zReply;
     Jsi_Db *db = (Jsi_Db*)pArg;
     Jsi_Interp *interp = db->interp;
+    if( Jsi_InterpSafe(interp) ) {
+        if( code==SQLITE_ATTACH && dbSafeAccess(interp, zArg1, db->readonly)!=JSI_OK )
+            return SQLITE_DENY;
+        if( code==SQLITE_PRAGMA && zArg2 && zArg1
+            && (!sqlite3_stricmp(zArg1, "temp_store_directory") || !sqlite3_stricmp(zArg1, "data_store_directory")) )
+            return SQLITE_DENY;
+        if( !db->onAuth ) return SQLITE_OK;
+    }
     if( db->disableAuth ) return SQLITE_OK;
 
     switch( code ) {
@@ -3363,6 +3386,11 @@ static Jsi_RC SqliteRestoreCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         zSrcFile = Jsi_ValueNormalPath(interp, vFile, &dStr);
         if (zSrcFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
+        if (dbSafeAccess(interp, zSrcFile, 1) != JSI_OK) {
+            Jsi_LogErrorExt("read access denied by safe interp: %s", zSrcFile);
+            Jsi_DSFree(&dStr);
+            return JSI_ERROR;
+        }
     }
     rc = sqlite3_open_v2(zSrcFile, &pSrc, SQLITE_OPEN_READONLY, 0);
 
@@ -3496,6 +3524,11 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         zDestFile = Jsi_ValueNormalPath(interp, vFile, &dStr);
         if (zDestFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
+        if (dbSafeAccess(interp, zDestFile, 0) != JSI_OK) {
+            Jsi_LogErrorExt("write access denied by safe interp: %s", zDestFile);
+            Jsi_DSFree(&dStr);
+            return JSI_ERROR;
+        }
     }
     rc = sqlite3_open(zDestFile, &pDest);
     if( rc!=SQLITE_OK ) {
@@ -3526,7 +3559,7 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth)
+    if (db->onAuth || Jsi_InterpSafe(db->interp))
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
-- 
2.43.0


From 72aa5788f161988608be6349e46f3cffff9dda34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 066/112] fix: a safe interp could load a library with the load
 option of Sqlite

---
 src/jsiSqlite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index e687ad0..91d1586 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3609,6 +3609,11 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
     else
         sqlite3_progress_handler(db->db, 0, 0, 0);
     
+    if (db->load && Jsi_InterpSafe(db->interp)) {
+        Jsi_Interp *interp = db->interp;
+        Jsi_LogWarnExt("ignoring load in safe interp");
+        db->load = 0;
+    }
     if (!ojdb || db->load != ojdb->load)
         sqlite3_enable_load_extension(db->db, db->load);
 
-- 
2.43.0


From 63499e14b5996bd1be0176f6fdd49f55983afe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 067/112] fix: a safe interp could run native code with load or
 require of a shared library

---
 src/jsiLoad.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiLoad.c b/src/jsiLoad.c
index faf5d39..d501368 100644
--- a/src/jsiLoad.c
+++ b/src/jsiLoad.c
@@ -46,6 +46,8 @@ Jsi_RC Jsi_LoadLibrary(Jsi_Interp *interp, const char *pathName, bool noInit)
 {
     if (interp->noLoad)
         return Jsi_LogError("shared lib load is disabled");
+    if (interp->isSafe)
+        return Jsi_LogError("no load in safe mode");
 #ifdef __WIN32
     HMODULE handle = LoadLibrary(pathName);
 #else
-- 
2.43.0


From 54570261db151b5188daa0c2b5a89e92c21f3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 068/112] fix: a read denied in a safe sub-sub-interp crashed
 the program

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index a9c0c2e..c02552b 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -551,7 +551,7 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
             Jsi_Value *nfile = (path ? path : file); /* The one that is opened. */
             if ((rc && Jsi_InterpAccess(interp, nfile, JSI_INTACCESS_CREATE) != JSI_OK)
             || (Jsi_InterpAccess(interp, nfile, aflag) != JSI_OK
-                && (aflag || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
+                && (aflag || !interp->opts.argv || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
             ) {
                 if (writ || Jsi_Strcmp(fileName, jsiIntData.execName)) {
                     Jsi_LogError("%s access denied: %s", writ?"write":"read", fileName);
-- 
2.43.0


From ead64d0492d56f624714a9cd707b51858b2f82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 069/112] fix: a safe interp could make a device and get at a
 whole disk through it

---
 src/jsiFileCmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 7a67655..fa140d0 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -418,6 +418,8 @@ static Jsi_RC FileMknodCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     SAFEACCESS(fname, 1, 1)
     mode_t mode = (mode_t)m;
     dev_t dev = (dev_t)d;
+    if (interp->isSafe && (S_ISBLK(mode) || S_ISCHR(mode)))
+        return Jsi_LogError("no devices in safe mode: %s", nam);
     if (mknod(nam, mode, dev))
         return Jsi_LogError("mknod failed: %s", strerror(errno));
     return JSI_OK;
-- 
2.43.0


From 35f2b22f87a68a8a035be46c5a625b1a43dcfd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 070/112] fix: exec with noRedir or in a safe interp ran
 whatever followed a newline in the command

---
 src/jsiCmds.c | 2 +-
 src/jsiVfs.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 7e44ca7..b576f56 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1549,7 +1549,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (restricted || edata.noRedir) {
         // Sanity check command string to disallow shell escapes, redirection, etc.
-        if (strcspn(cp, "<>|;&$`=") != strlen(cp))
+        if (strcspn(cp, "<>|;&$`=\n") != strlen(cp))
             return Jsi_LogError("restricted chars in exec string: %s", cp);
     }
     int isbg = 0, ec = 0;
diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index 6bbc090..c5e1047 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -825,7 +825,7 @@ static Jsi_RC VfsExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (!cmd || !cmd[0]) 
         return Jsi_LogError("Expected command");
     const char *ops[] = {"fossil info ", "fossil ls ", "fossil cat ", "fossil tag ", NULL};
-    const char *chs = ";&|><*?`$(){}[]!#";
+    const char *chs = ";&|><*?`$(){}[]!#\n";
     int i;
     for (i=0; chs[i]; i++)
         if (Jsi_Strchr(cmd, chs[i]))
-- 
2.43.0


From f29de2a742c859389bf7029515a10813e7073c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 071/112] fix: a safe interp could hide any file of the others
 by mounting an archive over it

---
 src/jsiZvfs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index cbeb720..b0379f2 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -476,6 +476,10 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         zMountPoint = mbuf;
     } else {
         zMountPoint = Jsi_ValueToString(interp, mount, NULL);
+        /* A mount hides what is there from everybody. */
+        if (Jsi_InterpSafe(interp)
+            && Jsi_InterpAccess(interp, (*zMountPoint ? mount : archive), JSI_INTACCESS_WRITE) != JSI_OK)
+            return Jsi_LogError("write access denied by safe interp: %s", (*zMountPoint ? zMountPoint : SS(archive)));
     }
     chan = Jsi_Open(interp, archive, "rb");
     if (!chan) {
-- 
2.43.0


From f065cfb33c364a115518a366352d863f75636f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 072/112] fix: Zvfs.create that could not open the archive
 emptied or removed the file, even outside the directories of a safe interp

---
 src/jsiZvfs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index b0379f2..9cea641 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1994,8 +1994,10 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             rc = JSI_ERROR;
             goto doexit;
         }
-        chan = Jsi_Open(interp, Archive, "wb+");
-        create = 1;
+        Jsi_StatBuf asb;
+        if (Jsi_Stat(interp, Archive, &asb) != 0) // One that exists is not to be replaced.
+            chan = Jsi_Open(interp, Archive, "wb+");
+        create = (chan != 0);
     }
     if (chan==0 ) {
         rc = Jsi_LogError("archive create failed for: %s", SS(Archive));
-- 
2.43.0


From 38460d42a97f808ab5e9a5ef0379ca9b05d9a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 073/112] fix: a safe interp could read and run any file with
 Interp.source, which took it for the main script

---
 src/jsiInterp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 94b0bb6..c605171 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2142,7 +2142,7 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             sinterp->framePtr->tryDepth++;
         if (isFile) {
             int sflags = 0;
-            if (!sinterp->includeCnt) {
+            if (!sinterp->includeCnt && !(sinterp == interp && interp->isSafe)) {
                 sflags = JSI_EVAL_ARGV0|JSI_EVAL_AUTOINDEX;
                 sinterp->isMain = 1;
             }
-- 
2.43.0


From 3f81c56f7a47c822f8c618ef957b8225b7c2ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:08 +0000
Subject: [PATCH 074/112] fix: an async eval to a thread was lost when another
 one queued with it failed or ended in a comment

---
 src/jsiInt.h    |  2 +-
 src/jsiInterp.c | 43 ++++++++++++++++++++++---------------------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 15cfe5f..3088753 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -887,7 +887,7 @@ typedef struct InterpStrEvent_ {
 #ifdef JSI_HAS_SIG
     jsi_Sig sig;
 #endif
-    int rc, isExec, tryDepth, errLine;
+    int rc, isExec, tryDepth, errLine; /* isExec: 1=waited for, 2=async eval */
     const char *errFile;
     Jsi_DString func;
     Jsi_DString data;
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index c605171..65f59e3 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2125,10 +2125,23 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     if (cp==NULL || *cp == 0)
         return JSI_OK;
     if (async && isthrd) {
-        /* Post to thread event in sub-interps queue. TODO: could just use event like below... */
+        /* Post to thread event in sub-interps queue. */
         if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
             return JSI_ERROR;
-        Jsi_DSAppend(&sinterp->interpEvalQ, Jsi_Strlen(Jsi_DSValue(&sinterp->interpEvalQ))?";":"", cp, NULL);
+        InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
+        SIGINIT(s,INTERPSTREVENT);
+        s->isExec = 2;
+        Jsi_DSInit(&s->data);
+        Jsi_DSAppend(&s->data, cp, NULL);
+        Jsi_DSInit(&s->func);
+        se = sinterp->interpStrEvents;
+        if (!se)
+            sinterp->interpStrEvents = s;
+        else {
+            while (se->next)
+                se = se->next;
+            se->next = s;
+        }
         Jsi_MutexUnlock(interp, sinterp->QMutex);
         return JSI_OK;
     }
@@ -2365,23 +2378,6 @@ Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
 static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
 {
     Jsi_RC rc = JSI_OK;
-    Jsi_DString dStr = {};
-    if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
-        return JSI_ERROR;
-    char *cp = Jsi_DSValue(&interp->interpEvalQ);
-    if (*cp) {
-        Jsi_DSAppend(&dStr, cp, NULL);
-        Jsi_DSSetLength(&interp->interpEvalQ, 0);
-        interp->threadEvalCnt++;
-        Jsi_MutexUnlock(interp, interp->QMutex);
-        if (Jsi_EvalString(interp, Jsi_DSValue(&dStr), 0) != JSI_OK)
-            rc = JSI_ERROR;
-        Jsi_DSSetLength(&dStr, 0);
-        if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
-            return JSI_ERROR;
-    }
-    Jsi_MutexUnlock(interp, interp->QMutex);
-    Jsi_DSFree(&dStr);
     if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
         return JSI_ERROR;
 
@@ -2390,8 +2386,13 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
     Jsi_MutexUnlock(interp, interp->QMutex);
     while (se) {
         oldse = se;
-        int isExec = se->isExec;
-        if (se->acdata) {
+        int isExec = (se->isExec == 1);
+        if (se->isExec == 2) { /* An async eval. */
+            interp->threadEvalCnt++;
+            if (Jsi_EvalString(interp, Jsi_DSValue(&se->data), 0) != JSI_OK)
+                rc = JSI_ERROR;
+        }
+        else if (se->acdata) {
             jsi_AliasCreateCmd(interp, Jsi_DSValue(&se->func), (AliasCmd*)se->acdata);
         }
         else if (se->acfunc) {
-- 
2.43.0


From 28e07e0b1ce574779f830d1289d40cf6bf7c6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 075/112] fix: a waiting eval to a thread could return the
 value of another script, and left the interp's mutex locked

---
 src/jsiInterp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 65f59e3..13c6466 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2145,8 +2145,8 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_MutexUnlock(interp, sinterp->QMutex);
         return JSI_OK;
     }
-    if (interp->subOpts.mutexUnlock) Jsi_MutexUnlock(interp, interp->Mutex);
     if (!isthrd) {
+        if (interp->subOpts.mutexUnlock) Jsi_MutexUnlock(interp, interp->Mutex);
         int onoerror = sinterp->noCheck;
         if (interp->isSafe)
             sinterp->noCheck = 0;
@@ -2207,9 +2207,12 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         rc = (s->rc == 0 ? JSI_OK : JSI_ERROR);
         if (rc != JSI_OK)
             Jsi_LogError("eval failed: %s", Jsi_DSValue(&s->data));
+        else if (Jsi_DSLength(&s->data) && Jsi_JSONParse(interp, Jsi_DSValue(&s->data), ret, 0) != JSI_OK)
+            Jsi_LogWarn("bad JSON parse in subinterp");
         Jsi_DSFree(&s->func);
         Jsi_DSFree(&s->data);
         Jsi_Free(s);
+        return rc; /* The value of the sub-interp may by now be of something else. */
     }
 
     if (interp->subOpts.mutexUnlock && Jsi_MutexLock(interp, interp->Mutex) != JSI_OK) {
@@ -2410,7 +2413,8 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
                 se->errLine = interp->errLine;
                 se->errFile = interp->errFile;
             } else {
-                if (!Jsi_ValueGetDString(interp, interp->retValue, &se->data, JSI_OUTPUT_JSON))
+                if (interp->retValue->vt != JSI_VT_UNDEF &&
+                    !Jsi_ValueGetDString(interp, interp->retValue, &se->data, JSI_OUTPUT_JSON))
                     se->rc = JSI_ERROR;
             }
             if (se->tryDepth)
-- 
2.43.0


From 729935b3a5bcb72e2af8d89f6e05c162c526f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:58 +0000
Subject: [PATCH 076/112] fix: a waiting call to a thread ran in the thread of
 the caller, on the stack of the other when it slept

---
 src/jsiInterp.c | 94 +++++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 13c6466..f391a7d 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2085,6 +2085,43 @@ static bool interpObjEqual(void *data1, void *data2)
     return (data1 == data2);
 }
 
+/* Have the thread of sinterp evaluate data, or call func with data as arguments, and wait for the result. */
+static Jsi_RC InterpExecWait(Jsi_Interp *interp, Jsi_Interp *sinterp, const char *func, const char *data, Jsi_Value **ret)
+{
+    if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
+        return JSI_ERROR;
+    InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
+    SIGINIT(s,INTERPSTREVENT);
+    s->isExec = 1;
+    s->tryDepth = interp->framePtr->tryDepth;
+    Jsi_DSInit(&s->data);
+    Jsi_DSAppend(&s->data, data, NULL);
+    Jsi_DSInit(&s->func);
+    if (func)
+        Jsi_DSAppend(&s->func, func, NULL);
+    se = sinterp->interpStrEvents;
+    if (!se)
+        sinterp->interpStrEvents = s;
+    else {
+        while (se->next)
+            se = se->next;
+        se->next = s;
+    }
+
+    Jsi_MutexUnlock(interp, sinterp->QMutex);
+    while (s->isExec)      /* Wait until done. TODO: timeout??? */
+        Jsi_Sleep(interp, 1);
+    Jsi_RC rc = (s->rc == 0 ? JSI_OK : JSI_ERROR);
+    if (rc != JSI_OK)
+        Jsi_LogError("%s failed: %s", (func?"call":"eval"), Jsi_DSValue(&s->data));
+    else if (Jsi_DSLength(&s->data) && Jsi_JSONParse(interp, Jsi_DSValue(&s->data), ret, 0) != JSI_OK)
+        Jsi_LogWarn("bad JSON parse in subinterp");
+    Jsi_DSFree(&s->func);
+    Jsi_DSFree(&s->data);
+    Jsi_Free(s);
+    return rc;
+}
+
 /* TODO: possibly support async func-callback.  Also for call/send. */
 static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr, int flags)
@@ -2180,40 +2217,8 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             }
         }
         sinterp->level--;
-    } else {
-        if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
-            return JSI_ERROR;
-        InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
-        SIGINIT(s,INTERPSTREVENT);
-        s->isExec = 1;
-        s->tryDepth = interp->framePtr->tryDepth;
-        Jsi_DSInit(&s->data);
-        Jsi_DSAppend(&s->data, cp, NULL);
-        Jsi_DSInit(&s->func);
-        //s->mutex = Jsi_MutexNew(interp, -1, JSI_MUTEX_RECURSIVE);
-        //Jsi_MutexLock(s->mutex);
-        se = sinterp->interpStrEvents;
-        if (!se)
-            sinterp->interpStrEvents = s;
-        else {
-            while (se->next)
-                se = se->next;
-            se->next = s;
-        }
-
-        Jsi_MutexUnlock(interp, sinterp->QMutex);
-        while (s->isExec)      /* Wait until done. TODO: timeout??? */
-            Jsi_Sleep(interp, 1);
-        rc = (s->rc == 0 ? JSI_OK : JSI_ERROR);
-        if (rc != JSI_OK)
-            Jsi_LogError("eval failed: %s", Jsi_DSValue(&s->data));
-        else if (Jsi_DSLength(&s->data) && Jsi_JSONParse(interp, Jsi_DSValue(&s->data), ret, 0) != JSI_OK)
-            Jsi_LogWarn("bad JSON parse in subinterp");
-        Jsi_DSFree(&s->func);
-        Jsi_DSFree(&s->data);
-        Jsi_Free(s);
-        return rc; /* The value of the sub-interp may by now be of something else. */
-    }
+    } else
+        return InterpExecWait(interp, sinterp, NULL, cp, ret);
 
     if (interp->subOpts.mutexUnlock && Jsi_MutexLock(interp, interp->Mutex) != JSI_OK) {
         return JSI_ERROR;
@@ -2406,17 +2411,25 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
         else if (isExec) {
             if (se->tryDepth)
                 interp->framePtr->tryDepth++;
-            se->rc = Jsi_EvalString(interp, Jsi_DSValue(&se->data), 0);
+            Jsi_Value *rv = NULL;
+            if (!Jsi_DSLength(&se->func))
+                se->rc = Jsi_EvalString(interp, Jsi_DSValue(&se->data), 0);
+            else { /* A call. */
+                rv = Jsi_ValueNew1(interp);
+                se->rc = Jsi_CommandInvokeJSON(interp, Jsi_DSValue(&se->func), Jsi_DSValue(&se->data), &rv);
+            }
             Jsi_DSSetLength(&se->data, 0);
             if (se->rc != JSI_OK && se->tryDepth) {
                 Jsi_DSAppend(&se->data, interp->errMsgBuf, NULL);
                 se->errLine = interp->errLine;
                 se->errFile = interp->errFile;
             } else {
-                if (interp->retValue->vt != JSI_VT_UNDEF &&
-                    !Jsi_ValueGetDString(interp, interp->retValue, &se->data, JSI_OUTPUT_JSON))
+                Jsi_Value *sv = (rv ? rv : interp->retValue);
+                if (sv->vt != JSI_VT_UNDEF && !Jsi_ValueGetDString(interp, sv, &se->data, JSI_OUTPUT_JSON))
                     se->rc = JSI_ERROR;
             }
+            if (rv)
+                Jsi_DecrRefCount(interp, rv);
             if (se->tryDepth)
                 interp->framePtr->tryDepth--;
 
@@ -2529,14 +2542,17 @@ static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
             cp = (char*)Jsi_ValueGetDString(interp, arg, &dStr, JSI_OUTPUT_JSON);
         if (!cp)
             return JSI_ERROR;
+        if (isthrd) { /* Has to run in the thread of the sub-interp. */
+            rc = InterpExecWait(interp, sinterp, fname, cp, ret);
+            Jsi_DSFree(&dStr);
+            return rc;
+        }
         if (interp->subOpts.mutexUnlock) Jsi_MutexUnlock(interp, interp->Mutex);
         if (Jsi_MutexLock(interp, sinterp->Mutex) != JSI_OK) {
             if (interp->subOpts.mutexUnlock) Jsi_MutexLock(interp, interp->Mutex);
             return JSI_ERROR;
         }
         Jsi_Value *srPtr = Jsi_ValueNew1(sinterp);
-        /* TODO: call from this interp may not be safe if threaded.
-         * Could instead use async code below then wait for unlock on se->mutex. */
         rc = Jsi_CommandInvokeJSON(sinterp, fname, cp, &srPtr);
         Jsi_DSSetLength(&dStr, 0);
         Jsi_CleanValue(sinterp, interp, srPtr, ret);
-- 
2.43.0


From 924d18945264b9600bd68dbc69b35e1b2233c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:46 +0000
Subject: [PATCH 077/112] fix: until its thread had started, an interp with
 subthread was used as if it ran in the thread of its creator

A call, eval or alias right after new Interp({subthread:true}) ran at
once in the thread of the creator, maybe while the new thread began the
script of the same interp.  threadId was only set by the new thread.
---
 src/jsiInterp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index f391a7d..825ef59 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2734,7 +2734,7 @@ static JSITHREADRET NewInterpThread(void* iPtr)
     int rc = JSI_OK;
     InterpObj *udf = (InterpObj *)iPtr;
     Jsi_Interp *interp = udf->subinterp;
-    interp->threadId = Jsi_CurrentThread();
+    interp->threadId = Jsi_CurrentThread(); /* NULL until now. */
     if (interp->scriptStr)
         rc = Jsi_EvalString(interp, interp->scriptStr, 0);
     else if (interp->scriptFile) {
@@ -2825,6 +2825,7 @@ static Jsi_RC InterpConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     cmdPtr->fobj = fobj;
 #ifndef JSI_OMIT_THREADS
     if (sinterp->subthread) {
+        sinterp->threadId = NULL; /* Is not in our thread, though its own did not yet start. */
 #ifdef __WIN32
         if (!_beginthread( NewInterpThread, 0, cmdPtr )) {
             Jsi_LogError("thread create failed");
-- 
2.43.0


From 00dfb88b44ed0fc424c43980ef541adccb858f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:01 +0000
Subject: [PATCH 078/112] fix: an interp that was called from the callback of a
 call of it ran the first call again, and freed it twice

Interp.call queued the call behind the one being run, which was still at
the head of the list, then processed the list from its head.
---
 src/jsiInterp.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 825ef59..967cfa5 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2390,10 +2390,11 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
         return JSI_ERROR;
 
     /* Process subevents. */
-    InterpStrEvent *oldse, *se = interp->interpStrEvents;
+    InterpStrEvent *se = interp->interpStrEvents;
+    if (se) /* Take it, so a nested call does not see it again. */
+        interp->interpStrEvents = se->next;
     Jsi_MutexUnlock(interp, interp->QMutex);
     while (se) {
-        oldse = se;
         int isExec = (se->isExec == 1);
         if (se->isExec == 2) { /* An async eval. */
             interp->threadEvalCnt++;
@@ -2442,18 +2443,19 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
             if (JSI_OK != Jsi_CommandInvokeJSON(interp, Jsi_DSValue(&se->func), scp, NULL))
                 rc = JSI_ERROR;
         }
-        if (!isExec) {
+        if (isExec)
+            se->isExec = 0; /* Is freed by the waiter. */
+        else {
             Jsi_DSFree(&se->func);
             Jsi_DSFree(&se->data);
+            Jsi_Free(se);
         }
         if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
             return JSI_ERROR;
-        interp->interpStrEvents = se->next;
-        if (!isExec) Jsi_Free(se);
         se = interp->interpStrEvents;
+        if (se)
+            interp->interpStrEvents = se->next;
         Jsi_MutexUnlock(interp, interp->QMutex);
-        if (isExec)
-            oldse->isExec = 0;
     }
 
     return rc;
-- 
2.43.0


From 2f2ac7a9cc7470a2c28d2102f3dc2dc03d509df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 079/112] fix: a callback from a thread changed the refcounts
 of the other thread's values, and crashed when it had no arguments

jsi_AliasInvoke built the argument list from values of the destination
interp, in the wrong thread and without a lock: values were lost or freed
while in use.  Now only the JSON of the arguments is queued, the arguments
and function of the alias are used when it runs, in their own thread.
---
 src/jsiInt.h    |   3 +-
 src/jsiInterp.c | 113 ++++++++++++++++++++++++++++++++++--------------
 2 files changed, 83 insertions(+), 33 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3088753..e8f0fb8 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -893,7 +893,8 @@ typedef struct InterpStrEvent_ {
     Jsi_DString data;
     struct InterpStrEvent_ *next;
     void *acdata;
-    Jsi_Value *acfunc;
+    void *acalias; /* The AliasCmd of a queued callback, or when that is gone acfunc and acargs. */
+    Jsi_Value *acfunc, *acargs;
     void *mutex;
 } InterpStrEvent;
 
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 967cfa5..6300f2e 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -287,42 +287,30 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     SIGASSERT(ac,ALIASCMD);
     bool isthrd = (interp != dinterp && interp->threadId != dinterp->threadId);
-    Jsi_Value *nrPtr = Jsi_ValueNew1(dinterp);
-
-     if (argc == 0 && ac->args)
-        nargs = ac->args;
-     else if (argc) {
-        if (dinterp == interp)
-            Jsi_ValueCopy(interp, nrPtr, args);
-        else if (Jsi_CleanValue(interp, dinterp, args, &nrPtr) != JSI_OK)
-            return JSI_ERROR;
-        if (ac->args && Jsi_ValueGetLength(dinterp, ac->args)) {
-            nargs = Jsi_ValueArrayConcat(dinterp, ac->args, nrPtr);
-            Jsi_IncrRefCount(dinterp, nargs);
-            inc=1;
-        } else {
-            nargs = nrPtr;
-        }
-    }
 
     if (isthrd) {
-        /* Post to thread event in sub-interps queue. */
-        if (Jsi_MutexLock(interp, dinterp->QMutex) != JSI_OK)
-            return JSI_ERROR;
-
-       /* Is an async call. */
+        /* Post to event queue of dinterp.  Its values are for its own thread only, where refcounts change. */
         InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
-        // TODO: is s->data inited?
+        Jsi_DSInit(&s->func);
         Jsi_DSInit(&s->data);
-        if (!Jsi_ValueGetDString(interp, nargs, &s->data, JSI_OUTPUT_JSON)) {
+        if (argc) {
+            Jsi_Value *cPtr = Jsi_ValueNew1(interp);
+            Jsi_RC crc = Jsi_CleanValue(interp, interp, args, &cPtr);
+            if (crc == JSI_OK && !Jsi_ValueGetDString(interp, cPtr, &s->data, JSI_OUTPUT_JSON))
+                crc = JSI_ERROR;
+            Jsi_DecrRefCount(interp, cPtr);
+            if (crc != JSI_OK) {
+                Jsi_DSFree(&s->data);
+                Jsi_Free(s);
+                return crc;
+            }
+        }
+        s->acalias = ac;
+        if (Jsi_MutexLock(interp, dinterp->QMutex) != JSI_OK) {
+            Jsi_DSFree(&s->data);
             Jsi_Free(s);
             return JSI_ERROR;
         }
-        if (inc)
-            Jsi_DecrRefCount(dinterp, nargs);
-        Jsi_DecrRefCount(dinterp, nrPtr);
-        s->acfunc = ac->func;
-        Jsi_IncrRefCount(dinterp, ac->func);
         se = dinterp->interpStrEvents;
         if (!se)
             dinterp->interpStrEvents = s;
@@ -336,6 +324,24 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         return JSI_OK;
     }
 
+    Jsi_Value *nrPtr = Jsi_ValueNew1(dinterp);
+
+     if (argc == 0 && ac->args)
+        nargs = ac->args;
+     else if (argc) {
+        if (dinterp == interp)
+            Jsi_ValueCopy(interp, nrPtr, args);
+        else if (Jsi_CleanValue(interp, dinterp, args, &nrPtr) != JSI_OK)
+            return JSI_ERROR;
+        if (ac->args && Jsi_ValueGetLength(dinterp, ac->args)) {
+            nargs = Jsi_ValueArrayConcat(dinterp, ac->args, nrPtr);
+            Jsi_IncrRefCount(dinterp, nargs);
+            inc=1;
+        } else {
+            nargs = nrPtr;
+        }
+    }
+
     if (dinterp != interp) {
         if (interp->subOpts.mutexUnlock) Jsi_MutexUnlock(interp, interp->Mutex);
         if (Jsi_MutexLock(interp, dinterp->Mutex) != JSI_OK) {
@@ -374,11 +380,51 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
 }
 
 
+/* Let a queued callback keep the function and arguments of its alias. */
+static void jsi_AliasBind(Jsi_Interp *interp, InterpStrEvent *se) {
+    AliasCmd *ac = (AliasCmd *)se->acalias;
+    se->acalias = NULL;
+    se->acfunc = ac->func;
+    Jsi_IncrRefCount(interp, se->acfunc);
+    if ((se->acargs = ac->args))
+        Jsi_IncrRefCount(interp, se->acargs);
+}
+
+/* Run a callback that was queued by a thread. */
+static Jsi_RC jsi_AliasCallback(Jsi_Interp *interp, InterpStrEvent *se) {
+    Jsi_RC rc = JSI_OK;
+    Jsi_Value *args = Jsi_ValueNew1(interp), *nargs = NULL;
+    if (!Jsi_DSLength(&se->data)) {
+        if (!se->acargs)
+            Jsi_ValueMakeArrayObject(interp, &args, NULL);
+    } else if ((rc = Jsi_JSONParse(interp, Jsi_DSValue(&se->data), &args, 0)) == JSI_OK
+        && se->acargs && Jsi_ValueGetLength(interp, se->acargs)) {
+        nargs = Jsi_ValueArrayConcat(interp, se->acargs, args);
+        Jsi_IncrRefCount(interp, nargs);
+    }
+    if (rc == JSI_OK)
+        rc = Jsi_FunctionInvoke(interp, se->acfunc, (nargs?nargs:!Jsi_DSLength(&se->data) && se->acargs?se->acargs:args), NULL, NULL);
+    if (nargs)
+        Jsi_DecrRefCount(interp, nargs);
+    Jsi_DecrRefCount(interp, args);
+    Jsi_DecrRefCount(interp, se->acfunc);
+    if (se->acargs)
+        Jsi_DecrRefCount(interp, se->acargs);
+    return rc;
+}
+
 static Jsi_RC jsi_AliasFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *data) {
     /* TODO: deal with other copies of func may be floating around (refCount). */
     AliasCmd *ac = (AliasCmd *)data;
     if (!ac) return JSI_ERROR;
     SIGASSERT(ac,ALIASCMD);
+    if (ac->subinterp && ac->subinterp->subthread && ac->dinterp && Jsi_MutexLock(ac->dinterp, ac->dinterp->QMutex) == JSI_OK) {
+        InterpStrEvent *se;
+        for (se = ac->dinterp->interpStrEvents; se; se = se->next)
+            if (se->acalias == ac)
+                jsi_AliasBind(ac->dinterp, se);
+        Jsi_MutexUnlock(ac->dinterp, ac->dinterp->QMutex);
+    }
     if (ac->func)
         Jsi_DecrRefCount(ac->dinterp, ac->func);
     if (ac->args)
@@ -1915,6 +1961,8 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
         interp->interpStrEvents = se->next;
         if (se->acfunc)
             Jsi_DecrRefCount(interp, se->acfunc);
+        if (se->acargs)
+            Jsi_DecrRefCount(interp, se->acargs);
         if (se->acdata)
             Jsi_Free(se->acdata);
         Jsi_Free(se);
@@ -2404,10 +2452,11 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
         else if (se->acdata) {
             jsi_AliasCreateCmd(interp, Jsi_DSValue(&se->func), (AliasCmd*)se->acdata);
         }
-        else if (se->acfunc) {
-            if (JSI_OK != Jsi_FunctionInvokeJSON(interp, se->acfunc, Jsi_DSValue(&se->data), NULL, NULL))
+        else if (se->acalias || se->acfunc) {
+            if (se->acalias)
+                jsi_AliasBind(interp, se);
+            if (JSI_OK != jsi_AliasCallback(interp, se))
                 rc = JSI_ERROR;
-            Jsi_DecrRefCount(interp, se->acfunc);
         }
         else if (isExec) {
             if (se->tryDepth)
-- 
2.43.0


From ce0ab2d8ca3626629a19ac2b43239670bd339bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:14 +0000
Subject: [PATCH 080/112] fix: a program whose output could not be written, or
 that was read from stdin and called exit, ended with status 0

---
 src/jsiInterp.c | 8 +++++---
 src/main.c      | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 6300f2e..40eae03 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2293,10 +2293,12 @@ Jsi_Interp *jsi_DoExit(Jsi_Interp *interp, int rc)
 {
     if (rc<0 || rc>127) rc = 127;
     if (!interp || !interp->opts.no_exit) {
-        if (rc) {
-            Jsi_Flush(interp, jsi_Stdout);
-            Jsi_Flush(interp, jsi_Stderr);
+        /* A program whose output was not written did not succeed. */
+        if ((fflush(stdout) || ferror(stdout)) && !rc) {
+            fprintf(stderr, "ERROR: write to stdout failed\n");
+            rc = 1;
         }
+        fflush(stderr);
         exit(rc);
     }
     fprintf(stderr, "ignoring attempted exit: may cause a crash\n");
diff --git a/src/main.c b/src/main.c
index 62f4082..cd6eca3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -6,6 +6,8 @@
 #include <stdlib.h>
 
 #ifndef JSI_LITE_ONLY
+extern Jsi_Interp *jsi_DoExit(Jsi_Interp *interp, int rc);
+
 int jsi_main(int argc, char **argv)
 {
      // A replacement for shebang "#!/usr/bin/env".
@@ -48,7 +50,8 @@ int jsi_main(int argc, char **argv)
     if (interp)
         Jsi_InterpDelete(interp);
     Jsi_DSFree(&sStr);
-    exit(0);
+    jsi_DoExit(NULL, opts.exitCode);
+    return 0;
 }
 
 #if JSI__MAIN
-- 
2.43.0


From 3fc8e32b9aadf9e4aa6555392a0eeee26a1097f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:14 +0000
Subject: [PATCH 081/112] fix: puts lost everything after two null chars in a
 row, or after a leading one

---
 src/jsiFilesys.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index c02552b..2c2a1a4 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1049,6 +1049,21 @@ int Jsi_Printf(Jsi_Interp *interp, Jsi_Channel chan, const char *fmt, ...)
 int Jsi_Puts(Jsi_Interp *interp, Jsi_Channel chan, const char *str, int size)
 {
     int code = 0, len = Jsi_Strlen(str);
+    if (size>len && !(interp && interp->debugOpts.putsCallback && interp->parent)) { /* Show every null char as \0. */
+        Jsi_DString zStr = {};
+        int i, n;
+        for (i=0; i<size; i+=n+1) {
+            n = Jsi_Strlen(str+i);
+            if (n>size-i)
+                n = size-i;
+            Jsi_DSAppendLen(&zStr, str+i, n);
+            if (i+n<size)
+                Jsi_DSAppend(&zStr, "\\0", NULL);
+        }
+        code = Jsi_Puts(interp, chan, Jsi_DSValue(&zStr), -1);
+        Jsi_DSFree(&zStr);
+        return code;
+    }
     if (chan->fsPtr==0 || !chan->fsPtr->putsProc) {
         FILE *fp = (chan && chan->fp ? chan->fp : stdout);
         code = fputs(str, fp);
@@ -1072,10 +1087,6 @@ int Jsi_Puts(Jsi_Interp *interp, Jsi_Channel chan, const char *str, int size)
 
             code = chan->fsPtr->putsProc(chan, str);
     }
-    if (size>=0 && len>0 && len < size) {
-        Jsi_Puts(interp, chan, "\\0", -1);
-        Jsi_Puts(interp, chan, str+len+1, size-len-1);
-    }
     return code;
 }
 
-- 
2.43.0


From ff20246ba9aa3f7dae41d4bb97312fced26b5dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:14 +0000
Subject: [PATCH 082/112] fix: console.input split or cut lines, took a read
 error for the end, and freed its result twice when given a prompt

---
 src/jsiCmds.c  | 53 +++++++++++++++++++++++++++-----------------------
 src/jsiInt.h   |  1 +
 src/jsiUtils.c | 39 ++++++++++++++++++++++++++++---------
 3 files changed, 60 insertions(+), 33 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index b576f56..b69d21c 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -16,9 +16,9 @@ char *strptime(const char *buf, const char *fmt, struct tm *tm);
 static Jsi_RC consoleInputCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    char buf[1024];
-    char *cp, *p = buf;
-    buf[0] = 0;
+    char *cp, *p;
+    int n, ilen, rc = 0;
+    Jsi_DString dStr = {};
     Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 0);
     if (v) {
         if (interp->isSafe)
@@ -33,38 +33,43 @@ static Jsi_RC consoleInputCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if (cp) {
             p  = jsi_RlGetLine(interp, cp);
             if (p) {
-                Jsi_ValueMakeString(interp, ret, p);
+                Jsi_DSAppend(&dStr, p, NULL);
                 Jsi_Free(p);
-            }
-            return JSI_OK;
+                rc = 1;
+            } else if (ferror(stdin))
+                rc = -1;
+            goto done;
         }
     }
     if (!interp->stdinStr)
-        p=fgets(buf, sizeof(buf), stdin);
+        rc = jsi_StdinLine(&dStr);
     else {
-        int ilen;
         cp = Jsi_ValueString(interp, interp->stdinStr, &ilen);
-        if (!cp || ilen<=0)
-            p = NULL;
-        else {
-            Jsi_Strncpy(buf, cp, sizeof(buf));
-            buf[sizeof(buf)-1] = 0;
-            p = Jsi_Strchr(buf, '\n');
-            if (p) { *p = 0;}
-            ilen = Jsi_Strlen(buf);
-            p = (cp + ilen + (p?1:0));
-            Jsi_ValueMakeStringDup(interp, &interp->stdinStr, p);
-            p = buf;
+        if (cp && ilen>0) {
+            p = Jsi_Strchr(cp, '\n');
+            n = (p ? p-cp : (int)Jsi_Strlen(cp));
+            Jsi_DSAppendLen(&dStr, cp, n);
+            Jsi_ValueMakeStringDup(interp, &interp->stdinStr, cp + n + (p?1:0));
+            rc = 1;
         }
     }
-    
-    if (p == NULL) {
+done:
+    if (rc <= 0) {
+        Jsi_DSFree(&dStr);
+        if (rc < 0) {
+            clearerr(stdin);
+            return Jsi_LogError("read of stdin failed");
+        }
         Jsi_ValueMakeUndef(interp, ret);
         return JSI_OK;
     }
-    if ((p = Jsi_Strchr(buf, '\r'))) *p = 0;
-    if ((p = Jsi_Strchr(buf, '\n'))) *p = 0;
-    Jsi_ValueMakeStringDup(interp, ret, buf);
+    /* Without the end of the line. */
+    n = Jsi_DSLength(&dStr);
+    cp = Jsi_DSValue(&dStr);
+    if (n>0 && cp[n-1] == '\n') n--;
+    if (n>0 && cp[n-1] == '\r') n--;
+    Jsi_DSSetLength(&dStr, n);
+    Jsi_ValueFromDS(interp, &dStr, ret);
     return JSI_OK;
 }
 
diff --git a/src/jsiInt.h b/src/jsiInt.h
index e8f0fb8..043e9d2 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1504,6 +1504,7 @@ extern void jsi_FuncFree(Jsi_Interp *interp, Jsi_Func *func);
 extern void jsi_ToHexStr(const uchar *indata, int dlen, char *out);
 extern bool jsi_StrIsBalanced(char *str);
 extern char* jsi_RlGetLine(Jsi_Interp* interp, const char *prompt);
+extern int jsi_StdinLine(Jsi_DString *dStr);
 extern void jsi_DumpValue(Jsi_Interp *interp, Jsi_Value *arg);
 extern Jsi_RC jsi_ObjSetFlag(Jsi_Interp *interp, Jsi_Obj *obj, int flag, int on);
 extern Jsi_RC jsi_SetterCall(Jsi_Interp *interp, Jsi_HashEntry *hPtr, Jsi_Value *val, Jsi_Value *_this, int flags);
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 704bb71..e782af5 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -962,6 +962,29 @@ bool jsi_StrIsBalanced(char *str) {
     return ((quote%2) == 0 && cnt <= 0);
 }
 
+/* Append a line of stdin, with its newline.  Returns 1, or 0 at the end, or -1 (leaving ferror set). */
+int jsi_StdinLine(Jsi_DString *dStr)
+{
+    int c, n = 0;
+    char ch;
+    while (1) {
+        if ((c = getc(stdin)) == EOF) {
+            if (!ferror(stdin))
+                break;
+            if (errno != EINTR)
+                return -1;
+            clearerr(stdin);
+            continue;
+        }
+        ch = c;
+        n++;
+        Jsi_DSAppendLen(dStr, &ch, 1);
+        if (ch == '\n')
+            break;
+    }
+    return (n>0);
+}
+
 static char *get_inputline(Jsi_Interp *interp, int istty, const char *prompt)
 {
     char *res;
@@ -972,19 +995,13 @@ static char *get_inputline(Jsi_Interp *interp, int istty, const char *prompt)
         return res;
     }
 #endif
-    int done = 0;
-    char bbuf[JSI_BUFSIZ];
     Jsi_DString dStr = {};
     if (istty)
         fputs(prompt, stdout);
     fflush(stdout);
-    while (!done) { /* Read a line. */
-        bbuf[0] = 0;
-        if (fgets(bbuf, sizeof(bbuf), stdin) == NULL)
-            return NULL;
-        Jsi_DSAppend(&dStr, bbuf, NULL);
-        if (Jsi_Strlen(bbuf) < (sizeof(bbuf)-1) || bbuf[sizeof(bbuf)-1] == '\n')
-            break;
+    if (jsi_StdinLine(&dStr) <= 0) {
+        Jsi_DSFree(&dStr);
+        return NULL;
     }
     res = Jsi_Strdup(Jsi_DSValue(&dStr));
     Jsi_DSFree(&dStr);
@@ -1301,6 +1318,10 @@ Jsi_RC Jsi_Interactive(Jsi_Interp* interp, int flags)
         Jsi_DSSetLength(&dStr, 0);
         len = 0;
     }
+    if (done && !istty && ferror(stdin)) { /* Not the end of the script. */
+        Jsi_LogError("read of stdin failed");
+        interp->exited = interp->exitCode = 1;
+    }
     interp->level--;
 #ifdef JSI_HAS_READLINE
     if (hist && !interp->isSafe) {
-- 
2.43.0


From 618a564f5196c1f3a60181ce8f637eb1e9c709e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:12 +0000
Subject: [PATCH 083/112] fix: strings with null chars or chars above 0xFFFF
 were cut or changed by JSON and between interpreters

---
 src/jsiInt.h    |  1 +
 src/jsiInterp.c |  2 +-
 src/jsiJSON.c   |  9 +++++++--
 src/jsiLexer.c  | 10 +++++++++-
 src/jsiUtf8.c   | 52 +++++++++++++++++++++++++++++++++++++++----------
 src/jsiUtils.c  |  2 +-
 6 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 043e9d2..f3b99a8 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1505,6 +1505,7 @@ extern void jsi_ToHexStr(const uchar *indata, int dlen, char *out);
 extern bool jsi_StrIsBalanced(char *str);
 extern char* jsi_RlGetLine(Jsi_Interp* interp, const char *prompt);
 extern int jsi_StdinLine(Jsi_DString *dStr);
+extern bool jsi_UtfPair(const char *hi, const char *lo, char *uo);
 extern void jsi_DumpValue(Jsi_Interp *interp, Jsi_Value *arg);
 extern Jsi_RC jsi_ObjSetFlag(Jsi_Interp *interp, Jsi_Obj *obj, int flag, int on);
 extern Jsi_RC jsi_SetterCall(Jsi_Interp *interp, Jsi_HashEntry *hPtr, Jsi_Value *val, Jsi_Value *_this, int flags);
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 40eae03..5ca29ef 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -236,9 +236,9 @@ Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val,
         case JSI_VT_BOOL: Jsi_ValueMakeBool(tointerp, ret, val->d.val); return rc;
         case JSI_VT_NUMBER: Jsi_ValueMakeNumber(tointerp, ret, val->d.num); return rc;
         case JSI_VT_STRING:
-            iskey = 1;//val->f.bits.isstrkey;
             cp = val->d.s.str;
             len = val->d.s.len;
+            iskey = (len<0 || (int)Jsi_Strlen(cp)==len); // A key ends at the first null char.
 makestr:
             if (iskey) {
                 Jsi_ValueMakeStringKey(interp, ret, cp);
diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index ff6a0da..5891880 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -22,6 +22,10 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case '\\': *dp++ = '\\'; break;
                 case 'u': 
                     if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
+                        if ((cp-str)+12<=len && cp[6] == '\\' && cp[7] == 'u' && jsi_UtfPair(cp+2, cp+8, dp)) {
+                            ulen = 4;
+                            cp += 6;
+                        }
                         dp += ulen;
                         cp += 4;
                     } else {                    
@@ -406,9 +410,9 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
     int i = 0;
     if (len<0)
         len = Jsi_Strlen(str);
-    char cbuf[10];
+    char cbuf[16];
     Jsi_DSAppend(dsPtr,"\"",NULL);
-    while (*cp && i++<len) {
+    while (i++<len) {
         if (*cp == '\\' /* || *cp == '/' */ || *cp == '\"') {
             cbuf[0] = '\\';
             cbuf[1] = *cp;
@@ -426,6 +430,7 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
                     if ((ilen = Jsi_UtfEncode(cp, cbuf))) {
                         Jsi_DSAppend(dsPtr,cbuf,NULL);
                         cp += (ilen-1);
+                        i += (ilen-1);
                     }
             }
         } else {
diff --git a/src/jsiLexer.c b/src/jsiLexer.c
index f5fcecd..42ae60e 100644
--- a/src/jsiLexer.c
+++ b/src/jsiLexer.c
@@ -170,7 +170,8 @@ static Jsi_String* jsi_do_string(jsi_Lexer *lex)
     int endchar = c, isnull = 0;
     uint32_t flags = 0;
     
-    int bufi = 0, bsiz, done = 0;
+    int bufi = 0, bsiz, done = 0, hiPos = -1;
+    char hiBuf[5] = {};
     char unibuf[bsiz=JSI_BUFSIZ], *buf = unibuf, *ret = NULL;
     
     while (!done) {
@@ -200,13 +201,20 @@ static Jsi_String* jsi_do_string(jsi_Lexer *lex)
                 case 'u': {
                     char ibuf[5];
                     int ui;
+                    bool isPair = (hiPos>=0 && hiPos==bufi-3);
                     for (ui=0; ui<4; ui++)
                         ibuf[ui] = lexer_getchar(lex);
                     ibuf[4] = 0;
+                    if (isPair && jsi_UtfPair(hiBuf, ibuf, buf+hiPos)) {
+                        bufi = hiPos + 4;
+                        break;
+                    }
                     ui = Jsi_UtfDecode(ibuf, buf+bufi);
                     if (ui>0) {
                         if (!buf[bufi])
                             isnull = 1;
+                        memcpy(hiBuf, ibuf, sizeof(hiBuf));
+                        hiPos = bufi;
                         bufi+=ui;
                     } else {
                         Jsi_LogError("Unexpected utf encoding.");
diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index c7e3b05..ff159ef 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -218,21 +218,53 @@ uint Jsi_UtfToUniChar(const char *utf, Jsi_UniChar *uc)
 #endif
 }
 
-// Encode UTF number to \uNNNN form.  Returns size.
+// Encode UTF number to \uNNNN form, or \uNNNN\uNNNN above 0xFFFF.  outstr has 13 chars.  Returns size.
 uint Jsi_UtfEncode(const char *innum, char *outstr) {
-    int32_t ival;
-    int ilen;
-    outstr[0] = '\\';
-    outstr[1] = 'u';
-    outstr[6] = 0;
+    int32_t ival, v[2];
+    int ilen, i, n = 1;
+    char chk[8];
     ilen = Jsi_UtfToUniChar((char*)innum, &ival);
-    outstr[2] = jsi_toHexChar((ival&0xF000)>>12);
-    outstr[3] = jsi_toHexChar((ival&0xF00)>>8);
-    outstr[4] = jsi_toHexChar((ival&0xF0)>>4);
-    outstr[5] = jsi_toHexChar((ival&0x0F));
+    if ((*innum&0x80) && (ilen==1 || ival>0x10FFFF || (ival>=0xD800 && ival<=0xDFFF)
+        || (int)Jsi_UniCharToUtf(ival, chk) != ilen || memcmp(chk, innum, ilen))) {
+        outstr[0] = *innum; // A byte that is not UTF-8 stands for itself.
+        outstr[1] = 0;
+        return 1;
+    }
+    v[0] = ival;
+    if (ival>0xFFFF) {
+        v[0] = 0xD800 + ((ival-0x10000)>>10);
+        v[1] = 0xDC00 + ((ival-0x10000)&0x3FF);
+        n = 2;
+    }
+    for (i=0; i<n; i++, outstr += 6) {
+        outstr[0] = '\\';
+        outstr[1] = 'u';
+        outstr[2] = jsi_toHexChar((v[i]&0xF000)>>12);
+        outstr[3] = jsi_toHexChar((v[i]&0xF00)>>8);
+        outstr[4] = jsi_toHexChar((v[i]&0xF0)>>4);
+        outstr[5] = jsi_toHexChar((v[i]&0x0F));
+    }
+    *outstr = 0;
     return ilen;
 }
 
+// Decode the NNNN of two \uNNNN that are a surrogate pair.
+bool jsi_UtfPair(const char *hi, const char *lo, char *uo) {
+    uint v[2] = {};
+    int i, j;
+    for (i=0; i<2; i++)
+        for (j=0; j<4; j++) {
+            char c = (i?lo:hi)[j];
+            if (!isxdigit(c))
+                return 0;
+            v[i] = (v[i]<<4) + jsi_fromHexChar(c);
+        }
+    if (v[0]<0xD800 || v[0]>0xDBFF || v[1]<0xDC00 || v[1]>0xDFFF)
+        return 0;
+    Jsi_UniCharToUtf(0x10000 + ((v[0]-0xD800)<<10) + (v[1]-0xDC00), uo);
+    return 1;
+}
+
 // Decode \uNNNN string to a UTF number.
 uint Jsi_UtfDecode(const char *str, char* uo) {
     char c;
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index e782af5..25ef64e 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -801,7 +801,7 @@ outstr:
                 } else if (isprint(*str) || !isjson)
                     Jsi_DSAppendLen(dStr,str, 1);
                 else {
-                    char ubuf[10];
+                    char ubuf[16];
                     int l = Jsi_UtfEncode(str, ubuf);
                     Jsi_DSAppend(dStr,ubuf, NULL);
                     str += l-1;
-- 
2.43.0


From 7514035d3ef40c3d5e6e5165c5c633c2d6e03c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:19 +0000
Subject: [PATCH 084/112] fix: an error or exit in the compare function of
 Array.sort was lost

---
 src/jsiArray.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index c650f8e..f40491a 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -937,6 +937,7 @@ typedef struct {
     bool unique;
     Jsi_Value *compare;
     int errCnt;
+    Jsi_RC rc;
 } SortInfo;
 
 static const char *sortArrayStrs[] = {"default", "desc", "dict", "nocase", 0};
@@ -966,7 +967,7 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
     Jsi_Interp *interp = si->interp;
     int sortFlags = si->flags;
 
-    if (interp == NULL || interp->deleting)
+    if (interp == NULL || interp->deleting || si->rc != JSI_OK)
         return 0;
     Jsi_Value *v1 = *(Jsi_Value**)p1, *v2 = *(Jsi_Value**)p2;
     int rc = 0;
@@ -980,9 +981,9 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
             Jsi_Value *retP = Jsi_ValueNew1(interp);
             Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vv, 2, 0));
             Jsi_IncrRefCount(interp, vpargs);
-            rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
+            si->rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
             Jsi_DecrRefCount(interp, vpargs);
-            if (rc == JSI_OK) {
+            if (si->rc == JSI_OK) {
                 Jsi_Number d = 0;
                 if (Jsi_ValueGetNumber(interp, retP, &d) == JSI_OK)
                     rc = -(int)d;
@@ -1086,7 +1087,7 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
         return JSI_ERROR;
     }
-    if (si.unique) {
+    if (si.unique && si.rc == JSI_OK) {
         int n, diff = 1, dupCnt=0;
         for (n=0, i=1; i<(int)obj->arrCnt; i++) {
             if (obj->arr[n] == obj->arr[i])
@@ -1119,6 +1120,10 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
     if (hasopt)
         Jsi_OptionsFree(interp, jsi_ArraySortOptions, &si, 0);
+    if (si.rc != JSI_OK) {
+        obj->modifying = 0;
+        return si.rc;
+    }
 done:
     v = Jsi_ValueMakeObject(interp, NULL, obj);
     Jsi_ValueReplace(interp, ret, v);
-- 
2.43.0


From 5c0a6e9e2add53a8331291cd04443210e0972c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 085/112] fix: the time of an archive member was a month late,
 and its minutes and seconds wrong

---
 src/jsiZvfs.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 9cea641..02f6763 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -95,7 +95,8 @@ typedef struct ZFile {
     int nExtra;          /* Extra space in the TOC header */
     int iCRC;            /* Cyclic Redundancy Check of the data */
     int permissions;     /* File permissions. */
-    int flags;            /* Deletion = bit 0. */
+    int flags;            /* General purpose flags */
+    int method;           /* Compression method: 8=deflate, 0=stored. */
     struct ZFile *pNext;        /* Next file in the same archive */
 } ZFile;
 
@@ -164,25 +165,23 @@ static void deleteZFileList(ZFile *pList) {
     }
 }
 
-/* Convert DOS time to unix time. */
+/* Convert unix time to DOS time. */
 static void UnixTimeDate(struct tm *tm, int *dosDate, int *dosTime) {
     *dosDate = ((((tm->tm_year-80)<<9)&0xfe00) | (((tm->tm_mon+1)<<5)&0x1e0) | (tm->tm_mday&0x1f));
-    *dosTime = (((tm->tm_hour<<11)&0xf800) | ((tm->tm_min<<5)&0x7e0) | (tm->tm_sec&0x1f));
+    *dosTime = (((tm->tm_hour<<11)&0xf800) | ((tm->tm_min<<5)&0x7e0) | ((tm->tm_sec/2)&0x1f));
 }
 
 /* Convert DOS time to unix time. */
 static time_t DosTimeDate(int dosDate, int dosTime) {
-    time_t now;
-    struct tm *tm;
-    now=time(NULL);
-    tm = localtime(&now);
-    tm->tm_year=(((dosDate&0xfe00)>>9) + 80);
-    tm->tm_mon=((dosDate&0x1e0)>>5);
-    tm->tm_mday=(dosDate & 0x1f);
-    tm->tm_hour=(dosTime&0xf800)>>11;
-    tm->tm_min=(dosTime&0x7e0)>>5;
-    tm->tm_sec=(dosTime&0x1f);
-    return mktime(tm);
+    struct tm tm = {};
+    tm.tm_year=(((dosDate&0xfe00)>>9) + 80);
+    tm.tm_mon=((dosDate&0x1e0)>>5)-1;
+    tm.tm_mday=(dosDate & 0x1f);
+    tm.tm_hour=(dosTime&0xf800)>>11;
+    tm.tm_min=(dosTime&0x7e0)>>5;
+    tm.tm_sec=(dosTime&0x1f)*2;
+    tm.tm_isdst=-1;
+    return mktime(&tm);
 }
 
 /* Return count of char ch in str */
@@ -1601,13 +1600,14 @@ static void translateDosTimeDate(char *zStr, int zsiz, int dosDate, int dosTime)
                               "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
                             };
 
+    int mon = ((dosDate&0x1e0)>>5);
     snprintf(zStr, zsiz, "%02d-%s-%d %02d:%02d:%02d",
             dosDate & 0x1f,
-            zMonth[ ((dosDate&0x1e0)>>5) ],
+            zMonth[ mon>12 ? 0 : mon ],
             ((dosDate&0xfe00)>>9) + 1980,
             (dosTime&0xf800)>>11,
-            (dosTime&0x7e)>>5,
-            dosTime&0x1f
+            (dosTime&0x7e0)>>5,
+            (dosTime&0x1f)*2
            );
 }
 
-- 
2.43.0


From 4de03acd72fe8408926e09ed60b91b7549680b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:07 +0000
Subject: [PATCH 086/112] fix: creating an archive reported success when it
 could not be written, append destroyed the members it had, and a failure left
 a broken archive

---
 src/jsiZvfs.c | 242 ++++++++++++++++++++++++++++----------------------
 1 file changed, 136 insertions(+), 106 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 02f6763..8aa54f2 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -263,6 +263,33 @@ static char *CanonicalPath(const char *zRoot, const char *zTail) {
     return zPath;
 }
 
+/* Read exactly len bytes. */
+static bool zvfsReadAll(Jsi_Interp *interp, Jsi_Channel chan, void *buf, int len) {
+    int n, cnt = 0;
+    while (cnt < len) {
+        n = Jsi_Read(interp, chan, (char*)buf + cnt, len - cnt);
+        if (n <= 0)
+            return 0;
+        cnt += n;
+    }
+    return 1;
+}
+
+/*
+** Read the 22 byte "End Of Central Directory" record at the end of chan into zBuf,
+** and its position to iPos. Returns JSI_BREAK if there is none.
+*/
+static Jsi_RC zvfsReadEOCD(Jsi_Interp *interp, Jsi_Channel chan, unsigned char *zBuf, int *iPos) {
+    if (Jsi_Seek(interp, chan, 0, SEEK_END) < 0 || (*iPos = Jsi_Tell(interp, chan)) < 0)
+        return JSI_ERROR;
+    *iPos -= 22;
+    if (*iPos < 0)
+        return JSI_BREAK;
+    if (Jsi_Seek(interp, chan, *iPos, SEEK_SET) < 0 || !zvfsReadAll(interp, chan, zBuf, 22))
+        return JSI_ERROR;
+    return (memcmp(zBuf, "\120\113\05\06", 4) ? JSI_BREAK : JSI_OK);
+}
+
 static Jsi_RC ZvfsReadTOCStart(
     Jsi_Interp *interp,    /* Leave error messages in this interpreter */
     Jsi_Channel chan,
@@ -294,21 +321,22 @@ static Jsi_RC ZvfsReadTOCStart(
     /* Read the "End Of Central Directory" record from the end of the
     ** ZIP archive.
     */
-    Jsi_Seek(interp, chan, -22, SEEK_END);
-    iPos = Jsi_Tell(interp, chan);
-    Jsi_Read(interp, chan, (char*)zBuf, 22);
-    if (memcmp(zBuf, "\120\113\05\06", 4)) {
+    Jsi_RC rc = zvfsReadEOCD(interp, chan, zBuf, &iPos);
+    if (rc == JSI_ERROR)
+        return Jsi_LogError("archive read failed");
+    if (rc != JSI_OK) {
         /* Jsi_LogError("not a ZIP archive"); */
-        return JSI_BREAK;
+        return rc;
     }
 
     /* Compute the starting location of the directory for the ZIP archive
     ** in iPos then seek to that location.
     */
-    zipStart = iPos;
     nFile = INT16(zBuf,8);
     iPos -= INT32(zBuf,12);
-    Jsi_Seek(interp, chan, iPos, SEEK_SET);
+    zipStart = iPos;
+    if (iPos < 0 || Jsi_Seek(interp, chan, iPos, SEEK_SET) < 0)
+        return Jsi_LogError("archive read failed");
 
     while(1) {
         int lenName;            /* Length of the next filename */
@@ -328,7 +356,8 @@ static Jsi_RC ZvfsReadTOCStart(
         ** the size of the "extra" information, and the offset into the archive
         ** file of the file data.
         */
-        Jsi_Read(interp, chan, (char*)zBuf, 46);
+        if (!zvfsReadAll(interp, chan, zBuf, 46))
+            return Jsi_LogError("archive read failed");
         if (memcmp(zBuf, "\120\113\01\02", 4)) 
             return Jsi_LogError("ill-formed central directory entry");
         lenName = INT16(zBuf,28);
@@ -341,7 +370,8 @@ static Jsi_RC ZvfsReadTOCStart(
         p = newZFile(lenName, pList);
         if (!p) break;
 
-        Jsi_Read(interp, chan, p->zName, lenName);
+        if (!zvfsReadAll(interp, chan, p->zName, lenName))
+            return Jsi_LogError("archive read failed");
         p->zName[lenName] = 0;
         if (lenName>0 && p->zName[lenName-1] == '/') {
             p->isSpecial = 1;
@@ -350,8 +380,12 @@ static Jsi_RC ZvfsReadTOCStart(
         p->dosTime = INT16(zBuf, 12);
         p->nByteCompr = INT32(zBuf, 20);
         p->nByte = INT32(zBuf, 24);
-        p->nExtra = INT32(zBuf, 28);
+        p->nExtra = 0;
         p->iCRC = INT32(zBuf, 16);
+        p->iOffset = iData;
+        p->permissions = (0xffff&(INT32(zBuf, 38) >> 16));
+        p->flags = INT16(zBuf, 8);
+        p->method = INT16(zBuf, 10);
 
         if (nFile < 0)
             break;
@@ -359,7 +393,8 @@ static Jsi_RC ZvfsReadTOCStart(
         /* Skip over the extra information so that the next read will be from
         ** the beginning of the next directory entry.
         */
-        Jsi_Seek(interp, chan, lenExtra, SEEK_CUR);
+        if (lenExtra && Jsi_Seek(interp, chan, lenExtra, SEEK_CUR) < 0)
+            return Jsi_LogError("archive read failed");
     }
     *iStart = zipStart;
     return JSI_OK;
@@ -1634,11 +1669,11 @@ static Jsi_RC ZvfsListCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (chan==0)
         return JSI_ERROR;
     Jsi_RC rc = ZvfsReadTOC(interp, chan, &pList);
+    Jsi_Close(interp, chan);
     if( rc==JSI_ERROR ) {
         deleteZFileList(pList);
         return rc;
     }
-    Jsi_Close(interp, chan);
     nobj = Jsi_ObjNew(interp);
     Jsi_ValueMakeArrayObject(interp, ret, nobj);
     sobj = Jsi_ObjNew(interp);
@@ -1698,9 +1733,14 @@ static Jsi_RC writeFile(
     char zOutBuf[COMPR_BUF_SIZE*1];
     struct tm *tm;
     time_t now;
-    struct stat stat;
+    Jsi_StatBuf stat;
     const char *zDest = Jsi_ValueToString(interp, Dest, NULL);
-    int isdir = (in == NULL);
+    int isdir = (in == NULL), iStart, isInit = 0;
+    if (Jsi_Stat(interp, Src, &stat) != 0 || (iStart = Jsi_Tell(interp, out)) < 0) {
+        if (in)
+            Jsi_Close(interp, in);
+        return JSI_ERROR;
+    }
     nameLen = Jsi_Strlen(zDest);
 
     /* Create a new ZFile structure for this file.
@@ -1711,11 +1751,11 @@ static Jsi_RC writeFile(
     if (isdir)
         Jsi_Strcpy(p->zName + nameLen-1, "/");
     p->isSpecial = 0;
-    Jsi_Stat(interp, Src, &stat);
     now=stat.st_mtime;
     tm = localtime(&now);
     UnixTimeDate(tm, &p->dosDate, &p->dosTime);
-    p->iOffset = Jsi_Tell(interp, out);
+    p->iOffset = iStart;
+    p->method = (isdir ? 0 : 8);
     p->nByte = 0;
     p->nByteCompr = 0;
     p->nExtra = 0;
@@ -1727,7 +1767,7 @@ static Jsi_RC writeFile(
     put32(&zHdr[0], 0x04034b50);
     put16(&zHdr[4], 0x0014);
     put16(&zHdr[6], 0);
-    put16(&zHdr[8], 8);
+    put16(&zHdr[8], p->method);
     put16(&zHdr[10], p->dosTime);
     put16(&zHdr[12], p->dosDate);
     put16(&zHdr[26], nameLen);
@@ -1735,8 +1775,9 @@ static Jsi_RC writeFile(
 
     /* Write the header and filename.
     */
-    Jsi_Write(interp, out, zHdr, 30);
-    Jsi_Write(interp, out, p->zName, nameLen);
+    memset(&zHdr[14], 0, 12);
+    if (Jsi_Write(interp, out, zHdr, 30) != 30 || Jsi_Write(interp, out, p->zName, nameLen) != nameLen)
+        goto fail;
 
     /* The first two bytes that come out of the deflate compressor are
     ** some kind of header that ZIP does not use.  So skip the first two
@@ -1754,64 +1795,51 @@ static Jsi_RC writeFile(
     stream.avail_out = sizeof(zOutBuf);
     stream.next_out = (uchar*)zOutBuf;
     if (in) {
-#if 1
-    deflateInit(&stream, Z_DEFAULT_COMPRESSION);
-#else
-    {
-        int i, err, WSIZE = 0x8000, windowBits, level=6;
-        for (i = ((unsigned)WSIZE), windowBits = 0; i != 1; i >>= 1, ++windowBits);
-        err = deflateInit2(&stream, level, Z_DEFLATED, -windowBits, 8, 0);
-
-    }
-#endif
+        int flush;
+        if (deflateInit(&stream, Z_DEFAULT_COMPRESSION) != Z_OK)
+            goto fail;
+        isInit = 1;
         p->iCRC = crc32(0, 0, 0);
-        while(!Jsi_Eof(interp, in) ) {
-            if( stream.avail_in==0 ) {
-                int amt = Jsi_Read(interp, in, zInBuf, sizeof(zInBuf));
-                if( amt<=0 ) break;
-                p->iCRC = crc32(p->iCRC, (uchar*)zInBuf, amt);
-                stream.avail_in = amt;
-                stream.next_in = (uchar*)zInBuf;
-            }
-            deflate(&stream, 0);
-            toOut = sizeof(zOutBuf) - stream.avail_out;
-            if( toOut>skip ) {
-                Jsi_Write(interp, out, &zOutBuf[skip], toOut - skip);
-                skip = 0;
-            } else {
-                skip -= toOut;
-            }
-            stream.avail_out = sizeof(zOutBuf);
-            stream.next_out = (uchar*)zOutBuf;
-        }
         do {
-            stream.avail_out = sizeof(zOutBuf);
-            stream.next_out = (uchar*)zOutBuf;
-            deflate(&stream, Z_FINISH);
-            toOut = sizeof(zOutBuf) - stream.avail_out;
-            if( toOut>skip ) {
-                Jsi_Write(interp, out, &zOutBuf[skip], toOut - skip);
-                skip = 0;
-            } else {
-                skip -= toOut;
-            }
-        } while( stream.avail_out==0 );
+            int amt = Jsi_Read(interp, in, zInBuf, sizeof(zInBuf));
+            if( amt<0 ) goto fail;
+            flush = (amt==0 ? Z_FINISH : Z_NO_FLUSH);
+            if( amt>0 )
+                p->iCRC = crc32(p->iCRC, (uchar*)zInBuf, amt);
+            stream.avail_in = amt;
+            stream.next_in = (uchar*)zInBuf;
+            do {
+                stream.avail_out = sizeof(zOutBuf);
+                stream.next_out = (uchar*)zOutBuf;
+                int status = deflate(&stream, flush);
+                if( status != Z_OK && status != Z_STREAM_END && status != Z_BUF_ERROR ) goto fail;
+                toOut = sizeof(zOutBuf) - stream.avail_out;
+                if( toOut>skip ) {
+                    if (Jsi_Write(interp, out, &zOutBuf[skip], toOut - skip) != toOut - skip)
+                        goto fail;
+                    skip = 0;
+                } else {
+                    skip -= toOut;
+                }
+            } while( stream.avail_out==0 );
+        } while( flush != Z_FINISH );
         p->nByte = stream.total_in;
         p->nByteCompr = stream.total_out - 2;
         deflateEnd(&stream);
-        Jsi_Flush(interp, out);
+        isInit = 0;
     }
 
     /* Remember were we are in the file.  Then go back and write the
     ** header, now that we know the compressed file size.
     */
-    iEndOfData = Jsi_Tell(interp, out);
-    Jsi_Seek(interp, out, p->iOffset, SEEK_SET);
     put32(&zHdr[14], p->iCRC);
     put32(&zHdr[18], p->nByteCompr);
     put32(&zHdr[22], p->nByte);
-    Jsi_Write(interp, out, zHdr, 30);
-    Jsi_Seek(interp, out, iEndOfData, SEEK_SET);
+    iEndOfData = Jsi_Tell(interp, out);
+    if (iEndOfData < 0 || Jsi_Seek(interp, out, p->iOffset, SEEK_SET) < 0
+        || Jsi_Write(interp, out, zHdr, 30) != 30
+        || Jsi_Seek(interp, out, iEndOfData, SEEK_SET) < 0)
+        goto fail;
 
     /* Close the input file.
     */
@@ -1821,6 +1849,13 @@ static Jsi_RC writeFile(
     /* Finished!
     */
     return JSI_OK;
+
+fail:
+    if (isInit)
+        deflateEnd(&stream);
+    if (in)
+        Jsi_Close(interp, in);
+    return JSI_ERROR;
 }
 
 /*
@@ -1890,37 +1925,40 @@ static ZFile *sortZFiles(ZFile *pList) {
 ** Write a ZIP archive table of contents to the given
 ** channel.
 */
-static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
+static Jsi_RC writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
     int iTocStart, iTocEnd;
     int nEntry = 0;
     int i;
     char zBuf[100];
 
     iTocStart = Jsi_Tell(interp, chan);
+    if (iTocStart < 0)
+        return JSI_ERROR;
     for(; pList; pList=pList->pNext) {
-        if( pList->isSpecial ) continue;
+        int nameLen = Jsi_Strlen(pList->zName);
         put32(&zBuf[0], 0x02014b50);
         put16(&zBuf[4], 0x0317);
         put16(&zBuf[6], 0x0014);
-        put16(&zBuf[8], 0);
-        put16(&zBuf[10], pList->nByte>pList->nByteCompr ? 0x0008 : 0x0000);
+        put16(&zBuf[8], pList->flags);
+        put16(&zBuf[10], pList->method);
         put16(&zBuf[12], pList->dosTime);
         put16(&zBuf[14], pList->dosDate);
         put32(&zBuf[16], pList->iCRC);
         put32(&zBuf[20], pList->nByteCompr);
         put32(&zBuf[24], pList->nByte);
-        put16(&zBuf[28], Jsi_Strlen(pList->zName));
+        put16(&zBuf[28], nameLen);
         put16(&zBuf[30], 0);
         put16(&zBuf[32], pList->nExtra);
         put16(&zBuf[34], 1);
         put16(&zBuf[36], 0);
         put32(&zBuf[38], pList->permissions<<16);
         put32(&zBuf[42], pList->iOffset);
-        Jsi_Write(interp, chan, zBuf, 46);
-        Jsi_Write(interp, chan, pList->zName, Jsi_Strlen(pList->zName));
+        if (Jsi_Write(interp, chan, zBuf, 46) != 46 || Jsi_Write(interp, chan, pList->zName, nameLen) != nameLen)
+            return JSI_ERROR;
         for(i=pList->nExtra; i>0; i-=40) {
             int toWrite = i<40 ? i : 40;
-            Jsi_Write(interp, chan,"                                             ",toWrite);
+            if (Jsi_Write(interp, chan,"                                             ",toWrite) != toWrite)
+                return JSI_ERROR;
         }
         nEntry++;
     }
@@ -1933,29 +1971,9 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
     put32(&zBuf[12], iTocEnd - iTocStart);
     put32(&zBuf[16], iTocStart);
     put16(&zBuf[20], 0);
-    Jsi_Write(interp, chan, zBuf, 22);
-    Jsi_Flush(interp, chan);
-}
-
-static const char *
-GetExtension( const char *name)
-{
-    const char *p, *lastSep;
-#ifdef __WIN32__
-    lastSep = NULL;
-    for (p = name; *p != '\0'; p++) {
-        if (Jsi_Strchr("/\\:", *p) != NULL) {
-            lastSep = p;
-        }
-    }
-#else
-    lastSep = Jsi_Strrchr(name, '/');
-#endif
-    p = Jsi_Strrchr(name, '.');
-    if ((p != NULL) && (lastSep != NULL) && (lastSep > p)) {
-        p = NULL;
-    }
-    return p;
+    if (iTocEnd < 0 || Jsi_Write(interp, chan, zBuf, 22) != 22 || Jsi_Flush(interp, chan) != 0)
+        return JSI_ERROR;
+    return JSI_OK;
 }
 
 static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
@@ -1965,10 +1983,9 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Channel chan = 0;
     ZFile *pList = NULL, *pToc;
     Jsi_RC rc = JSI_OK;
-    int i, k, create = 0, argc, alen = Jsi_ValueGetLength(interp, args);
+    int i, k, create = 0, oldSize = -1, argc, alen = Jsi_ValueGetLength(interp, args);
     Jsi_Value *flist = Jsi_ValueArrayIndex(interp, args, 1);
     Jsi_Value *prefix, *nSrc = NULL;
-    const char *ext;
     Jsi_DString dStr = {};
 
     for (i=1; i<alen; i++) {
@@ -2003,11 +2020,13 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         rc = Jsi_LogError("archive create failed for: %s", SS(Archive));
         goto doexit;
     }
-    Jsi_Seek(interp, chan, 0, SEEK_END);
+    if (Jsi_Seek(interp, chan, 0, SEEK_END) < 0 || (i = Jsi_Tell(interp, chan)) < 0) {
+        rc = Jsi_LogError("archive seek failed: %s", SS(Archive));
+        goto doexit;
+    }
 
-    if (Jsi_Tell(interp, chan) != 0) {
+    if (i != 0) {
         /* Null file is ok, we're creating new one. */
-        Jsi_Seek(interp, chan, 0, SEEK_SET);
         rc = ZvfsReadTOC(interp, chan, &pList);
         if (rc == JSI_OK && !append) {
             rc = Jsi_LogError("archive create already has zvfs: %s", SS(Archive));
@@ -2031,9 +2050,13 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         rc = Jsi_LogError("already an archive: use zvfs.truncate() first or zvfs.append().");
         goto doexit;
     }
-    Jsi_Seek(interp, chan, 0, SEEK_END);
+    if (Jsi_Seek(interp, chan, 0, SEEK_END) < 0) {
+        rc = Jsi_LogError("archive seek failed: %s", SS(Archive));
+        goto doexit;
+    }
+    oldSize = i;
     /* Add new files to the end of the archive. */
-    for (k=1; k<alen; k++) {
+    for (k=1; rc==JSI_OK && k<alen; k++) {
         flist = Jsi_ValueArrayIndex(interp, args, k);
         argc = Jsi_ValueGetLength(interp, flist);
         prefix = NULL;
@@ -2045,8 +2068,9 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             Jsi_Channel in;
             char *fname = Jsi_ValueString(interp, Src, 0);
             
-            ext = (fname?GetExtension(fname):NULL);
-            if (ext && *ext == '.' && (ext[1] == 0 || (ext[1] == '.' && ext[2] == 0)))
+            const char *tail = (fname?Jsi_Strrchr(fname, '/'):NULL);
+            tail = (tail ? tail+1 : fname);
+            if (tail && (!Jsi_Strcmp(tail, ".") || !Jsi_Strcmp(tail, "..")))
                 continue;
             if (prefix && !Jsi_ValueIsNull(interp, prefix)) {
                 char *pstr = SS(prefix);
@@ -2084,14 +2108,20 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     */
     if (rc == JSI_OK) {
         pList = sortZFiles(pList);
-        writeTOC(interp, chan, pList);
+        if (writeTOC(interp, chan, pList) != JSI_OK)
+            rc = Jsi_LogError("archive write failed: %s", SS(Archive));
     }
 doexit:
     /* Close the channel and exit */
     if (pList)
         deleteZFileList(pList);
-    if (chan)
+    if (chan && Jsi_Close(interp, chan) != 0 && rc == JSI_OK)
+        rc = Jsi_LogError("archive write failed: %s", SS(Archive));
+    if (rc != JSI_OK && !create && oldSize >= 0 && (chan = Jsi_Open(interp, Archive, "rb+"))) {
+        /* Put back what was there before. */
+        Jsi_Truncate(interp, chan, oldSize);
         Jsi_Close(interp, chan);
+    }
     if (nSrc)
         Jsi_DecrRefCount(interp, nSrc);
     Jsi_DSFree(&dStr);
-- 
2.43.0


From 24c451b6f29cb1f7e504253ce5673db35cf24102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:07 +0000
Subject: [PATCH 087/112] fix: Zvfs.truncate reported success when the file
 could not be read or truncated

---
 src/jsiZvfs.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 8aa54f2..1003ce0 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -2177,25 +2177,23 @@ static Jsi_RC ZvfsTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     chan = Jsi_Open(interp, Archive, "rb+");
     if( chan==0 ) return JSI_ERROR;
 
-    if (Jsi_Seek(interp, chan, 0, SEEK_END) != 0) {
-        Jsi_Close(interp, chan);
-        Jsi_ValueMakeNumber(interp, ret, 0.0);
-        return JSI_OK;
-    }
-    Jsi_Seek(interp, chan, 0, SEEK_SET);
     rc = ZvfsReadTOCStart(interp, chan, &pList, &zipStart);
     if( rc!=JSI_OK ) {
         deleteZFileList(pList);
         Jsi_Close(interp, chan);
-        if (noerror)
-            return JSI_OK;
-        return Jsi_LogError("not an archive");
+        if (rc == JSI_ERROR)
+            return JSI_ERROR;
+        if (!noerror)
+            return Jsi_LogError("not an archive");
+        Jsi_ValueMakeNumber(interp, ret, 0.0);
+        return JSI_OK;
     }
 
     /* Close the channel and exit */
     deleteZFileList(pList);
-    Jsi_Truncate(interp, chan, zipStart);
-    Jsi_Close(interp, chan);
+    rc = Jsi_Truncate(interp, chan, zipStart);
+    if (Jsi_Close(interp, chan) != 0 || rc != 0)
+        return Jsi_LogError("truncate failed: %s", SS(Archive));
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)zipStart);
     return JSI_OK;
 }
@@ -2214,16 +2212,12 @@ static Jsi_RC ZvfsOffsetCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     chan = Jsi_Open(interp, Archive, "rb");
     if( chan==0 ) return JSI_ERROR;
 
-    if (Jsi_Seek(interp, chan, 0, SEEK_END) != 0) {
-        Jsi_Close(interp, chan);
-        Jsi_ValueMakeNumber(interp, ret, 0.0);
-        return JSI_OK;
-    }
-    Jsi_Seek(interp, chan, 0, SEEK_SET);
     rc = ZvfsReadTOCStart(interp, chan, &pList, &zipStart);
     if( rc!=JSI_OK ) {
         deleteZFileList(pList);
         Jsi_Close(interp, chan);
+        if (rc == JSI_ERROR)
+            return JSI_ERROR;
         return Jsi_LogError("not an archive");
     }
 
-- 
2.43.0


From 712086c9ec29e86a9c4b39195ff561c4180deb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:11 +0000
Subject: [PATCH 088/112] fix: files in an archive: short, failed and damaged
 reads were taken for data, seek and tell gave wrong positions

---
 src/jsiZvfs.c | 228 +++++++++++++++++++++++---------------------------
 1 file changed, 105 insertions(+), 123 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 1003ce0..07af7b6 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -114,6 +114,7 @@ typedef struct ZvfsChannelInfo {
     int readSoFar;            /* Number of bytes read so far */
     long startOfData;         /* File position of start of data in ZIP archive */
     int isCompressed;         /* True -> data is compressed */
+    int failed;               /* Data being uncompressed is bad. */
     int curPos;               /* Current pos. */
     Jsi_Channel chan;         /* Open to the archive file */
     unsigned char *zBuf;      /* buffer used by the decompressor */
@@ -848,88 +849,78 @@ static Jsi_RC ZvfsStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     return JSI_OK;
 }
 
+/* Read the archive at pInfo->curPos. */
+static int vfsReadRaw(ZvfsChannelInfo* pInfo, char *buf, int toRead) {
+    int n = -1;
+    if (Jsi_Seek(pInfo->interp, pInfo->chan, pInfo->curPos, SEEK_SET) >= 0)
+        n = Jsi_Read(pInfo->interp, pInfo->chan, buf, toRead);
+    if (n <= 0)
+        return -1;
+    pInfo->curPos += n;
+    return n;
+}
+
 /*
 ** The JSI I/O system calls this function to actually read information
-** from a ZVFS file.
+** from a ZVFS file.  Returns the number of bytes, 0 at the end, and -1 upon error.
 */
 static int vfsInput (
     ZvfsChannelInfo* pInfo,  /* The channel to read from */
     char *buf,               /* Buffer to fill */
-    int toRead,              /* Requested number of bytes */
-    int *pErrorCode          /* Location of error flag */
+    int toRead               /* Requested number of bytes */
 ) {
-    Jsi_Interp *interp = pInfo->interp;
-    if( toRead > (int)pInfo->nByte ) {
+    if (toRead > (int)pInfo->nByte)
         toRead = pInfo->nByte;
-    }
-    if( toRead == 0 ) {
+    if (toRead <= 0)
         return 0;
-    }
-    Jsi_Seek(interp, pInfo->chan, pInfo->curPos, SEEK_SET);
-    if (!pInfo->isCompressed ) {
-        toRead = Jsi_Read(interp, pInfo->chan, buf, toRead);
+    if (!pInfo->isCompressed) {
+        toRead = vfsReadRaw(pInfo, buf, toRead);
     } else {
-        int err = Z_OK;
         z_stream *stream = &pInfo->stream;
         stream->next_out = (unsigned char*)buf;
         stream->avail_out = toRead;
-        while (stream->avail_out) {
-            if (!stream->avail_in && pInfo->nByteCompr>0)
-            {
+        while (stream->avail_out && !pInfo->failed) {
+            if (!stream->avail_in && pInfo->nByteCompr>0) {
                 int len = pInfo->nByteCompr;
-                if (len > COMPR_BUF_SIZE) {
+                if (len > COMPR_BUF_SIZE)
                     len = COMPR_BUF_SIZE;
-                }
-                len = Jsi_Read(interp, pInfo->chan, (char*)pInfo->zBuf, len);
-                if (len==0) break;
-                if (len<0) { err = Z_STREAM_END+1; break; }
+                len = vfsReadRaw(pInfo, (char*)pInfo->zBuf, len);
+                if (len<0) break;
                 pInfo->nByteCompr -= len;
                 stream->next_in = pInfo->zBuf;
                 stream->avail_in = len;
             }
-            err = inflate(stream, Z_NO_FLUSH);
-            if (err) break;
+            if (inflate(stream, Z_NO_FLUSH) != Z_OK)
+                pInfo->failed = 1; /* At the end, or bad data: there is nothing beyond this. */
         }
-        if (err == Z_STREAM_END) {
-            if ((stream->avail_out != 0)) {
-                *pErrorCode = err; /* premature end */
-                return -1;
-            }
-        } else if( err ) {
-            *pErrorCode = err; /* some other zlib error */
+        toRead -= stream->avail_out;
+        if (toRead == 0)
             return -1;
-        }
     }
-    pInfo->curPos = Jsi_Tell(interp, pInfo->chan);
-
-    if (toRead<0)
-        *pErrorCode = Z_STREAM_END;
-    else {
+    if (toRead > 0) {
         pInfo->nByte -= toRead;
         pInfo->readSoFar += toRead;
-        *pErrorCode = 0;
     }
     return toRead;
 }
 
 /*
 ** Move the file pointer so that the next byte read will be "offset".
+** Returns 0, or -1 upon error.
 */
 static int vfsSeek(
     ZvfsChannelInfo* pInfo,    /* The file structure */
-    long offset,                /* Offset to seek to */
-    int mode,                   /* One of SEEK_CUR, SEEK_SET or SEEK_END */
-    int *pErrorCode             /* Write the error code here */
+    Jsi_Wide offset,           /* Offset to seek to */
+    int mode                   /* One of SEEK_CUR, SEEK_SET or SEEK_END */
 ) {
-    Jsi_Interp *interp = pInfo->interp;
-    Jsi_Seek(interp, pInfo->chan, pInfo->curPos, SEEK_SET);
+    int nTotal = pInfo->readSoFar + pInfo->nByte;
     switch( mode ) {
     case SEEK_CUR: {
-        offset += pInfo->readSoFar;
+        offset += pInfo->readSoFar - (pInfo->bsiz - pInfo->bpos);
         break;
     }
     case SEEK_END: {
-        offset += pInfo->readSoFar + pInfo->nByte;
+        offset += nTotal;
         break;
     }
     default: {
@@ -937,38 +928,40 @@ static int vfsSeek(
         break;
     }
     }
-    if (offset < 0) offset = 0;
+    if (offset < 0) return -1;
+    if (offset > nTotal) offset = nTotal;
+    if (offset >= pInfo->readSoFar - pInfo->bsiz && offset <= pInfo->readSoFar) {
+        /* Is in the buffer. */
+        pInfo->bpos = offset - (pInfo->readSoFar - pInfo->bsiz);
+        return 0;
+    }
     if( !pInfo->isCompressed ) {
-        Jsi_Seek(interp, pInfo->chan, offset + pInfo->startOfData, SEEK_SET);
-        pInfo->nByte = pInfo->nData;
+        pInfo->curPos = pInfo->startOfData + offset;
         pInfo->readSoFar = offset;
+        pInfo->nByte = nTotal - offset;
     } else {
         if( offset<pInfo->readSoFar ) {
             z_stream *stream = &pInfo->stream;
             inflateEnd(stream);
-            stream->zalloc = (alloc_func)0;
-            stream->zfree = (free_func)0;
-            stream->opaque = (voidpf)0;
-            stream->avail_in = 2;
-            stream->next_in = pInfo->zBuf;
-            pInfo->zBuf[0] = 0x78;
-            pInfo->zBuf[1] = 0x01;
-            inflateInit(&pInfo->stream);
-            Jsi_Seek(interp, pInfo->chan, pInfo->startOfData, SEEK_SET);
-            pInfo->nByte += pInfo->readSoFar;
+            memset(stream, 0, sizeof(*stream));
+            inflateInit2(stream, -15);
+            pInfo->curPos = pInfo->startOfData;
+            pInfo->nByte = nTotal;
             pInfo->nByteCompr = pInfo->nData;
             pInfo->readSoFar = 0;
+            pInfo->failed = 0;
         }
         while( pInfo->readSoFar < offset ) {
-            int toRead, errCode;
-            char zDiscard[100];
-            toRead = offset - pInfo->readSoFar;
-            if( toRead>(int)sizeof(zDiscard) ) toRead = (int)sizeof(zDiscard);
-            vfsInput(pInfo, zDiscard, toRead, &errCode);
+            int toRead = offset - pInfo->readSoFar;
+            if( toRead>(int)sizeof(pInfo->buf) ) toRead = sizeof(pInfo->buf);
+            if (vfsInput(pInfo, pInfo->buf, toRead) <= 0) {
+                pInfo->bpos = pInfo->bsiz = 0;
+                return -1;
+            }
         }
     }
-    pInfo->curPos = Jsi_Tell(interp, pInfo->chan);
-    return pInfo->readSoFar;
+    pInfo->bpos = pInfo->bsiz = 0;
+    return 0;
 }
 
 static void put32(char *z, int v);
@@ -1290,8 +1283,14 @@ static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
         Jsi_LogError("archive not found");
         return NULL;
     }
-    Jsi_Seek(interp, achan, pFile->iOffset, SEEK_SET);
-    Jsi_Read(interp, achan, (char*)zBuf, 30);
+    if (pFile->isdir) {
+        Jsi_LogError("is a directory");
+        return NULL;
+    }
+    if (Jsi_Seek(interp, achan, pFile->iOffset, SEEK_SET) < 0 || !zvfsReadAll(interp, achan, zBuf, 30)) {
+        Jsi_LogError("archive read failed");
+        return NULL;
+    }
     if( memcmp(zBuf, "\120\113\03\04", 4) ) {
         Jsi_LogError("local header mismatch: ");
         return NULL;
@@ -1304,11 +1303,7 @@ static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     if( pInfo->isCompressed ) {
         z_stream *stream = &pInfo->stream;
         pInfo->zBuf = (unsigned char*)Jsi_Calloc(1, COMPR_BUF_SIZE);
-        stream->avail_in = 2;
-        stream->next_in = pInfo->zBuf;
-        pInfo->zBuf[0] = 0x78;
-        pInfo->zBuf[1] = 0x01;
-        inflateInit(&pInfo->stream);
+        inflateInit2(stream, -15);
     } else {
         pInfo->zBuf = 0;
     }
@@ -1320,8 +1315,7 @@ static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     }
     pInfo->nData = pInfo->nByteCompr;
     pInfo->readSoFar = 0;
-    Jsi_Seek(interp, achan, INT16(zBuf,26)+INT16(zBuf,28), SEEK_CUR);
-    pInfo->curPos = pInfo->startOfData = Jsi_Tell(interp, achan);
+    pInfo->curPos = pInfo->startOfData = pFile->iOffset + 30 + INT16(zBuf,26) + INT16(zBuf,28);
     snprintf(zName, sizeof(zName), "vfs_%lx_%x",(long)(((uintptr_t)pFile)>>12),count++);
     chan = (Jsi_Channel)Jsi_Calloc(1,sizeof(Jsi_Chan));
     chan->fname = pFile->zName;
@@ -1407,7 +1401,7 @@ static int Jaz_FSScandirProc(Jsi_Interp *interp, Jsi_Value *dirpath, Jsi_Dirent
             deSpace += 50;
             dep = (Jsi_Dirent**)Jsi_Realloc(dep, deSpace * sizeof(Jsi_Dirent*));
         }
-        de = dep[n] = (Jsi_Dirent*)Jsi_Calloc(deSpace, sizeof(Jsi_Dirent));
+        de = dep[n] = (Jsi_Dirent*)Jsi_Calloc(1, sizeof(Jsi_Dirent));
         *de = dd;
         n++;
     }
@@ -1511,47 +1505,54 @@ static int Jaz_FSFlushProc(Jsi_Channel chan) {
     return 0;
 }
 
+/* Read more when the buffer is empty. Returns <= 0 if there is nothing in it then. */
+static int vfsFill(ZvfsChannelInfo *pInfo) {
+    if (pInfo->bpos >= pInfo->bsiz) {
+        int n = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf));
+        if (n <= 0)
+            return n;
+        pInfo->bpos = 0;
+        pInfo->bsiz = n;
+    }
+    return pInfo->bsiz - pInfo->bpos;
+}
+
 static int Jaz_FSTellProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    return pInfo->curPos;
+    return pInfo->readSoFar - (pInfo->bsiz - pInfo->bpos);
 }
 
 static int Jaz_FSEofProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    return (pInfo->curPos >= pInfo->pFile->nByte);
+    return (pInfo->bpos >= pInfo->bsiz && pInfo->nByte == 0);
 }
 
 static int Jaz_FSRewindProc(Jsi_Channel chan) {
-    int rc = 0;
-    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    vfsSeek(pInfo, 0, SEEK_SET, &rc);
-    return rc;
+    return vfsSeek((ZvfsChannelInfo*)chan->data, 0, SEEK_SET);
 }
 
 static int Jaz_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) {
-    int rc = 0;
-    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    vfsSeek(pInfo, offset, mode, &rc);
-    return rc;
+    return vfsSeek((ZvfsChannelInfo*)chan->data, offset, mode);
 }
 
 /*static int Jaz_FSWriteProc(Jsi_Channel chan, const char *buf, int size) { return -1;}*/
 
 static int Jaz_FSReadProc(Jsi_Channel chan, char *s, int size) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    char *cp = s;
-    int n = 0, rc = 0;
+    int n = 0;
     *s = 0;
     while (n<size) {
-        if (pInfo->bpos >= pInfo->bsiz) {
-            if (!(pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))) {
-                break;
-            }
-            pInfo->bpos = 0;
+        int m = vfsFill(pInfo);
+        if (m <= 0) {
+            if (m < 0 && n == 0)
+                return -1;
+            break;
         }
-        *cp = pInfo->buf[pInfo->bpos++];
-        n++;
-        cp++;
+        if (m > size-n)
+            m = size-n;
+        memcpy(s+n, pInfo->buf+pInfo->bpos, m);
+        pInfo->bpos += m;
+        n += m;
     }
     if (n>0 && n<size)
         s[n]=0;
@@ -1560,19 +1561,14 @@ static int Jaz_FSReadProc(Jsi_Channel chan, char *s, int size) {
 
 static int Jaz_FSGetcProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    int rc = 0;
-    if (pInfo->bpos >= pInfo->bsiz) {
-        if (!(pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))) {
-            return 0;
-        }
-        pInfo->bpos = 0;
-    }
-    return pInfo->buf[pInfo->bpos++];
+    if (vfsFill(pInfo) <= 0)
+        return -1;
+    return (unsigned char)pInfo->buf[pInfo->bpos++];
 }
 
 static int Jaz_FSUngetcProc(Jsi_Channel chan, int ch) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    if (pInfo->bpos > 0 && pInfo->buf[pInfo->bpos-1] == ch)
+    if (pInfo->bpos > 0 && (unsigned char)pInfo->buf[pInfo->bpos-1] == ch)
         pInfo->bpos--;
     else {
         /* TODO: go back */
@@ -1583,30 +1579,16 @@ static int Jaz_FSUngetcProc(Jsi_Channel chan, int ch) {
 
 static char * Jaz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    char *cp = s;
-    int n = 0, rc = 0;
+    int n = 0;
     *s = 0;
-    while (n<(size-1)) {
-        if (pInfo->bpos >= pInfo->bsiz) {
-            if ((int)pInfo->stream.total_out >= pInfo->pFile->nByte)
-                return NULL;
-            if ((pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))<=0) {
-                if (n==0)
-                    return NULL;
-                break;
-            }
-            pInfo->bpos = 0;
-        }
-        *cp = pInfo->buf[pInfo->bpos++];
-        if (*cp == '\n') {
-            n++;
+    while (n<(size-1) && vfsFill(pInfo) > 0) {
+        s[n] = pInfo->buf[pInfo->bpos++];
+        if (s[n++] == '\n')
             break;
-        }
-        n++;
-        cp++;
     }
-    if (n>0)
-        s[n]=0;
+    if (n == 0)
+        return NULL;
+    s[n]=0;
     return s;
 }
 
-- 
2.43.0


From d3b5234ef858f7b5826e666fa6bbdd013c65859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:19 +0000
Subject: [PATCH 089/112] fix: a failed mount left a half-made archive behind,
 unmount freed files that were open, and archive members could hide files
 outside of the mount

---
 src/jsiZvfs.c | 340 ++++++++++++++++++++++++--------------------------
 1 file changed, 163 insertions(+), 177 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 07af7b6..dbc45ba 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -50,11 +50,12 @@ typedef enum { ZVFS_SIG_PINFO = 0xbeefbeed, ZVFS_SIG_ARCHIVE, ZVFS_SIG_FILE, ZVF
 ** of this structure
 */
 typedef struct ZvfsArchive {
-    Jsi_Value *Name;           /* Name of the archive */
-    Jsi_Value *MountPoint;     /* Where this archive is mounted */
+    char *zName;               /* Name of the archive */
+    char *zMount;              /* Where this archive is mounted */
     struct ZvfsFile *pFiles;  /* List of files in that archive */
-    Jsi_HashEntry *pEntry;
+    Jsi_HashEntry *pEntry;    /* In archiveHash, or NULL when unmounted. */
     Jsi_Channel chan;
+    int nOpen;                /* Number of files that are open. */
 } ZvfsArchive;
 
 /*
@@ -73,10 +74,8 @@ typedef struct ZvfsFile {
     int isdir;            /* Set to 2 if directory, or 1 if mount */
     int depth;            /* Number of slashes in path. */
     int permissions;          /* File permissions. */
-    Jsi_HashEntry *hPtr;
+    Jsi_HashEntry *hPtr;         /* In jsiIntData.zvfslocal.fileHash */
     struct ZvfsFile *pNext;      /* Next file in the same archive */
-    struct ZvfsFile *pNextName;  /* A doubly-linked list of files with the same */
-    struct ZvfsFile *pPrevName;  /*  name.  Only the first is in jsiIntData.zvfslocal.fileHash */
 } ZvfsFile;
 
 /*
@@ -421,8 +420,7 @@ static ZvfsArchive* ZvfsLookupMount(Jsi_Interp *interp, const char *path) {
     pEntry=Jsi_HashSearchFirst(jsiIntData.zvfslocal.archiveHash,&zSearch);
     while (pEntry) {
         if ((pArchive = (ZvfsArchive*)Jsi_HashValueGet(pEntry))) {
-            const char *zpath = Jsi_ValueToString(interp, pArchive->MountPoint, NULL);
-            if (!Jsi_Strcmp(zpath, path)) {
+            if (!Jsi_Strcmp(pArchive->zMount, path)) {
                 match=(ZvfsArchive*)Jsi_HashValueGet(pEntry);
                 break;
             }
@@ -458,7 +456,7 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         pEntry=Jsi_HashSearchFirst(jsiIntData.zvfslocal.archiveHash,&zSearch);
         while (pEntry) {
             if ((pArchive = (ZvfsArchive*)Jsi_HashValueGet(pEntry))) {
-                Jsi_ObjArrayAdd(interp, obj, pArchive->MountPoint);
+                Jsi_ObjArrayAdd(interp, obj, Jsi_ValueNewStringDup(interp, pArchive->zMount));
             }
             pEntry=Jsi_HashSearchNext(&zSearch);
         }
@@ -470,7 +468,7 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     pArchive = ZvfsLookupMount(interp, zMountPoint);
     if (pArchive) {
         if (ret)
-            Jsi_ValueDup2(interp, ret, pArchive->Name);
+            Jsi_ValueMakeStringDup(interp, ret, pArchive->zName);
         else
             rc = JSI_ERROR;
     }
@@ -481,20 +479,67 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
 #define FN_mount JSI_INFO("\
 Read a ZIP archive and make entries in the virutal file hash table for all \
 files contained therein.")
+/* Free an archive that is no longer mounted and has no file open. */
+static void zvfsFreeArchive(Jsi_Interp *interp, ZvfsArchive *pArchive) {
+    ZvfsFile *pZvfs;
+    while ((pZvfs=pArchive->pFiles)) {
+        pArchive->pFiles = pZvfs->pNext;
+        Jsi_Free(pZvfs->zName);
+        Jsi_Free(pZvfs);
+    }
+    if (pArchive->chan)
+        Jsi_Close(interp, pArchive->chan);
+    Jsi_Free(pArchive->zName);
+    Jsi_Free(pArchive->zMount);
+    Jsi_Free(pArchive);
+}
+
+/* Add a file, given the central directory entry for it. */
+static void zvfsAddFile(ZvfsArchive *pArchive, char *zFullPath, int isdir, const unsigned char *zBuf) {
+    ZvfsFile *pZvfs = (ZvfsFile*)Jsi_Calloc(1, sizeof(*pZvfs) );
+    pZvfs->zName = zFullPath;
+    pZvfs->pArchive = pArchive;
+    pZvfs->isdir = isdir;
+    pZvfs->depth = strchrcnt(zFullPath,'/');
+    if (zBuf) {
+        pZvfs->iOffset = INT32(zBuf,42);
+        pZvfs->timestamp = DosTimeDate(INT16(zBuf, 14), INT16(zBuf, 12));
+        pZvfs->nByte = INT32(zBuf, 24);
+        pZvfs->nByteCompr = INT32(zBuf, 20);
+        pZvfs->permissions = (0xffff&(INT32(zBuf, 38) >> 16));
+        pZvfs->gflags = INT16(zBuf, 8);
+        pZvfs->crc32 = INT32(zBuf, 16);
+    }
+    pZvfs->pNext = pArchive->pFiles;
+    pArchive->pFiles = pZvfs;
+}
+
+/* True if the name of a member leads out of the archive. */
+static bool zvfsNameOutside(const char *zName) {
+    while (*zName) {
+        if (zName[0] == '.' && zName[1] == '.' && (zName[2] == 0 || zName[2] == '/'))
+            return 1;
+        while (*zName && *zName != '/') zName++;
+        while (*zName == '/') zName++;
+    }
+    return 0;
+}
+
 Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi_Value **ret)
 {
     Jsi_Channel chan;          /* Used for reading the ZIP archive file */
-    char *zArchiveName = 0;    /* A copy of zArchive */
+    const char *zArchiveName;  /* Normalized name of archive */
     int nFile;                 /* Number of files in the archive */
     int iPos;                  /* Current position in the archive file */
-    ZvfsArchive *pArchive;     /* The ZIP archive being mounted */
+    ZvfsArchive *pArchive = NULL;  /* The ZIP archive being mounted */
+    ZvfsFile *pZvfs, *pList = NULL;
     Jsi_HashEntry *pEntry;     /* Hash table entry */
     bool isNew;                 /* Flag to tell use when a hash entry is new */
     unsigned char zBuf[100];   /* Space into which to read from the ZIP archive */
-    unsigned int startZip;
     Jsi_DString pStr, mStr;
     const char *zMountPoint;
     char mbuf[100];
+    Jsi_RC rc;
 
     Jsi_DSInit(&pStr);
     Jsi_DSInit(&mStr);
@@ -523,167 +568,135 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     /* Read the "End Of Central Directory" record from the end of the
     ** ZIP archive.
     */
-    if (Jsi_Seek(interp, chan, -22, SEEK_END) != 0) {
-        if (ret && *ret)
-            Jsi_LogError("not a ZIP archive");
-        goto bail;
-    }
-    iPos = Jsi_Tell(interp, chan);
-    Jsi_Read(interp, chan, (char*)zBuf, 22);
-    if (memcmp(zBuf, "\120\113\05\06", 4)) {
+    rc = zvfsReadEOCD(interp, chan, zBuf, &iPos);
+    if (rc != JSI_OK) {
         if (ret && *ret)
-            Jsi_LogError("not a ZIP archive");
+            Jsi_LogError("%s", (rc==JSI_BREAK ? "not a ZIP archive" : "archive read failed"));
         goto bail;
     }
 
-    /* Construct the archive record
-    */
     zArchiveName = Jsi_ValueNormalPath(interp, archive, &pStr);
-    pEntry = Jsi_HashEntryNew(jsiIntData.zvfslocal.archiveHash, zArchiveName, &isNew);
-    if( !isNew ) {
+    if (!zArchiveName)
+        goto bail;
+    pEntry = Jsi_HashEntryFind(jsiIntData.zvfslocal.archiveHash, zArchiveName);
+    if (pEntry) {
         pArchive = (ZvfsArchive*)Jsi_HashValueGet(pEntry);
-        Jsi_LogError("already mounted at %s", SS(pArchive->MountPoint));
-        Jsi_DSFree(&pStr);
+        Jsi_LogError("already mounted at %s", pArchive->zMount);
+        pArchive = NULL;
         goto bail;
     }
     if (!*zMountPoint) {
         /* Empty string is the special case of mounting on itself. */
-        zMountPoint = Jsi_ValueNormalPath(interp, archive, &mStr);
+        zMountPoint = zArchiveName;
     } else if (zMountPoint != mbuf) {
         zMountPoint = Jsi_ValueNormalPath(interp, mount, &mStr);
+        if (!zMountPoint)
+            goto bail;
     }
+
+    /* Construct the archive record
+    */
     pArchive = (ZvfsArchive*)Jsi_Calloc(1, sizeof(*pArchive));
-    pArchive->Name = Jsi_ValueNewStringDup(interp, zArchiveName);
-    Jsi_IncrRefCount(interp, pArchive->Name);
-    Jsi_DSFree(&pStr);
-    pArchive->MountPoint = Jsi_ValueNewStringDup(interp, zMountPoint);
-    Jsi_IncrRefCount(interp, pArchive->MountPoint);
-    pArchive->pFiles = 0;
-    Jsi_HashValueSet(pEntry, pArchive);
-    pArchive->pEntry = pEntry;
+    pArchive->zName = Jsi_Strdup(zArchiveName);
+    pArchive->zMount = Jsi_Strdup(zMountPoint);
+    zMountPoint = pArchive->zMount;
 
     /* Compute the starting location of the directory for the ZIP archive
     ** in iPos then seek to that location.
     */
     nFile = INT16(zBuf,8);
     iPos -= INT32(zBuf,12);
-    Jsi_Seek(interp, chan, iPos, SEEK_SET);
-    startZip = iPos;
+    if (iPos < 0 || Jsi_Seek(interp, chan, iPos, SEEK_SET) < 0)
+        goto badread;
 
-    while(1) {
+    while (nFile-- > 0) {
         int lenName;            /* Length of the next filename */
-        int lenExtra = 0;           /* Length of "extra" data for next file */
-        int iData;              /* Offset to start of file data */
-        int dosTime;
-        int dosDate;
-        int isdir;
-        int rb;
-        ZvfsFile *pZvfs;        /* A new virtual file */
-        char *zFullPath;        /* Full pathname of the virtual file */
+        int lenExtra;           /* Length of "extra" data for next file */
+        int isdir = 0;
         char zName[1024];       /* Space to hold the filename */
 
-        if (nFile-- <= 0 ) {
-            isdir = 1;
-            zFullPath = CanonicalPath(zMountPoint, "");
-            iData = startZip;
-            goto addentry;
-        }
         /* Read the next directory entry.  Extract the size of the filename,
         ** the size of the "extra" information, and the offset into the archive
         ** file of the file data.
         */
-        Jsi_Read(interp, chan, (char*)zBuf, 46);
+        if (!zvfsReadAll(interp, chan, zBuf, 46))
+            goto badread;
         if (memcmp(zBuf, "\120\113\01\02", 4)) {
             Jsi_LogError("ill-formed central directory entry");
-            //TODO: cleanup.
             goto bail;
         }
         lenName = INT16(zBuf,28);
         lenExtra = INT16(zBuf,30) + INT16(zBuf,32);
-        iData = INT32(zBuf,42);
-
 
         /* If the virtual filename is too big to fit in zName[], then skip
         ** this file
         */
         if( lenName >= (int)sizeof(zName) ) {
-            Jsi_Seek(interp, chan, lenName + lenExtra, SEEK_CUR);
-            continue;
+            lenExtra += lenName;
+            lenName = 0;
         }
-
-        /* Construct an entry in jsiIntData.zvfslocal.fileHash for this virtual file.
-        */
-        rb = Jsi_Read(interp, chan, zName, lenName);
-        if (rb != lenName)
-            goto bail;
-        isdir=0;
+        if (lenName && !zvfsReadAll(interp, chan, zName, lenName))
+            goto badread;
         if (lenName>0 && zName[lenName-1] == '/') {
             lenName--;
             isdir=2;
         }
         zName[lenName] = 0;
-        zFullPath = CanonicalPath(zMountPoint, zName);
-addentry:
-        pEntry = Jsi_HashEntryNew(jsiIntData.zvfslocal.fileHash, zFullPath, &isNew);
-        if (!isNew) {
-            Jsi_Free(zFullPath);
-            goto skip;
-        }
-        pZvfs = (ZvfsFile*)Jsi_Calloc(1, sizeof(*pZvfs) );
-        pZvfs->zName = zFullPath;
-        pZvfs->pArchive = pArchive;
-        pZvfs->isdir = isdir;
-        pZvfs->depth=strchrcnt(zFullPath,'/');
-        pZvfs->iOffset = iData;
-        if (iData<(int)startZip) {
-            startZip = iData;
+        if (lenName && !zvfsNameOutside(zName)) {
+            /* A leading slash would put it outside of the mount. */
+            const char *zTail = zName;
+            while (*zTail == '/') zTail++;
+            zvfsAddFile(pArchive, CanonicalPath(zMountPoint, zTail), isdir, zBuf);
         }
-        dosDate = INT16(zBuf, 14);
-        dosTime = INT16(zBuf, 12);
-        pZvfs->timestamp = DosTimeDate(dosDate, dosTime);
-        pZvfs->nByte = INT32(zBuf, 24);
-        pZvfs->nByteCompr = INT32(zBuf, 20);
-        pZvfs->pNext = pArchive->pFiles;
-        pZvfs->permissions = (0xffff&(INT32(zBuf, 38) >> 16));
-        pZvfs->gflags = INT16(zBuf, 8);
-        pZvfs->crc32 = INT32(zBuf, 16);
-        pArchive->pFiles = pZvfs;
-        //pEntry = Jsi_HashEntryNew(jsiIntData.zvfslocal.fileHash, zFullPath, &isNew);
-        /*printf("NEW(%d): %s\n", isNew, zFullPath);
-        if( isNew ) {
-            pZvfs->pNextName = 0;
-        } else {
-            goto skip;
-            ZvfsFile *pOld = (ZvfsFile*)Jsi_HashValueGet(pEntry);
-            pOld->pPrevName = pZvfs;
-            pZvfs->pNextName = pOld;
-        }*/
-        pZvfs->pPrevName = 0;
-        pZvfs->hPtr = pEntry;
-        Jsi_HashValueSet(pEntry, (void*) pZvfs);
-
-skip:
-        if (nFile < 0)
-            break;
-
         /* Skip over the extra information so that the next read will be from
         ** the beginning of the next directory entry.
         */
-        Jsi_Seek(interp, chan, lenExtra, SEEK_CUR);
+        if (lenExtra && Jsi_Seek(interp, chan, lenExtra, SEEK_CUR) < 0)
+            goto badread;
+    }
+    memset(zBuf, 0, sizeof(zBuf));
+    zvfsAddFile(pArchive, CanonicalPath(zMountPoint, ""), 1, zBuf);
+
+    /* All is read, so now make it visible: the first file of a name is kept.
+    */
+    while ((pZvfs = pArchive->pFiles)) {
+        pArchive->pFiles = pZvfs->pNext;
+        pZvfs->pNext = pList;
+        pList = pZvfs;
+    }
+    while ((pZvfs = pList)) {
+        pList = pZvfs->pNext;
+        pEntry = Jsi_HashEntryNew(jsiIntData.zvfslocal.fileHash, pZvfs->zName, &isNew);
+        if (!isNew) {
+            Jsi_Free(pZvfs->zName);
+            Jsi_Free(pZvfs);
+            continue;
+        }
+        pZvfs->hPtr = pEntry;
+        Jsi_HashValueSet(pEntry, pZvfs);
+        pZvfs->pNext = pArchive->pFiles;
+        pArchive->pFiles = pZvfs;
     }
     pArchive->chan = chan;
+    pEntry = Jsi_HashEntryNew(jsiIntData.zvfslocal.archiveHash, pArchive->zName, &isNew);
+    Jsi_HashValueSet(pEntry, pArchive);
+    pArchive->pEntry = pEntry;
 
     if (ret && *ret)
         Jsi_ValueMakeStringDup(interp, ret, zMountPoint);
     Jsi_DSFree(&mStr);
     Jsi_DSFree(&pStr);
     interp->mountCnt++;
-//done:
     return JSI_OK;
 
+badread:
+    Jsi_LogError("archive read failed");
 bail:
-    if (chan)
-        Jsi_Close(interp, chan);
+    if (pArchive)
+        zvfsFreeArchive(interp, pArchive);
+    Jsi_Close(interp, chan);
+    Jsi_DSFree(&mStr);
+    Jsi_DSFree(&pStr);
     return JSI_ERROR;
 }
 
@@ -717,13 +730,27 @@ static ZvfsFile *ZvfsLookup(Jsi_Interp *interp, Jsi_Value *path) {
 /*
 ** Unmount zip given its mount point.
 */
+static void zvfsUnmountArchive(Jsi_Interp *interp, ZvfsArchive *pArchive) {
+    ZvfsFile *pZvfs;
+    if (pArchive->pEntry) {
+        pArchive->pEntry->clientData = NULL;
+        Jsi_HashEntryDelete(pArchive->pEntry);
+        pArchive->pEntry = NULL;
+    }
+    for(pZvfs=pArchive->pFiles; pZvfs; pZvfs=pZvfs->pNext) {
+        if (pZvfs->hPtr)
+            Jsi_HashEntryDelete(pZvfs->hPtr);
+        pZvfs->hPtr = NULL;
+    }
+    interp->mountCnt--;
+    if (pArchive->nOpen == 0) /* Else is freed by the last close. */
+        zvfsFreeArchive(interp, pArchive);
+}
+
 static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
     char *zPath;
     ZvfsArchive *pArchive;
-    ZvfsFile *pZvfs, *pNextFile, *pDel = NULL;
-    Jsi_HashEntry *pEntry;
     Jsi_DString pStr = {};
-    Jsi_RC rc = JSI_OK;
     // TODO: use jsiMain interp for mount/unmount.
     // TODO: if pwd in mount, change it.
     zPath = Jsi_ValueNormalPath(interp, path, &pStr);
@@ -731,38 +758,8 @@ static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
     Jsi_DSFree(&pStr);
     if (!pArchive)
         return JSI_ERROR;
-    if (pArchive->pEntry) {
-        pArchive->pEntry->clientData = NULL;
-        Jsi_HashEntryDelete(pArchive->pEntry);
-    }
-    Jsi_Close(interp, pArchive->chan);
-    Jsi_DecrRefCount(interp, pArchive->Name);
-    Jsi_DecrRefCount(interp, pArchive->MountPoint);
-    for(pZvfs=pArchive->pFiles; pZvfs; pZvfs=pNextFile) {
-        pNextFile = pZvfs->pNext;
-        if( pZvfs->pNextName ) {
-            pZvfs->pNextName->pPrevName = pZvfs->pPrevName;
-        }
-        char *zName = pZvfs->zName;
-        if( pZvfs->pPrevName ) {
-            pZvfs->pPrevName->pNextName = pZvfs->pNextName;
-        } else {
-            pEntry = Jsi_HashEntryFind(jsiIntData.zvfslocal.fileHash, pZvfs->zName);
-            assert(pEntry);
-            if( pZvfs->pNextName ) {
-                pDel = (typeof(pDel))Jsi_HashValueGet(pEntry); // TODO: Needs rework.
-                Jsi_HashValueSet(pEntry, pZvfs->pNextName);
-            } else {
-                Jsi_HashEntryDelete(pEntry);
-            }
-        }
-        Jsi_Free(zName);
-    }
-    if (pDel)
-        Jsi_Free(pDel);
-    Jsi_Free(pArchive);
-    interp->mountCnt--;
-    return rc;
+    zvfsUnmountArchive(interp, pArchive);
+    return JSI_OK;
 }
 
 /*
@@ -792,31 +789,23 @@ static Jsi_RC ZvfsUnmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                           Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     Jsi_Value* Mount = Jsi_ValueArrayIndex(interp, args, 0);
-    ZvfsArchive *pArchive;     /* The ZIP archive being mounted */
-    Jsi_HashEntry *pEntry;     /* Hash table entry */
-    Jsi_HashSearch zSearch;   /* Search all mount points */
 
     if (Zvfs_Unmount(interp, Mount) == JSI_OK) {
         return JSI_OK;
     }
 
     if( !jsiIntData.zvfslocal.isInit ) return JSI_ERROR;
-    char *zMountPoint;
     char *zMount = SS(Mount);
     if (!zMount)
         return JSI_ERROR;
-    pEntry=Jsi_HashSearchFirst(jsiIntData.zvfslocal.archiveHash,&zSearch);
-    while (pEntry) {
-        if (((pArchive = (ZvfsArchive*)Jsi_HashValueGet(pEntry)))
-                && ((zMountPoint = SS(pArchive->MountPoint)))
-                && zMountPoint[0]
-                && (Jsi_Strcmp(zMountPoint, zMount) == 0)) {
-            if (Zvfs_Unmount(interp, pArchive->Name) == JSI_OK) {
-                return JSI_OK;
-            }
-            break;
-        }
-        pEntry=Jsi_HashSearchNext(&zSearch);
+    /* The argument can also be the archive. */
+    Jsi_DString pStr = {};
+    char *zPath = Jsi_ValueNormalPath(interp, Mount, &pStr);
+    Jsi_HashEntry *pEntry = (zPath ? Jsi_HashEntryFind(jsiIntData.zvfslocal.archiveHash, zPath) : NULL);
+    Jsi_DSFree(&pStr);
+    if (pEntry) {
+        zvfsUnmountArchive(interp, (ZvfsArchive*)Jsi_HashValueGet(pEntry));
+        return JSI_OK;
     }
 
     Jsi_LogError("unknown zvfs mount point or file: %s", zMount);
@@ -840,7 +829,7 @@ static Jsi_RC ZvfsStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         Jsi_Obj *sobj = Jsi_ObjNew(interp);
         Jsi_ValueMakeObject(interp, ret, sobj);
         
-        Jsi_ObjInsert(interp, sobj, "archive", pFile->pArchive->Name, 0);
+        Jsi_ObjInsert(interp, sobj, "archive", Jsi_ValueNewStringDup(interp, pFile->pArchive->zName), 0);
         Jsi_ObjInsert(interp, sobj, "offset", Jsi_ValueNewNumber(interp, (Jsi_Number)pFile->iOffset), 0);
         Jsi_ObjInsert(interp, sobj, "size", Jsi_ValueNewNumber(interp, (Jsi_Number)pFile->nByte), 0);
         Jsi_ObjInsert(interp, sobj, "compressedSize", Jsi_ValueNewNumber(interp, (Jsi_Number)pFile->nByteCompr), 0);
@@ -1249,11 +1238,14 @@ static char * Jfz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
 
 static int Jaz_FSCloseProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    ZvfsArchive *pArchive = pInfo->pFile->pArchive;
     if( pInfo->zBuf ) {
         Jsi_Free(pInfo->zBuf);
         inflateEnd(&pInfo->stream);
     }
     Jsi_Free((char*)pInfo);
+    if (--pArchive->nOpen == 0 && !pArchive->pEntry) /* Was unmounted. */
+        zvfsFreeArchive(NULL, pArchive);
     return 0;
 }
 
@@ -1320,6 +1312,7 @@ static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     chan = (Jsi_Channel)Jsi_Calloc(1,sizeof(Jsi_Chan));
     chan->fname = pFile->zName;
     chan->data = pInfo;
+    pFile->pArchive->nOpen++;
     return chan;
 }
 
@@ -1476,7 +1469,7 @@ static bool Jaz_FSPathInFilesystemProc (Jsi_Interp *interp, Jsi_Value *path, voi
         return 0;*/
     //  TODO: also check this is the archive.
     zFile = ZvfsLookup(jsiIntData.zvfslocal.interp, path);
-    if (zFile!=NULL && Jsi_Strcmp(SS(path), SS(zFile->pArchive->Name)))
+    if (zFile!=NULL && Jsi_Strcmp(SS(path), zFile->pArchive->zName))
         return 1;
     return 0;
 }
@@ -1490,7 +1483,7 @@ static Jsi_Value *Jaz_FSListVolumesProc (Jsi_Interp *interp) {
     pEntry=Jsi_HashSearchFirst(jsiIntData.zvfslocal.archiveHash,&zSearch);
     while (pEntry) {
         if ((pArchive = (ZvfsArchive*)Jsi_HashValueGet(pEntry))) {
-            Jsi_ObjArrayAdd(interp, obj, pArchive->MountPoint);
+            Jsi_ObjArrayAdd(interp, obj, Jsi_ValueNewStringDup(interp, pArchive->zMount));
         }
         pEntry=Jsi_HashSearchNext(&zSearch);
     }
@@ -2385,18 +2378,11 @@ static Jsi_RC zvfsInterpDelete(Jsi_Interp *interp, void *ptr) {
     return JSI_OK;
 }
 
-static Jsi_RC freeFileHashTbl(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *ptr) {
-    if (!ptr) return JSI_OK;
-    ZvfsFile *pFile = (typeof(pFile))ptr;
-    Jsi_Free(ptr);
-    return JSI_OK;
-}
-
 static Jsi_RC freeArchiveHashTbl(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *ptr) {
     if (!ptr) return JSI_OK;
     ZvfsArchive *pArchive = (ZvfsArchive*)ptr;
     pArchive->pEntry = NULL;
-    Zvfs_Unmount(interp, pArchive->MountPoint);
+    zvfsUnmountArchive(interp, pArchive);
     return JSI_OK;
 }
 
@@ -2420,7 +2406,7 @@ Jsi_RC Jsi_InitZvfs(Jsi_Interp *interp, int release) {
         if (Jsi_FSRegister(&Jaz_Filesystem, NULL) != JSI_OK ||
             Jsi_FSRegister(&Jfz_Filesystem, NULL) != JSI_OK)
             return JSI_ERROR;
-        jsiIntData.zvfslocal.fileHash = Jsi_HashNew(interp, JSI_KEYS_STRING, freeFileHashTbl);
+        jsiIntData.zvfslocal.fileHash = Jsi_HashNew(interp, JSI_KEYS_STRING, NULL);
         jsiIntData.zvfslocal.archiveHash = Jsi_HashNew(interp, JSI_KEYS_STRING, freeArchiveHashTbl);
         jsiIntData.zvfslocal.isInit = 1;
         jsiIntData.zvfslocal.interp = interp;
-- 
2.43.0


From b3d010a0f7151d9f41226af405e6be4a2f6868de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 090/112] fix: reading of archives from several threads mixed
 up their data; creating one printed an error

---
 src/jsiInt.h  |   1 +
 src/jsiZvfs.c | 105 ++++++++++++++++++++++++++++++++++++--------------
 2 files changed, 77 insertions(+), 29 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index f3b99a8..08b6e07 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1643,6 +1643,7 @@ typedef struct {
         Jsi_Hash *archiveHash;
         int isInit;
         Jsi_Interp *interp;
+        Jsi_Mutex *mutex;
     } zvfslocal;
 } jsi_IntData;
 
diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index dbc45ba..e6dc400 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -139,6 +139,16 @@ typedef struct ZvfsChannelInfo {
 #define INT32(B, N) (INT16(B,N) + (B[N+2]<<16) + (B[N+3]<<24))
 
 
+/* Mounted archives, and their position in the file, are shared by the interps of all threads. */
+static void zvfsLock(void) {
+    if (jsiIntData.zvfslocal.mutex)
+        Jsi_MutexLock(NULL, jsiIntData.zvfslocal.mutex);
+}
+static void zvfsUnlock(void) {
+    if (jsiIntData.zvfslocal.mutex)
+        Jsi_MutexUnlock(NULL, jsiIntData.zvfslocal.mutex);
+}
+
 /*
 ** Make a new ZFile structure with space to hold a name of the number of
 ** characters given.  Return a pointer to the new structure.
@@ -453,6 +463,7 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         if (!ret)
             return JSI_OK;
         Jsi_Obj* obj = Jsi_ObjNewType(interp, JSI_OT_ARRAY);
+        zvfsLock();
         pEntry=Jsi_HashSearchFirst(jsiIntData.zvfslocal.archiveHash,&zSearch);
         while (pEntry) {
             if ((pArchive = (ZvfsArchive*)Jsi_HashValueGet(pEntry))) {
@@ -460,11 +471,13 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             }
             pEntry=Jsi_HashSearchNext(&zSearch);
         }
+        zvfsUnlock();
         Jsi_ValueMakeObject(interp, ret, obj);
         return JSI_OK;
     }
     const char *zMountPoint = Jsi_ValueToString(interp, mount, NULL);
 
+    zvfsLock();
     pArchive = ZvfsLookupMount(interp, zMountPoint);
     if (pArchive) {
         if (ret)
@@ -472,6 +485,7 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         else
             rc = JSI_ERROR;
     }
+    zvfsUnlock();
     Jsi_DSFree(&pStr);
     return rc;
 }
@@ -538,7 +552,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     unsigned char zBuf[100];   /* Space into which to read from the ZIP archive */
     Jsi_DString pStr, mStr;
     const char *zMountPoint;
-    char mbuf[100];
+    char mbuf[100] = "";
     Jsi_RC rc;
 
     Jsi_DSInit(&pStr);
@@ -547,12 +561,6 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     /* If NULL mount, generate a mount point. */
     // TODO: cleanup allocations of Absolute() path.
     if (mount == NULL || Jsi_ValueIsNull(interp, mount)) {
-        int n = 0;
-        while (n++ < 1000) {
-            snprintf(mbuf, sizeof(mbuf), "%s%d", JSI_ZVFS_DIR, n);
-            if (!ZvfsLookupMount(interp, mbuf))
-                break;
-        }
         zMountPoint = mbuf;
     } else {
         zMountPoint = Jsi_ValueToString(interp, mount, NULL);
@@ -568,6 +576,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     /* Read the "End Of Central Directory" record from the end of the
     ** ZIP archive.
     */
+    zvfsLock();
     rc = zvfsReadEOCD(interp, chan, zBuf, &iPos);
     if (rc != JSI_OK) {
         if (ret && *ret)
@@ -585,10 +594,17 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         pArchive = NULL;
         goto bail;
     }
-    if (!*zMountPoint) {
+    if (zMountPoint == mbuf) {
+        int n = 0;
+        while (n++ < 1000) {
+            snprintf(mbuf, sizeof(mbuf), "%s%d", JSI_ZVFS_DIR, n);
+            if (!ZvfsLookupMount(interp, mbuf))
+                break;
+        }
+    } else if (!*zMountPoint) {
         /* Empty string is the special case of mounting on itself. */
         zMountPoint = zArchiveName;
-    } else if (zMountPoint != mbuf) {
+    } else {
         zMountPoint = Jsi_ValueNormalPath(interp, mount, &mStr);
         if (!zMountPoint)
             goto bail;
@@ -681,6 +697,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     pEntry = Jsi_HashEntryNew(jsiIntData.zvfslocal.archiveHash, pArchive->zName, &isNew);
     Jsi_HashValueSet(pEntry, pArchive);
     pArchive->pEntry = pEntry;
+    zvfsUnlock();
 
     if (ret && *ret)
         Jsi_ValueMakeStringDup(interp, ret, zMountPoint);
@@ -694,6 +711,7 @@ badread:
 bail:
     if (pArchive)
         zvfsFreeArchive(interp, pArchive);
+    zvfsUnlock();
     Jsi_Close(interp, chan);
     Jsi_DSFree(&mStr);
     Jsi_DSFree(&pStr);
@@ -754,12 +772,13 @@ static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
     // TODO: use jsiMain interp for mount/unmount.
     // TODO: if pwd in mount, change it.
     zPath = Jsi_ValueNormalPath(interp, path, &pStr);
+    zvfsLock();
     pArchive = ZvfsLookupMount(interp, zPath);
+    if (pArchive)
+        zvfsUnmountArchive(interp, pArchive);
+    zvfsUnlock();
     Jsi_DSFree(&pStr);
-    if (!pArchive)
-        return JSI_ERROR;
-    zvfsUnmountArchive(interp, pArchive);
-    return JSI_OK;
+    return (pArchive ? JSI_OK : JSI_ERROR);
 }
 
 /*
@@ -801,12 +820,14 @@ static Jsi_RC ZvfsUnmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     /* The argument can also be the archive. */
     Jsi_DString pStr = {};
     char *zPath = Jsi_ValueNormalPath(interp, Mount, &pStr);
+    zvfsLock();
     Jsi_HashEntry *pEntry = (zPath ? Jsi_HashEntryFind(jsiIntData.zvfslocal.archiveHash, zPath) : NULL);
-    Jsi_DSFree(&pStr);
-    if (pEntry) {
+    if (pEntry)
         zvfsUnmountArchive(interp, (ZvfsArchive*)Jsi_HashValueGet(pEntry));
+    zvfsUnlock();
+    Jsi_DSFree(&pStr);
+    if (pEntry)
         return JSI_OK;
-    }
 
     Jsi_LogError("unknown zvfs mount point or file: %s", zMount);
     return JSI_ERROR;
@@ -823,6 +844,7 @@ static Jsi_RC ZvfsStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     ZvfsFile *pFile;
 
     Jsi_Value *Filename = Jsi_ValueArrayIndex(interp, args, 0);
+    zvfsLock();
     pFile = ZvfsLookup(interp, Filename);
     if (pFile) 
     {
@@ -835,14 +857,17 @@ static Jsi_RC ZvfsStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         Jsi_ObjInsert(interp, sobj, "compressedSize", Jsi_ValueNewNumber(interp, (Jsi_Number)pFile->nByteCompr), 0);
 
     }
+    zvfsUnlock();
     return JSI_OK;
 }
 
 /* Read the archive at pInfo->curPos. */
 static int vfsReadRaw(ZvfsChannelInfo* pInfo, char *buf, int toRead) {
     int n = -1;
+    zvfsLock();
     if (Jsi_Seek(pInfo->interp, pInfo->chan, pInfo->curPos, SEEK_SET) >= 0)
         n = Jsi_Read(pInfo->interp, pInfo->chan, buf, toRead);
+    zvfsUnlock();
     if (n <= 0)
         return -1;
     pInfo->curPos += n;
@@ -1244,12 +1269,14 @@ static int Jaz_FSCloseProc(Jsi_Channel chan) {
         inflateEnd(&pInfo->stream);
     }
     Jsi_Free((char*)pInfo);
+    zvfsLock();
     if (--pArchive->nOpen == 0 && !pArchive->pEntry) /* Was unmounted. */
         zvfsFreeArchive(NULL, pArchive);
+    zvfsUnlock();
     return 0;
 }
 
-static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const char *mode)
+static Jsi_Channel vfsOpen (Jsi_Interp *interp, Jsi_Value *path, const char *mode)
 {
     ZvfsFile *pFile;
     ZvfsChannelInfo *pInfo;
@@ -1316,14 +1343,24 @@ static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     return chan;
 }
 
+static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const char *mode)
+{
+    zvfsLock();
+    Jsi_Channel chan = vfsOpen(interp, path, mode);
+    zvfsUnlock();
+    return chan;
+}
+
 /*
 ** This routine does a stat() system call for a ZVFS file.
 */
 static int Jaz_FSStatProc(Jsi_Interp *interp, Jsi_Value *path, Jsi_StatBuf *buf) {
     ZvfsFile *pFile;
 
-    pFile = ZvfsLookup(jsiIntData.zvfslocal.interp, path);
+    zvfsLock();
+    pFile = ZvfsLookup(interp, path);
     if( pFile==0 ) {
+        zvfsUnlock();
         return -1;
     }
     memset(buf, 0, sizeof(*buf));
@@ -1338,6 +1375,7 @@ static int Jaz_FSStatProc(Jsi_Interp *interp, Jsi_Value *path, Jsi_StatBuf *buf)
             buf->st_size = 1;
     } else
         buf->st_mode = (0100000|pFile->permissions);
+    zvfsUnlock();
     return 0;
 }
 
@@ -1350,11 +1388,10 @@ static int Jaz_FSAccessProc(Jsi_Interp *interp, Jsi_Value *path, int mode) {
     if( mode & 3 ) {
         return -1;
     }
-    pFile = ZvfsLookup(jsiIntData.zvfslocal.interp, path);
-    if( pFile==0 ) {
-        return -1;
-    }
-    return 0;
+    zvfsLock();
+    pFile = ZvfsLookup(interp, path);
+    zvfsUnlock();
+    return (pFile ? 0 : -1);
 }
 
 static int Jaz_FSScandirProc(Jsi_Interp *interp, Jsi_Value *dirpath, Jsi_Dirent ***namelist,
@@ -1372,6 +1409,7 @@ static int Jaz_FSScandirProc(Jsi_Interp *interp, Jsi_Value *dirpath, Jsi_Dirent
     const char *zp=Jsi_ValueNormalPath(interp, dirpath, &pStr);
     len = Jsi_Strlen(zp);
 
+    zvfsLock();
     for(pEntry = Jsi_HashSearchFirst(jsiIntData.zvfslocal.fileHash, &sSearch);
             pEntry && rc == JSI_OK;
             pEntry = Jsi_HashSearchNext(&sSearch)
@@ -1398,6 +1436,7 @@ static int Jaz_FSScandirProc(Jsi_Interp *interp, Jsi_Value *dirpath, Jsi_Dirent
         *de = dd;
         n++;
     }
+    zvfsUnlock();
     if (n>0) {
 #if defined(__WIN32) || JSI__MUSL==1 || defined(__FreeBSD__)
 #define __compar_fn_t void*
@@ -1463,15 +1502,16 @@ int Jaz_FSMatchInDirectoryProc (Jsi_Interp* interp, Jsi_Value *result, Jsi_Value
 * important filesystem procedure. */
 static bool Jaz_FSPathInFilesystemProc (Jsi_Interp *interp, Jsi_Value *path, void* *clientDataPtr) {
     ZvfsFile *zFile;
+    bool rc = 0;
     if (jsiIntData.zvfslocal.archiveHash->numEntries<=0)
         return 0;
-    /*if (ZvfsLookupMount(jsiIntData.zvfslocal.interp, path)==0)
-        return 0;*/
     //  TODO: also check this is the archive.
-    zFile = ZvfsLookup(jsiIntData.zvfslocal.interp, path);
+    zvfsLock();
+    zFile = ZvfsLookup(interp, path);
     if (zFile!=NULL && Jsi_Strcmp(SS(path), zFile->pArchive->zName))
-        return 1;
-    return 0;
+        rc = 1;
+    zvfsUnlock();
+    return rc;
 }
 
 static Jsi_Value *Jaz_FSListVolumesProc (Jsi_Interp *interp) {
@@ -1480,6 +1520,7 @@ static Jsi_Value *Jaz_FSListVolumesProc (Jsi_Interp *interp) {
     ZvfsArchive *pArchive;     /* The ZIP archive being mounted */
     Jsi_Value *pVols = Jsi_ValueNew(interp);
     Jsi_Obj* obj = Jsi_ObjNew(interp);
+    zvfsLock();
     pEntry=Jsi_HashSearchFirst(jsiIntData.zvfslocal.archiveHash,&zSearch);
     while (pEntry) {
         if ((pArchive = (ZvfsArchive*)Jsi_HashValueGet(pEntry))) {
@@ -1487,6 +1528,7 @@ static Jsi_Value *Jaz_FSListVolumesProc (Jsi_Interp *interp) {
         }
         pEntry=Jsi_HashSearchNext(&zSearch);
     }
+    zvfsUnlock();
     return pVols;
 }
 
@@ -1979,7 +2021,7 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     */
 
     Archive = Jsi_ValueArrayIndex(interp, args, 0);
-    chan = Jsi_Open(interp, Archive, "rb+");
+    chan = Jsi_Open(interp, Archive, "-rb+");
     if (chan==0 ) {
         if (append) {
             Jsi_LogError("archive must exists: %s", SS(Archive));
@@ -2396,6 +2438,9 @@ static Jsi_RC Jsi_DoneZvfs(Jsi_Interp *interp) {
         Jsi_HashDelete(jsiIntData.zvfslocal.archiveHash);
         Jsi_HashDelete(jsiIntData.zvfslocal.fileHash);
         jsiIntData.zvfslocal.isInit = 0;
+        if (jsiIntData.zvfslocal.mutex)
+            Jsi_MutexDelete(NULL, jsiIntData.zvfslocal.mutex);
+        jsiIntData.zvfslocal.mutex = NULL;
     }
     return JSI_OK;
 }
@@ -2408,6 +2453,8 @@ Jsi_RC Jsi_InitZvfs(Jsi_Interp *interp, int release) {
             return JSI_ERROR;
         jsiIntData.zvfslocal.fileHash = Jsi_HashNew(interp, JSI_KEYS_STRING, NULL);
         jsiIntData.zvfslocal.archiveHash = Jsi_HashNew(interp, JSI_KEYS_STRING, freeArchiveHashTbl);
+        if (!jsiIntData.zvfslocal.mutex)
+            jsiIntData.zvfslocal.mutex = Jsi_MutexNew(NULL, -1, JSI_MUTEX_RECURSIVE);
         jsiIntData.zvfslocal.isInit = 1;
         jsiIntData.zvfslocal.interp = interp;
     }
-- 
2.43.0


From 1e9073ae6b219e15cc63050a903e42ddbe656177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:36 +0000
Subject: [PATCH 091/112] fix: compressed files: writing of much data
 overflowed a buffer, flush ended the file, errors and damage went unnoticed,
 and appended data was not read

---
 src/jsiFilesys.c |   6 +-
 src/jsiZvfs.c    | 373 +++++++++++++++++++++++++++--------------------
 2 files changed, 219 insertions(+), 160 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 2c2a1a4..330490d 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -501,10 +501,8 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
                 Jsi_LogError("File open failed '%s'", fileName);
             return NULL;
         }
-        Jsi_Chan *nch = (Jsi_Chan *)Jsi_Calloc(1,sizeof(*nch));
-        *nch = *ch;
-        nch->fsPtr = fsPtr;
-        return nch;
+        ch->fsPtr = fsPtr;
+        return ch;
     }
     for (i=0, n = 0; s[i]; i++) {
         switch (s[i]) {
diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index e6dc400..d3216b1 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -125,6 +125,7 @@ typedef struct ZvfsChannelInfo {
     int iCRC;            /* Cyclic Redundancy Check of the data */
     char emuGzip;
     char useGzip;
+    char state;               /* For compressed files: the JFZ_ state. */
     Jsi_Interp *interp;
 } ZvfsChannelInfo;
 
@@ -982,6 +983,8 @@ static void put32(char *z, int v);
 
 /***************** Compressed files ******************/
 
+#define JFZ_KEEP 8 /* Size of gzip trailer: this much that was used is kept in buf. */
+
 static Jsi_Channel Jfz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const char *modes)
 {
     ZvfsChannelInfo *pInfo;
@@ -1030,17 +1033,12 @@ static Jsi_Channel Jfz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
 #endif
     z_stream *stream = &pInfo->stream;
     if (mode & JSI_FS_READONLY) {
-        stream->next_in = (unsigned char *)pInfo->buf;
-        Jsi_Seek(interp, achan, 0, SEEK_END);
-        pInfo->nByte = Jsi_Tell(interp, achan);
-        Jsi_Seek(interp, achan, 0, SEEK_SET);
+        stream->next_in = (unsigned char *)pInfo->buf + JFZ_KEEP;
         if (!winBits)
             rc = inflateInit(stream);
         else
             rc = inflateInit2(stream, winBits);
     } else {
-        if (mode&JSI_FS_APPEND)
-            Jsi_Seek(interp, achan, 0, SEEK_END);
         if (!winBits)
             rc = deflateInit(stream, zLevel);
         else
@@ -1062,68 +1060,74 @@ static Jsi_Channel Jfz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     return chan;
 }
 
-static int Jfz_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
+enum { JFZ_HEADER=0, JFZ_DATA, JFZ_END, JFZ_FAILED };
+
+/* Compress what is in the stream and write it out. Returns 0, or -1 upon error. */
+static int jfzDeflate(Jsi_Channel chan, int flush) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     Jsi_Interp *interp = pInfo->interp;
-    ZVFSSIGASSERT(pInfo, PINFO);
-    char obuf[COMPR_BUF_SIZE];
-    if (size<0) size = 0;
-    int n, cnt = size;
-    if (!buf) size = 0;
     z_stream *stream = &pInfo->stream;
-    stream->next_out = (unsigned char*)obuf;
-    stream->avail_out = sizeof(obuf);
-    stream->next_in = (unsigned char*)buf;
-    stream->avail_in = n = size;
-    while (stream->avail_in > 0 || buf == NULL) {
-        stream->total_out = 0;
-        int status = deflate(stream, (buf?(size==0?Z_FULL_FLUSH:0):Z_FINISH));
-        int out = stream->total_out;
-        if (pInfo->emuGzip && buf && (status == Z_STREAM_END || status == Z_OK))
-            pInfo->iCRC = crc32(pInfo->iCRC, (unsigned char*)buf, size - stream->avail_in);
-        if ((status == Z_STREAM_END || status == Z_OK) && out>0)
-        {
-            if (pInfo->emuGzip && pInfo->readSoFar == 0 && /* Add gzip header */
-                Jsi_Write(interp, pInfo->chan, "\37\213\10\0\0\0\0\0\0\3", 10) != 10)
-                goto writefail;
-            if (out != Jsi_Write(interp, pInfo->chan, obuf, out)) {
-writefail:
-                Jsi_LogError("write failed");
-                cnt = -1;
-                break;
-            }
-            cnt += out;
-            pInfo->curPos = (pInfo->readSoFar += cnt);
-            stream->next_out = (unsigned char*)(obuf+cnt);
-            stream->avail_out = sizeof(obuf);
-            if (pInfo->emuGzip && !buf) { /* Add gzip size and crc. */
-                char psp[8];
-                put32(psp, pInfo->iCRC);
-                put32(psp+4, pInfo->nByte);
-                if (Jsi_Write(interp, pInfo->chan, (char*)psp, 8) != 8)
-                    goto writefail;
-            }
-            //cnt += out;
-        }
-        pInfo->nByte += (size - stream->avail_in);
-        if (status == Z_STREAM_END)
-            break;
-        if (status != Z_OK) {
-            Jsi_LogError("unzip failed: %s", stream->msg);
-            cnt = -1;
-            break;
-        }
-        if (!buf)
-            break;
+    unsigned char obuf[COMPR_BUF_SIZE];
+    int status;
+    if (pInfo->state == JFZ_FAILED)
+        return -1;
+    if (pInfo->state == JFZ_HEADER) {
+        if (pInfo->emuGzip && /* Add gzip header */
+            Jsi_Write(interp, pInfo->chan, "\37\213\10\0\0\0\0\0\0\3", 10) != 10)
+            goto fail;
+        pInfo->state = JFZ_DATA;
     }
-    return cnt;
-    
+    do {
+        stream->next_out = obuf;
+        stream->avail_out = sizeof(obuf);
+        status = deflate(stream, flush);
+        if (status != Z_OK && status != Z_STREAM_END && status != Z_BUF_ERROR)
+            goto fail;
+        int out = sizeof(obuf) - stream->avail_out;
+        if (out && Jsi_Write(interp, pInfo->chan, (char*)obuf, out) != out)
+            goto fail;
+    } while (stream->avail_out == 0 || (flush == Z_FINISH && status == Z_OK));
+    if (flush == Z_FINISH && pInfo->emuGzip) { /* Add gzip size and crc. */
+        char psp[8];
+        put32(psp, pInfo->iCRC);
+        put32(psp+4, pInfo->nByte);
+        if (Jsi_Write(interp, pInfo->chan, psp, 8) != 8)
+            goto fail;
+    }
+    return 0;
+
+fail:
+    /* What is written can not be continued. */
+    pInfo->state = JFZ_FAILED;
+    return -1;
+}
+
+static int Jfz_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
+    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    ZVFSSIGASSERT(pInfo, PINFO);
+    if (size<=0 || !buf)
+        return 0;
+    pInfo->stream.next_in = (unsigned char*)buf;
+    pInfo->stream.avail_in = size;
+    if (jfzDeflate(chan, Z_NO_FLUSH) != 0)
+        return -1;
+    if (pInfo->emuGzip)
+        pInfo->iCRC = crc32(pInfo->iCRC, (unsigned char*)buf, size);
+    pInfo->nByte += size;
+    pInfo->curPos += size;
+    return size;
 }
 
 static int Jfz_FSFlushProc(Jsi_Channel chan) {
-    ZVFSSIGASSERT((ZvfsChannelInfo*)chan->data, PINFO);
-    Jfz_FSWriteProc(chan, NULL, 0);
-    return 0;
+    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    ZVFSSIGASSERT(pInfo, PINFO);
+    if (chan->flags & JSI_FS_READONLY)
+        return 0;
+    pInfo->stream.next_in = NULL;
+    pInfo->stream.avail_in = 0;
+    if (jfzDeflate(chan, Z_SYNC_FLUSH) != 0)
+        return -1;
+    return Jsi_Flush(pInfo->interp, pInfo->chan);
 }
 
 static int Jfz_FSStatProc(Jsi_Interp *interp, Jsi_Value *path, Jsi_StatBuf *buf) {
@@ -1139,126 +1143,185 @@ static int Jfz_FSTellProc(Jsi_Channel chan) {
     return pInfo->curPos;
 }
 
+/* Get at least want bytes of input. Returns how many there are, or -1 upon error. */
+static int jfzFill(ZvfsChannelInfo *pInfo, uint want) {
+    z_stream *stream = &pInfo->stream;
+    while (stream->avail_in < want) {
+        memmove(pInfo->buf, stream->next_in-JFZ_KEEP, JFZ_KEEP+stream->avail_in);
+        stream->next_in = (unsigned char*)pInfo->buf + JFZ_KEEP;
+        char *cp = pInfo->buf + JFZ_KEEP + stream->avail_in;
+        int n = Jsi_Read(pInfo->interp, pInfo->chan, cp, pInfo->buf + sizeof(pInfo->buf) - cp);
+        if (n < 0)
+            return -1;
+        if (n == 0)
+            break;
+        stream->avail_in += n;
+    }
+    return stream->avail_in;
+}
+
+/* Get bytes of a gzip header. Returns how many. */
+static int jfzBytes(ZvfsChannelInfo *pInfo, unsigned char *buf, int len) {
+    int n;
+    for (n=0; n<len && jfzFill(pInfo, 1)>0; n++) {
+        buf[n] = *pInfo->stream.next_in++;
+        pInfo->stream.avail_in--;
+    }
+    return n;
+}
+
+/* Skip gzip trailer, if it is right. */
+static bool jfzTrailer(ZvfsChannelInfo *pInfo) {
+    z_stream *stream = &pInfo->stream;
+    int k, n = jfzFill(pInfo, JFZ_KEEP);
+    /* Miniz may have read some of it already. */
+    for (k=0; n>=0 && k<=JFZ_KEEP; k++) {
+        unsigned char *cp = stream->next_in - k;
+        if (n+k >= JFZ_KEEP && (uint)INT32(cp, 0) == (uint)pInfo->iCRC && (uint)INT32(cp, 4) == pInfo->nByte) {
+            stream->next_in += JFZ_KEEP-k;
+            stream->avail_in -= JFZ_KEEP-k;
+            return 1;
+        }
+    }
+    return 0;
+}
+
+/* Skip gzip header. */
+static bool jfzHeader(ZvfsChannelInfo *pInfo) {
+    unsigned char hdr[10], c;
+    int i;
+    if (jfzBytes(pInfo, hdr, 10) != 10 || hdr[0] != 0x1f || hdr[1] != 0x8b || hdr[2] != 8)
+        return 0;
+    if (hdr[3] & 4) { /* Extra data */
+        unsigned char len[2];
+        if (jfzBytes(pInfo, len, 2) != 2)
+            return 0;
+        for (i=INT16(len, 0); i>0; i--)
+            if (jfzBytes(pInfo, &c, 1) != 1)
+                return 0;
+    }
+    for (i=8; i<=16; i*=2) /* Name and comment */
+        if (hdr[3] & i)
+            do {
+                if (jfzBytes(pInfo, &c, 1) != 1)
+                    return 0;
+            } while (c);
+    if ((hdr[3] & 2) && jfzBytes(pInfo, hdr, 2) != 2)
+        return 0;
+    return 1;
+}
+
 static int Jfz_FSReadProc(Jsi_Channel chan, char *s, int size) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     Jsi_Interp *interp = pInfo->interp;
     ZVFSSIGASSERT(pInfo, PINFO);
     z_stream *stream = &pInfo->stream;
-    int cnt = 0;
-    *s = 0;
-    int rem = (pInfo->nByte - pInfo->readSoFar);
-    int bsize = sizeof(pInfo->buf);
-    stream->next_out = (unsigned char*)s;
-    int oaout = stream->avail_out = size;
-    if (rem <= 0)
+    int n = 0, status, m;
+    if (size <= 0)
         return 0;
-    
-    while (cnt<size)
-    {
-      int status;
-      if (!stream->avail_in)
-      {
-        // Input buffer is empty, so read more bytes from input file.
-        int n = (rem<bsize? rem : bsize);
-
-        if (pInfo->emuGzip && pInfo->readSoFar == 0) { /* Strip gzip header */
-            if (Jsi_Read(interp, pInfo->chan, pInfo->buf, 10) != 10)
-                goto readFail;
-            n -= 10;
-            const char *cp = pInfo->buf;
-            if (cp[0] != '\37' || cp[1] != '\213' || cp[2] != '\10') {
+    *s = 0;
+    while (n<size && pInfo->state != JFZ_END && pInfo->state != JFZ_FAILED) {
+        int avail = jfzFill(pInfo, 1);
+        if (avail < 0) {
+            if (n > 0)
+                break;
+            Jsi_LogError("Failed reading from input file!");
+            return -1;
+        }
+        if (pInfo->state == JFZ_HEADER) {
+            if (avail == 0) { /* Is empty, or there is no other file appended. */
+                pInfo->state = JFZ_END;
+                break;
+            }
+            if (pInfo->emuGzip && !jfzHeader(pInfo)) {
                 Jsi_LogError("not a gzip file");
-                return -1;
+                pInfo->state = JFZ_FAILED;
+                break;
             }
+            pInfo->state = JFZ_DATA;
+            continue;
         }
-            
-        if (Jsi_Read(interp, pInfo->chan, pInfo->buf, n) != n)
-        {
-readFail:
-            Jsi_LogError("Failed reading from input file!");
-            return -1;
+        stream->next_out = (unsigned char*)s+n;
+        stream->avail_out = size-n;
+        status = inflate(stream, Z_SYNC_FLUSH);
+        m = (size-n) - stream->avail_out;
+        if (pInfo->emuGzip)
+            pInfo->iCRC = crc32(pInfo->iCRC, (unsigned char*)s+n, m);
+        pInfo->nByte += m;
+        pInfo->curPos += m;
+        n += m;
+        if (status == Z_STREAM_END) {
+            pInfo->state = JFZ_END;
+            if (pInfo->emuGzip) {
+                if (!jfzTrailer(pInfo)) {
+                    Jsi_LogError("compressed file is damaged");
+                    pInfo->state = JFZ_FAILED;
+                    break;
+                }
+                /* Another one may have been appended. */
+                unsigned char *in = stream->next_in;
+                uint inLen = stream->avail_in;
+                inflateEnd(stream);
+                memset(stream, 0, sizeof(*stream));
+                inflateInit2(stream, -15);
+                stream->next_in = in;
+                stream->avail_in = inLen;
+                pInfo->iCRC = pInfo->nByte = 0;
+                pInfo->state = JFZ_HEADER;
+            }
+        } else if ((status != Z_OK && status != Z_BUF_ERROR) || (avail == 0 && m == 0)) {
+            Jsi_LogError("%s", (avail == 0 ? "unexpected end of compressed file" : "inflate failed"));
+            pInfo->state = JFZ_FAILED;
         }
-        pInfo->curPos = (pInfo->readSoFar += n);
-
-        stream->next_in = (unsigned char*)pInfo->buf;
-        stream->avail_in = n;
-
-        rem -= n;
-      }
-
-      status = inflate(stream, Z_SYNC_FLUSH);
-
-      if ((status == Z_STREAM_END) || (!stream->avail_out))
-      {
-        uint n = oaout - stream->avail_out;
-        cnt += n;
-        stream->next_out = (unsigned char*)(s+cnt);
-        stream->avail_out = (size-cnt);
-      }
-
-      if (status == Z_STREAM_END)
-        break;
-      else if (status != Z_OK)
-      {
-        Jsi_LogError("inflate failed: %s", stream->msg);
-        return -1;
-      }
     }
-
-    return cnt;
+    if (n == 0 && pInfo->state == JFZ_FAILED)
+        return -1;
+    if (n < size)
+        s[n] = 0;
+    return n;
 }
 
+static int Jfz_FSEofProc(Jsi_Channel chan) {
+    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    return (pInfo->state == JFZ_END);
+}
 
 static int Jfz_FSCloseProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     ZVFSSIGASSERT(pInfo, PINFO);
-    if( pInfo->zBuf ) {
-        Jsi_Free(pInfo->zBuf);
-    }
-    int mode = chan->flags;
-    if (mode & JSI_FS_READONLY) {
-        if (inflateEnd(&pInfo->stream) != Z_OK)
-        {
-          fprintf(stderr, "inflateEnd() failed!\n");
-          return -1;
-        }
-    } else {
-        Jfz_FSWriteProc(chan, NULL, 0);
-        if (deflateEnd(&pInfo->stream) != Z_OK)
-        {
-          fprintf(stderr, "deflateEnd() failed!\n");
-          return -1;
-        }
+    int rc = 0;
+    if (chan->flags & JSI_FS_READONLY)
+        inflateEnd(&pInfo->stream);
+    else {
+        pInfo->stream.next_in = NULL;
+        pInfo->stream.avail_in = 0;
+        rc = jfzDeflate(chan, Z_FINISH);
+        deflateEnd(&pInfo->stream);
     }
-    if (pInfo->chan)
-        Jsi_Close(pInfo->interp, pInfo->chan);
+    if (pInfo->chan && Jsi_Close(pInfo->interp, pInfo->chan) != 0)
+        rc = -1;
     Jsi_Free((char*)pInfo);
-    return 0;
+    return rc;
 }
 
 
 static char * Jfz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
-    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    char *cp = s;
     int n = 0;
     *s = 0;
-    while (n<(size-1)) {
-        int m = Jfz_FSReadProc(chan, pInfo->buf, 1);
-        if (m <= 0)
-            break;
-        *cp = pInfo->buf[0];
-        if (*cp == '\n') {
-            n++;
+    while (n<(size-1) && Jfz_FSReadProc(chan, s+n, 1) == 1)
+        if (s[n++] == '\n')
             break;
-        }
-        n++;
-        cp++;
-    }
-    if (n>0)
-        s[n]=0;
+    if (n == 0)
+        return NULL;
+    s[n]=0;
     return s;
 }
 
+static int Jfz_FSGetcProc(Jsi_Channel chan) {
+    unsigned char c;
+    return (Jfz_FSReadProc(chan, (char*)&c, 1) == 1 ? c : -1);
+}
+
 /************** Zip Archive filesystem ******************/
 
 static int Jaz_FSCloseProc(Jsi_Channel chan) {
@@ -2291,14 +2354,14 @@ static Jsi_Filesystem Jfz_Filesystem = {
     .readProc=Jfz_FSReadProc,
     .writeProc=Jfz_FSWriteProc,
     .getsProc=Jfz_FSGetsProc,
-    .getcProc=0,
+    .getcProc=Jfz_FSGetcProc,
     .ungetcProc=0,
     .putsProc=0,
     
     .flushProc=Jfz_FSFlushProc,
     .seekProc=0,
     .tellProc=Jfz_FSTellProc,
-    .eofProc=0,
+    .eofProc=Jfz_FSEofProc,
     .truncateProc=0,
     .rewindProc=0,
     .closeProc=Jfz_FSCloseProc,
@@ -2306,10 +2369,8 @@ static Jsi_Filesystem Jfz_Filesystem = {
     /*.pathInFilesystemProc=Jfz_FSPathInFilesystemProc,
     .accessProc=Jfz_FSAccessProc,
     .scandirProc=Jfz_FSScandirProc,
-    .getcProc=Jfz_FSGetcProc,
     .ungetcProc=Jfz_FSUngetcProc,
     .seekProc=Jfz_FSSeekProc,
-    .eofProc=Jfz_FSEofProc,
     .rewindProc=Jfz_FSRewindProc,
     .listVolumesProc=Jfz_FSListVolumesProc,*/
 };
-- 
2.43.0


From 93d36e8a993856a21dac0d3c29844a137fc020c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 092/112] fix: gets of a compressed or archived file took a
 read error for the end of a line

---
 src/jsiZvfs.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index d3216b1..a47deec 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1306,11 +1306,14 @@ static int Jfz_FSCloseProc(Jsi_Channel chan) {
 
 
 static char * Jfz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
-    int n = 0;
+    int m, n = 0;
     *s = 0;
-    while (n<(size-1) && Jfz_FSReadProc(chan, s+n, 1) == 1)
+    while (n<(size-1) && (m = Jfz_FSReadProc(chan, s+n, 1)) != 0) {
+        if (m < 0)
+            return NULL;
         if (s[n++] == '\n')
             break;
+    }
     if (n == 0)
         return NULL;
     s[n]=0;
@@ -1677,9 +1680,11 @@ static int Jaz_FSUngetcProc(Jsi_Channel chan, int ch) {
 
 static char * Jaz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    int n = 0;
+    int m, n = 0;
     *s = 0;
-    while (n<(size-1) && vfsFill(pInfo) > 0) {
+    while (n<(size-1) && (m = vfsFill(pInfo)) != 0) {
+        if (m < 0)
+            return NULL;
         s[n] = pInfo->buf[pInfo->bpos++];
         if (s[n++] == '\n')
             break;
-- 
2.43.0


From 24b210100d1df32484e601f57cf8529ca25e8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 093/112] fix: import into a table: quoted csv values overran
 buffers, read and commit errors were taken for success, a failure left a
 part, or dropped or committed what was there before

---
 src/jsiSqlite.c | 366 +++++++++++++++++++-----------------------------
 1 file changed, 147 insertions(+), 219 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 91d1586..c1cf651 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1686,7 +1686,7 @@ static int dbAuthCallback(
 **
 ** copied from shell.c from '.import' command
 */
-static char *dbLocalGetline(Jsi_Interp *interp, char *zPrompt, Jsi_Channel in) {
+static char *dbLocalGetline(Jsi_Interp *interp, char *zPrompt, Jsi_Channel in, int *err) {
     char *zLine;
     int nLine;
     int n;
@@ -1704,7 +1704,8 @@ static char *dbLocalGetline(Jsi_Interp *interp, char *zPrompt, Jsi_Channel in) {
             if( zLine==0 ) return 0;
         }
         if( Jsi_Gets(interp, in, &zLine[n], nLine - n)==0 ) {
-            if( n==0 ) {
+            *err = !Jsi_Eof(interp, in);
+            if( n==0 || *err ) {
                 Jsi_Free(zLine);
                 return 0;
             }
@@ -2111,30 +2112,85 @@ On success, return the number of lines processed, not necessarily same \
 as 'changeCnt' due to the conflict algorithm selected. \
 ")
 
+/* Split a line in place into columns, storing at most nCol of them; returns how many there are. */
+static int dbImportSplit(char *z, const char *zSep, int csv, char **azCol, int nCol)
+{
+    int n = 0, nSep = Jsi_Strlen(zSep);
+    while (1) {
+        char *field = z, *out;
+        if (csv && *z == '"') {
+            field = out = ++z;
+            while (*z) {
+                if (*z == '"') {
+                    if (z[1] == '"')
+                        z++;
+                    else if (z[1] == 0 || Jsi_Strncmp(z+1, zSep, nSep)==0) {
+                        z++;
+                        break;
+                    } /* Else invalid: separator should be right after close quote, so just keep it. */
+                }
+                *out++ = *z++;
+            }
+            z = (*z ? z+nSep : NULL);
+            *out = 0;
+        } else if ((z = Jsi_Strstr(z, zSep))) {
+            *z = 0;
+            z += nSep;
+        }
+        if (n < nCol)
+            azCol[n] = field;
+        n++;
+        if (!z)
+            return n;
+    }
+}
+
+/* Read a record, which in csv can span lines when quoted. Returns 1, 0 at the end, or -1 having reported an error. */
+static int dbImportRecord(Jsi_Interp *interp, Jsi_Db *db, Jsi_Channel in, const char *zFile, int csv, Jsi_DString *dStr, int *lineno)
+{
+    int err = 0, qcnt = 0;
+    char *zLine, *z;
+    Jsi_DSSetLength(dStr, 0);
+    do {
+        zLine = dbLocalGetline(interp, 0, in, &err);
+        if (!zLine) {
+            if (err)
+                Jsi_LogErrorExt("Error: read failed: %s", zFile);
+            else if (qcnt%2)
+                Jsi_LogErrorExt("unterminated string at line: %d", *lineno);
+            return (err || qcnt%2 ? -1 : 0);
+        }
+        (*lineno)++;
+        if (qcnt%2)
+            Jsi_DSAppend(dStr, "\n", NULL);
+        Jsi_DSAppend(dStr, zLine, NULL);
+        for (z = zLine; csv && *z; z++)
+            if (*z == '"') qcnt++;
+        Jsi_Free(zLine);
+    } while (qcnt%2);
+    return 1;
+}
+
 static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                          Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     Jsi_Db *db;
-    Jsi_RC rv = JSI_OK;
     int rc;
     char *zTable;               /* Insert data into this table */
     char *zFile;                /* The file from which to extract data */
     const char *zConflict;            /* The conflict algorithm to use */
-    sqlite3_stmt *pStmt;        /* A statement */
-    int nCol;                   /* Number of columns in the table */
-    int nByte;                  /* Number of bytes in an SQL string */
-    int i, j;                   /* Loop counters */
-    int nSep;                   /* Number of bytes in zSep[] */
+    sqlite3_stmt *pStmt = NULL; /* A statement */
+    int nCol = 0;               /* Number of columns in the table */
+    int i, n, got;
     int nNull;                  /* Number of bytes in zNull[] */
     char *zSql;                 /* An SQL statement */
-    char *zLine;                /* A single line of input from the file */
-    char **azCol;               /* zLine[] broken up into columns */
-    const char *onCommit;              /* How to commit changes */
-    Jsi_Channel in;                   /* The input file */
+    char **azCol = NULL;        /* A record broken up into columns */
+    Jsi_Channel in;             /* The input file */
     int lineno = 0;             /* Line number of input file */
-    int created = 0;
+    int ok = 0, nested;
     const char *zSep;
     const char *zNull;
+    Jsi_DString rStr = {};
 
     if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
     Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 2);
@@ -2159,209 +2215,85 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     zTable = Jsi_ValueArrayIndexToStr(interp, args, 0, NULL);
     Jsi_Value *fname = Jsi_ValueArrayIndex(interp, args, 1);
     zFile = Jsi_ValueArrayIndexToStr(interp, args, 1, NULL);
-    nSep = Jsi_Strlen(zSep);
     nNull = Jsi_Strlen(zNull);
-    if( nSep==0 ) 
+    if( Jsi_Strlen(zSep)==0 ) 
         return Jsi_LogErrorExt("Error: non-null separator required for copy");
 
+    in = Jsi_Open(interp, fname, "rb");
+    if( in==0 ) 
+        return Jsi_LogErrorExt("Error: cannot open file: %s", zFile);
 
-    zSql = sqlite3_mprintf("SELECT * FROM '%q'", zTable);
-    if (zSql==0) 
-        return Jsi_LogErrorExt("Error: bad table: %s", zTable);
-    
-    if (opts.headers) {
-        in = Jsi_Open(interp, fname, "rb");
-        if( in==0 ) 
-            return Jsi_LogErrorExt("Error: cannot open file: %s", zFile);
-        if ((zLine = dbLocalGetline(interp, 0, in))==0 ) {
-            Jsi_Close(interp, in);
-            return JSI_ERROR;
-        }
+    /* All is undone on failure, of an enclosing transaction just what is done here. */
+    nested = !sqlite3_get_autocommit(db->db);
+    if (sqlite3_exec(db->db, (nested ? "SAVEPOINT _jsi_import" : "BEGIN"), 0, 0, 0)) {
+        Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
         Jsi_Close(interp, in);
-        char *zn, *ze, *z = zLine;
-        Jsi_DString cStr = {};
-        int zlen = 0, icnt = 0;
-        Jsi_DSAppend(&cStr, "CREATE TABLE IF NOT EXISTS '", zTable, "' (", NULL);
-        while (1) {
-            zn = Jsi_Strstr(z, zSep);
-            if (!zn) zlen = Jsi_Strlen(z);
-            else zlen = zn-z;
-            if (zlen<=0) break;
-            ze = z+zlen-1;
-            Jsi_DSAppend(&cStr, (icnt?",":""), "'", NULL);
-            icnt++;
-            if (opts.csv && *z=='"' && zn>z && *ze == '"')
-                Jsi_DSAppendLen(&cStr, z+1, zlen-2);
-            else
-                Jsi_DSAppendLen(&cStr, z, zlen);
-            Jsi_DSAppend(&cStr, "'", NULL);
-            if (!zn) break;
-            z = zn+nSep;
+        return JSI_ERROR;
+    }
+    if (opts.headers) {
+        got = dbImportRecord(interp, db, in, zFile, opts.csv, &rStr, &lineno);
+        if (got < 0)
+            goto done;
+        n = nCol = Jsi_Strlen(Jsi_DSValue(&rStr))+1;
+        azCol = (char**)Jsi_Malloc( sizeof(azCol[0])*nCol );
+        if (got)
+            n = dbImportSplit(Jsi_DSValue(&rStr), zSep, opts.csv, azCol, nCol);
+        zSql = sqlite3_mprintf("CREATE TABLE IF NOT EXISTS '%q' (", zTable);
+        for (i=0; i<n && got; i++) {
+            if (!azCol[i][0])
+                got = 0;
+            zSql = sqlite3_mprintf("%z%s'%q'", zSql, (i?",":""), azCol[i]);
         }
-        Jsi_DSAppend(&cStr, ");", NULL);
-        Jsi_Free(zLine);
-        if (zlen<=0) {
-            Jsi_DSFree(&cStr);
+        zSql = sqlite3_mprintf("%z);", zSql);
+        Jsi_Free(azCol);
+        azCol = NULL;
+        if (!got) {
+            sqlite3_free(zSql);
             Jsi_LogErrorExt("null header problem");
-            return JSI_ERROR;
+            goto done;
+        }
+        rc = sqlite3_exec(db->db, zSql, 0, 0, 0);
+        sqlite3_free(zSql);
+        if (rc) {
+            Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
+            goto done;
         }
-        rc = sqlite3_exec(db->db, Jsi_DSValue(&cStr), 0, 0, 0);
-        Jsi_DSFree(&cStr);
-        if (rc) 
-            return Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
-        created = 1;
     }
-    
-    nByte = Jsi_Strlen(zSql);
+
+    zSql = sqlite3_mprintf("SELECT * FROM '%q'", zTable);
     rc = sqlite3_prepare(db->db, zSql, -1, &pStmt, 0);
-        sqlite3_free(zSql);
+    sqlite3_free(zSql);
     if( rc ) {
         Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
-        nCol = 0;
-    } else {
-        nCol = sqlite3_column_count(pStmt);
+        goto done;
     }
+    nCol = sqlite3_column_count(pStmt);
     sqlite3_finalize(pStmt);
-    if( nCol==0 ) {
-        rc = JSI_ERROR;
-        goto bail;
-    }
-    zSql = (char*)Jsi_Malloc( nByte + 50 + nCol*2 );
-    if( zSql==0 ) {
-        Jsi_LogErrorExt("Error: can't malloc()");
-        rc = JSI_ERROR;
-        goto bail;
-    }
-    sqlite3_snprintf(nByte+50, zSql, "INSERT OR %q INTO '%q' VALUES(?",
-                     zConflict, zTable);
-    j = Jsi_Strlen(zSql);
-    for(i=1; i<nCol; i++) {
-        zSql[j++] = ',';
-        zSql[j++] = '?';
-    }
-    zSql[j++] = ')';
-    zSql[j] = 0;
+    pStmt = NULL;
+    if( nCol==0 )
+        goto done;
+    zSql = sqlite3_mprintf("INSERT OR %s INTO '%q' VALUES(?", zConflict, zTable);
+    for(i=1; i<nCol; i++)
+        zSql = sqlite3_mprintf("%z,?", zSql);
+    zSql = sqlite3_mprintf("%z)", zSql);
     rc = sqlite3_prepare(db->db, zSql, -1, &pStmt, 0);
-    Jsi_Free(zSql);
+    sqlite3_free(zSql);
     if( rc ) {
         Jsi_LogErrorExt("Error: %s", sqlite3_errmsg(db->db));
-        sqlite3_finalize(pStmt);
-        return JSI_ERROR;
-    }
-    in = Jsi_Open(interp, fname, "rb");
-    if( in==0 ) {
-        Jsi_LogErrorExt("Error: cannot open file: %s", zFile);
-        sqlite3_finalize(pStmt);
-        return JSI_ERROR;
+        goto done;
     }
     azCol = (char**)Jsi_Malloc( sizeof(azCol[0])*(nCol+1) );
-    if( azCol==0 ) {
-        Jsi_LogErrorExt("Error: can't malloc()");
-        Jsi_Close(interp, in);
-        rc = JSI_ERROR;
-        goto bail;
-    }
-    (void)sqlite3_exec(db->db, "BEGIN", 0, 0, 0);
-    onCommit = "COMMIT";
-    while ((zLine = dbLocalGetline(interp, 0, in))!=0 ) {
-        char *z;
-        i = 0;
-        lineno++;
-        if (opts.limit>0 && lineno > opts.limit) {
-            Jsi_Free(zLine);
+    while (opts.limit<=0 || lineno<opts.limit) {
+        got = dbImportRecord(interp, db, in, zFile, opts.csv, &rStr, &lineno);
+        if (got < 0)
+            goto done;
+        if (!got)
             break;
-        }
-        if (lineno == 1 && opts.headers) {
-            Jsi_Free(zLine);
-            continue;
-        }
-        if (opts.csv && Jsi_Strchr(zLine,'"')) 
-        {
-            char *zn, *z = zLine;
-            Jsi_DString sStr = {};
-            int qcnt = 0;
-            i = -1;
-            while (*z) if (*z++ == '"') qcnt++;
-            z = zLine;
-            if (qcnt%2) { /* aggregate quote spanning newlines */
-                Jsi_DSAppend(&sStr, zLine, NULL);
-                do {
-                    lineno++;
-                    Jsi_DSAppend(&sStr, "\n", NULL);
-                    Jsi_Free(zLine);
-                    if (((zLine = dbLocalGetline(interp, 0, in)))==0)
-                        break;
-                    Jsi_DSAppend(&sStr, zLine, NULL);
-                    z = zLine;
-                    while (*z) if (*z++ == '"') qcnt++;
-                } while (qcnt%2);
-                z = Jsi_DSValue(&sStr);
-            }
-            if (qcnt%2) {
-                Jsi_DSFree(&sStr);
-                Jsi_Free(zLine);
-                Jsi_Close(interp, in);
-                Jsi_LogErrorExt("unterminated string at line: %d", lineno);
-                break;
-            }
-            while (z) {
-                if (*z != '\"') { /* Handle un-quoted value */
-                    zn = Jsi_Strstr(z, zSep);
-                    azCol[++i] = z;
-                    if (!zn)
-                        break;
-                    *zn = 0;
-                    z = zn+nSep;
-                    continue;
-                }
-                /* Handle quoted value */
-                zn = ++z;
-                Jsi_DString cStr = {};
-                while (1) {
-                    if (!zn)
-                        break;
-                    if (*zn != '"')
-                        Jsi_DSAppendLen(&cStr, zn, 1);
-                    else {
-                        if (zn[1] == '"') {
-                            zn++;
-                            Jsi_DSAppendLen(&cStr, "\"", 1);
-                        } else if (zn[1] == 0) {
-                            break;
-                        } else if (Jsi_Strncmp(zn+1,zSep, nSep)==0) {
-                            *zn = 0;
-                            zn += (nSep + 1);
-                            break;
-                        } else {
-                            /* Invalid, comma should be right after close quote, so just eat quote. */
-                            Jsi_DSAppendLen(&cStr, zn, 1);
-                        }
-                    }
-                    zn++;
-                }
-                Jsi_Strcpy(z, Jsi_DSValue(&cStr));
-                Jsi_DSFree(&cStr);
-                azCol[++i] = z;
-                z = zn;
-            }
-        } else {
-            azCol[0] = zLine;
-            for(i=0, z=zLine; *z; z++) {
-                if( *z==zSep[0] && Jsi_Strncmp(z, zSep, nSep)==0 ) {
-                    *z = 0;
-                    i++;
-                    if( i<nCol ) {
-                        azCol[i] = &z[nSep];
-                        z += nSep-1;
-                    }
-                }
-            }
-        }
-        if( i+1!=nCol ) {
+        n = dbImportSplit(Jsi_DSValue(&rStr), zSep, opts.csv, azCol, nCol);
+        if( n!=nCol ) {
             Jsi_LogErrorExt("%s line %d: expected %d columns of data but found %d",
-                 zFile, lineno, nCol, i+1);
-            onCommit = "ROLLBACK";
-            break;
+                 zFile, lineno, nCol, n);
+            goto done;
         }
         for(i=0; i<nCol; i++) {
             /* check for null data, if so, bind as null */
@@ -2375,35 +2307,31 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         }
         sqlite3_step(pStmt);
         rc = sqlite3_reset(pStmt);
-        if (zLine)
-            Jsi_Free(zLine);
         if( rc!=SQLITE_OK ) {
             Jsi_LogErrorExt("%s at line: %d", sqlite3_errmsg(db->db), lineno);
-            onCommit = "ROLLBACK";
-            break;
+            goto done;
         }
     }
-    Jsi_Free(azCol);
-    Jsi_Close(interp, in);
     sqlite3_finalize(pStmt);
-    (void)sqlite3_exec(db->db, onCommit, 0, 0, 0);
+    pStmt = NULL;
+    if (sqlite3_exec(db->db, (nested ? "RELEASE _jsi_import" : "COMMIT"), 0, 0, 0))
+        Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
+    else
+        ok = 1;
 
-    if( onCommit[0] == 'C' ) {
-        /* success, set result as number of lines processed */
-        Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)lineno);
-        rv = JSI_OK;
-    } else {
-        rv = JSI_ERROR;
-    }
-    
-bail:
-    if (rc != JSI_OK && created && opts.conflict == CC_ROLLBACK) {
-        Jsi_DString cStr = {};
-        Jsi_DSAppend(&cStr, "DROP TABLE IF EXISTS '", zTable, "';", NULL);
-        (void)sqlite3_exec(db->db, Jsi_DSValue(&cStr), 0, 0, 0);
-        Jsi_DSFree(&cStr);
-    }
-    return rv;
+done:
+    sqlite3_finalize(pStmt);
+    if (!ok && !sqlite3_get_autocommit(db->db))
+        (void)sqlite3_exec(db->db, (nested ? "ROLLBACK TO _jsi_import; RELEASE _jsi_import" : "ROLLBACK"), 0, 0, 0);
+    if (azCol)
+        Jsi_Free(azCol);
+    Jsi_Close(interp, in);
+    Jsi_DSFree(&rStr);
+    if (!ok)
+        return JSI_ERROR;
+    /* success, set result as number of lines processed */
+    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)lineno);
+    return JSI_OK;
 }
 
 #define FN_evaluate JSI_INFO("\
@@ -2503,7 +2431,7 @@ static void dbOutputCsv(QueryOpts *p, const char *z, Jsi_DString *dStr, int bSep
         int nSep = Jsi_Strlen(p->separator);
         for(i=0; z[i]; i++) {
             if( needCsvQuote[((unsigned char*)z)[i]] || 
-                (z[i]==p->separator[0] && (nSep==1 || memcmp(z, p->separator, nSep)==0)) ) {
+                (z[i]==p->separator[0] && (nSep==1 || Jsi_Strncmp(z+i, p->separator, nSep)==0)) ) {
                 i = 0;
                 break;
             }
-- 
2.43.0


From 08db94e93413054debc3975611ba1136aa5e32c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:33 +0000
Subject: [PATCH 094/112] fix: sqlite collations and functions: unreferenced
 callbacks, unterminated text, lost errors, overloads replaced each other;
 cached regexps ignored modifiers; object binds lost errors and did not quote

---
 src/jsiSqlite.c | 143 ++++++++++++++++++++++++++++++++----------------
 src/jsiUtils.c  |  27 ++++++---
 2 files changed, 115 insertions(+), 55 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index c1cf651..fb88a4e 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -133,6 +133,7 @@ struct SqlFunc {
     char        *pScript;   /* The char* representation of the script */
     Jsi_DString dScript;
     char        *zName;     /* Name of this function */
+    int         nArg;       /* Number of arguments, or -1 for any */
     SqlFunc     *pNext;     /* Next function on the list of them all */
 };
 
@@ -248,6 +249,7 @@ typedef struct Jsi_Db {
     int stepCnt, sortCnt;          /* Statistics for most recent operation */
     int nTransaction;          /* Number of nested [transaction] methods */
     int errCnt;               /* Count of errors. */
+    int collErr;              /* A collation function failed during this step. */
     Jsi_Value *vfs;
     int hasOpts;
     Jsi_Obj *fobj;
@@ -498,6 +500,16 @@ static Jsi_RC dbEvalStepSub(DbEvalContext *p, int release, int *erc) {
     if (db->debug & TMODE_STEP)
         JSI_DBQUERY_PRINTF( "DEBUG: step: %s\n", pPreStmt->zSql);
     rcs = sqlite3_step(pStmt);
+    int collErr = db->collErr;
+    db->collErr = 0;
+    if( collErr && rcs==SQLITE_ROW ) {
+        sqlite3_reset(pStmt);
+        dbReleaseColumnNames(p);
+        p->pPreStmt = 0;
+        Jsi_LogErrorExt("error in collation");
+        dbReleaseStmt(db, pPreStmt, 1);
+        return JSI_ERROR;
+    }
     if( rcs==SQLITE_BUSY ) {
         if (erc) *erc = -2;
         else
@@ -514,15 +526,18 @@ static Jsi_RC dbEvalStepSub(DbEvalContext *p, int release, int *erc) {
 
     db->stepCnt = sqlite3_stmt_status(pStmt,SQLITE_STMTSTATUS_FULLSCAN_STEP,1);
     db->sortCnt = sqlite3_stmt_status(pStmt,SQLITE_STMTSTATUS_SORT,1);
-    if (release==0 && rcs==SQLITE_OK)
+    if (release==0 && rcs==SQLITE_OK && !collErr)
         return JSI_BREAK;
     dbReleaseColumnNames(p);
     p->pPreStmt = 0;
 
-    if( rcs!=SQLITE_OK ) {
+    if( rcs!=SQLITE_OK || collErr ) {
         /* If a run-time error occurs, report the error and stop reading
         ** the SQL.  */
-        Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
+        if (collErr)
+            Jsi_LogErrorExt("error in collation");
+        else
+            Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
         dbReleaseStmt(db, pPreStmt, 1);
         return JSI_ERROR;
     } else {
@@ -1068,12 +1083,14 @@ static void dbDeleteCmd(Jsi_Db *db)
         SqlFunc *pFunc = db->pFunc;
         db->pFunc = pFunc->pNext;
         Jsi_DSFree(&pFunc->dScript);
-        Jsi_DecrRefCount(interp, pFunc->tocall);
+        if (pFunc->tocall)
+            Jsi_DecrRefCount(interp, pFunc->tocall);
         Jsi_Free((char*)pFunc);
     }
     while( db->pCollate ) {
         SqlCollate *pCollate = db->pCollate;
         db->pCollate = pCollate->pNext;
+        Jsi_DecrRefCount(interp, pCollate->zScript);
         Jsi_Free((char*)pCollate);
     }
 
@@ -1326,14 +1343,20 @@ static int dbSqlCollate(
     //Jsi_Db *db = (Jsi_Db*)cd;
     Jsi_Value *vpargs, *items[3], *ret;
 
+    if (p->db->collErr)
+        return 0;
     items[0] = Jsi_ValueNewObj(interp, p->db->fobj);
-    items[1] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zA);
-    items[2] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zB);
+    items[1] = Jsi_ValueNewBlob(interp, (uchar*)zA, nA); /* These are not null terminated. */
+    items[2] = Jsi_ValueNewBlob(interp, (uchar*)zB, nB);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
+    Jsi_IncrRefCount(interp, vpargs);
     ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, p->zScript, vpargs, &ret, NULL);
     if( JSI_OK!=rc ) {
-        //db->errCnt++;
+        /* A collation can not return an error, so stop the statement. */
+        p->db->errCnt++;
+        p->db->collErr = 1;
+        sqlite3_interrupt(p->db->db);
         rc = 0;
     } else
         rc = dbGetIntBool(interp, ret);
@@ -1350,11 +1373,12 @@ static Jsi_Value* dbGetValueGet(Jsi_Interp *interp, sqlite3_value *pIn)
         int bytes;
         bytes = sqlite3_value_bytes(pIn);
         const char *zBlob = (char*) sqlite3_value_blob(pIn);
-        if(!zBlob ) {
+        if(!zBlob && bytes ) {
             return Jsi_ValueMakeNull(interp, &v);
         }
         unsigned char *uptr = (unsigned char*)Jsi_Malloc(bytes+1);
-        memcpy(uptr, zBlob, bytes);
+        if (bytes)
+            memcpy(uptr, zBlob, bytes);
         uptr[bytes] = 0;
         return Jsi_ValueMakeBlob(interp, &v, uptr, bytes);
     }
@@ -1422,32 +1446,36 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
     bool isNew = 0;
     Jsi_Value *pat = NULL;
     Jsi_HashEntry *hPtr;
-    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, spat))))
+    Jsi_DString kStr = {};
+    const char *key = Jsi_DSAppend(&kStr, (mod?mod:""), "/", spat, NULL); /* The modifiers are part of it. */
+    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, key))))
         pat = (Jsi_Value*)Jsi_HashValueGet(hPtr);
-    if (!pat) {
-        if (db->regexpHash && db->maxRegexCache>0 && (int)Jsi_HashSize(db->regexpHash)>=db->maxRegexCache) {
-            Jsi_LogErrorExt("Regex hash reached max size: %d", db->maxRegexCache);
-            return;
-        }
+    if (pat)
+        Jsi_IncrRefCount(interp, pat);
+    else {
         pat = Jsi_ValueNewRegExp(interp, spat, mod);
-        if (!pat)
+        if (!pat) {
+            sqlite3_result_error(context, "bad regular expression", -1);
+            Jsi_DSFree(&kStr);
             return;
+        }
         Jsi_IncrRefCount(interp, pat);
-        if (db->maxRegexCache) {
+        if (db->maxRegexCache<0 || (db->maxRegexCache>0 && (!db->regexpHash || (int)Jsi_HashSize(db->regexpHash)<db->maxRegexCache))) {
             if (!db->regexpHash)
                 db->regexpHash = Jsi_HashNew(interp, JSI_KEYS_STRING, jsiSqlfreeValueTbl);
-            hPtr = Jsi_HashEntryNew(db->regexpHash, spat, &isNew);
-            if (!hPtr) {
-                Jsi_DecrRefCount(interp, pat);
-                return;
+            hPtr = Jsi_HashEntryNew(db->regexpHash, key, &isNew);
+            if (hPtr) {
+                Jsi_IncrRefCount(interp, pat);
+                Jsi_HashValueSet(hPtr, pat);
             }
-            Jsi_HashValueSet(hPtr, pat);
         }
     }
     if (Jsi_RegExpMatch(interp, pat, str, &rc, NULL)==JSI_OK)
         sqlite3_result_int(context, rc);
-    if (!db->maxRegexCache)
-        Jsi_DecrRefCount(interp, pat);
+    else
+        sqlite3_result_error(context, "regular expression failed", -1);
+    Jsi_DecrRefCount(interp, pat);
+    Jsi_DSFree(&kStr);
 }
 
 static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv) {
@@ -1790,11 +1818,11 @@ static void dbEvalSetColumnJSON(DbEvalContext *p, int iCol, Jsi_DString *dStr) {
     case SQLITE_BLOB: {
         int bytes = sqlite3_column_bytes(pStmt, iCol);
         const char *zBlob = (char*)sqlite3_column_blob(pStmt, iCol);
-        if( !zBlob ) {
+        if( !zBlob && bytes ) {
             Jsi_DSAppend(dStr, "null", NULL);
             return;
         }
-        Jsi_JSONQuote(interp, zBlob, bytes, dStr);
+        Jsi_JSONQuote(interp, zBlob?zBlob:"", bytes, dStr);
         return;
     }
     case SQLITE_INTEGER: {
@@ -1889,10 +1917,11 @@ static Jsi_Value* dbEvalSetColumnValue(DbEvalContext *p, int iCol, Jsi_Value **v
     case SQLITE_BLOB: {
         int bytes = sqlite3_column_bytes(pStmt, iCol);
         const char *zBlob = (char*)sqlite3_column_blob(pStmt, iCol);
-        if( !zBlob )
+        if( !zBlob && bytes )
             return Jsi_ValueMakeNull(interp, val);
         unsigned char *uptr = (unsigned char*)Jsi_Malloc(bytes+1);
-        memcpy(uptr, zBlob, bytes);
+        if (bytes)
+            memcpy(uptr, zBlob, bytes);
         uptr[bytes] = 0;
         return Jsi_ValueMakeBlob(interp, val, uptr, bytes);
         break;
@@ -1924,13 +1953,22 @@ static Jsi_Value* dbEvalSetColumnValue(DbEvalContext *p, int iCol, Jsi_Value **v
         if (!p->db->noJsonConv) {
             const char *dectyp = sqlite3_column_decltype(pStmt, iCol);
             if (dectyp && !Jsi_Strncasecmp(dectyp, "charjson", 8)) {
-                Jsi_Value *v = NULL; //Jsi_ValueNew1(interp);
                 str = (char*)sqlite3_column_text(pStmt, iCol );
-                if (JSI_OK != Jsi_JSONParse(interp, str, &v, 0))
-                    Jsi_LogWarnExt("JSON parse failure for CHARJSON column");
-                if (!v)
-                    v = Jsi_ValueNew(interp);
-                return v;
+                /* Only arrays and objects are stored as JSON: anything else is just text. */
+                if (str && (*str == '{' || *str == '[')) {
+                    Jsi_Value *v = NULL; //Jsi_ValueNew1(interp);
+                    if (JSI_OK != Jsi_JSONParse(interp, str, &v, 0))
+                        Jsi_LogWarnExt("JSON parse failure for CHARJSON column");
+                    else if (v) {
+                        if (!val)
+                            return v;
+                        Jsi_ValueCopy(interp, *val, v);
+                        Jsi_DecrRefCount(interp, v);
+                        return *val;
+                    }
+                    if (v)
+                        Jsi_DecrRefCount(interp, v);
+                }
             }
         }
     }
@@ -2062,12 +2100,17 @@ static Jsi_RC SqliteCollateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 
     zName = Jsi_ValueArrayIndexToStr(interp, args, 0, NULL);
     func = Jsi_ValueArrayIndex(interp, args, 1);
+    if (zName == NULL)
+        return Jsi_LogErrorExt("expected name");
+    if (!Jsi_ValueIsFunction(interp, func))
+        return Jsi_LogErrorExt("expected function");
     pCollate = (SqlCollate*)Jsi_Calloc(1, sizeof(*pCollate));
     if( pCollate==0 ) return JSI_ERROR;
     pCollate->db = db;
     pCollate->interp = interp;
     pCollate->pNext = db->pCollate;
     pCollate->zScript = func; /*(char*)&pCollate[1];*/
+    Jsi_IncrRefCount(interp, func);
     db->pCollate = pCollate;
 
     if( sqlite3_create_collation(db->db, zName, SQLITE_UTF8, pCollate, dbSqlCollate) )
@@ -2307,8 +2350,9 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         }
         sqlite3_step(pStmt);
         rc = sqlite3_reset(pStmt);
-        if( rc!=SQLITE_OK ) {
-            Jsi_LogErrorExt("%s at line: %d", sqlite3_errmsg(db->db), lineno);
+        if( rc!=SQLITE_OK || db->collErr ) {
+            Jsi_LogErrorExt("%s at line: %d", (db->collErr ? "error in collation" : sqlite3_errmsg(db->db)), lineno);
+            db->collErr = 0;
             goto done;
         }
     }
@@ -2370,9 +2414,13 @@ static Jsi_RC SqliteEvalCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
                 if (db->debug & TMODE_STEP)
                     JSI_DBQUERY_PRINTF( "DEBUG: step: %s\n", zSql);
                 rc = sqlite3_step(pStmt);
-            } while( rc == SQLITE_ROW );
+            } while( rc == SQLITE_ROW && !db->collErr );
             rc2 = sqlite3_finalize(pStmt);
             if( rc!=SQLITE_NOMEM ) rc = rc2;
+            if( db->collErr ) {
+                db->collErr = 0;
+                return Jsi_LogErrorExt("error in collation");
+            }
             if( rc==SQLITE_OK ) {
                 zSql = zLeftover;
                 while( isspace(zSql[0]) ) zSql++;
@@ -2593,7 +2641,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         goto bail;
     }
     if (opts.obj.name) {
-        if (Jsi_SqlObjBinds(interp, &eStr, &opts.obj) != JSI_OK)
+        if ((rc = Jsi_SqlObjBinds(interp, &eStr, &opts.obj)) != JSI_OK)
             goto bail;
         zSql = Jsi_DSValue(&eStr);
     }
@@ -3175,7 +3223,7 @@ static Jsi_RC SqliteFilenameCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
 ** one if an existing one cannot be found.  Return a pointer to the
 ** structure.
 */
-static SqlFunc *dbFindSqlFunc(Jsi_Db *db, const char *zName) {
+static SqlFunc *dbFindSqlFunc(Jsi_Db *db, const char *zName, int nArg) {
     SqlFunc *p, *pNew;
     int i;
     pNew = (SqlFunc*)Jsi_Calloc(1, sizeof(*pNew) + Jsi_Strlen(zName) + 1 );
@@ -3186,13 +3234,14 @@ static SqlFunc *dbFindSqlFunc(Jsi_Db *db, const char *zName) {
     }
     pNew->zName[i] = 0;
     for(p=db->pFunc; p; p=p->pNext) {
-        if( Jsi_Strcmp(p->zName, pNew->zName)==0 ) {
+        if( p->nArg==nArg && Jsi_Strcmp(p->zName, pNew->zName)==0 ) {
             Jsi_Free((char*)pNew);
             return p;
         }
     }
     pNew->interp = db->interp;
     pNew->pScript = 0;
+    pNew->nArg = nArg;
     Jsi_DSInit(&pNew->dScript);
     pNew->pNext = db->pFunc;
     db->pFunc = pNew;
@@ -3241,19 +3290,19 @@ static Jsi_RC SqliteFunctionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
       }else{
         pScript = objv[3];
       }*/
-    pFunc = dbFindSqlFunc(db, zName);
+    pFunc = dbFindSqlFunc(db, zName, nArg);
     if( pFunc==0 ) return JSI_ERROR;
     SQLSIGASSERT(pFunc,FUNC);
 
-    pFunc->tocall = tocall;
-    Jsi_IncrRefCount(interp, pFunc->tocall);
     rc = sqlite3_create_function(db->db, zName, nArg, SQLITE_UTF8,
                                  pFunc, jsiSqlFunc, 0, 0);
                                  
-    if( rc!=SQLITE_OK ) {
-        rc = JSI_ERROR;
-        Jsi_LogErrorExt("function create error: %s", (char *)sqlite3_errmsg(db->db));
-    }
+    if( rc!=SQLITE_OK )
+        return Jsi_LogErrorExt("function create error: %s", (char *)sqlite3_errmsg(db->db));
+    Jsi_IncrRefCount(interp, tocall);
+    if (pFunc->tocall)
+        Jsi_DecrRefCount(interp, pFunc->tocall);
+    pFunc->tocall = tocall;
     return JSI_OK;
 }
 
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 25ef64e..2e01cbd 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -536,6 +536,17 @@ bool jsi_StrInArray(Jsi_Interp* interp, Jsi_Value *arr, const char *str) {
     return 0;
 }
 
+/* Append a string quoted for Sql. */
+static char *jsiSqlQuote(Jsi_DString *dStr, const char *str) {
+    Jsi_DSAppendLen(dStr, "'", 1);
+    for (; *str; str++) {
+        if (*str == '\'')
+            Jsi_DSAppendLen(dStr, "'", 1);
+        Jsi_DSAppendLen(dStr, str, 1);
+    }
+    return Jsi_DSAppendLen(dStr, "'", 1);
+}
+
 /* Modify Sql to append bind fields for Object */
 Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* opts) {
     const char *varName = opts->name; 
@@ -603,7 +614,8 @@ Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* op
                             Jsi_Number nv = 0;
                             Jsi_DSFree(&jStr);
                             Jsi_ValueGetNumber(interp, v, &nv);
-                            dflt = Jsi_DSPrintf(&jStr, "%" JSI_NUMGFMT, nv);
+                            char nbuf[JSI_MAX_NUMBER_STRING*2];
+                            dflt = Jsi_DSAppend(&jStr, Jsi_NumberToString(interp, nv, nbuf, sizeof(nbuf)), NULL);
                         }
                         if (addCheck)
                             chk = "IN ('real','integer')";
@@ -611,18 +623,17 @@ Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* op
                 } else if (Jsi_ValueIsArray(interp, v) || Jsi_ValueIsObjType(interp, v, JSI_OT_OBJECT)) {
                     typ = "CHARJSON";
                     if (addDefaults) {
+                        Jsi_DString oStr = {};
                         Jsi_DSFree(&jStr);
-                        Jsi_DSAppend(&jStr, "'", NULL);
-                        Jsi_ValueGetDString(interp, v, &jStr, JSI_OUTPUT_JSON|JSI_JSON_STRICT);
-                        Jsi_DSAppend(&jStr, "'", NULL);
-                        dflt = Jsi_DSValue(&jStr);
+                        dflt = jsiSqlQuote(&jStr, Jsi_ValueGetDString(interp, v, &oStr, JSI_OUTPUT_JSON|JSI_JSON_STRICT));
+                        Jsi_DSFree(&oStr);
                     }
                 } else {
                     typ = "TEXT";
                     if (addDefaults) {
                         if ((cp=Jsi_ValueString(interp, v, NULL))) {
                             Jsi_DSFree(&jStr);
-                            dflt = Jsi_DSAppend(&jStr, "'", cp, "'", NULL);
+                            dflt = jsiSqlQuote(&jStr, cp);
                         } else
                             dflt = "NULL";
                     }
@@ -640,9 +651,9 @@ Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* op
             if (dflt)
                 Jsi_DSAppend(&sStr," DEFAULT ", dflt, NULL);
             if (chk) {
-                Jsi_DSPrintf(&sStr," CONSTRAINT '%s Invalid' CHECK(typeof(%s) %s", kstr, kstr, chk);
+                Jsi_DSPrintf(&sStr," CONSTRAINT [%s Invalid] CHECK(typeof([%s]) %s", kstr, kstr, chk);
                 if (chk2)
-                    Jsi_DSPrintf(&sStr," AND %s IN %s", kstr, chk2);
+                    Jsi_DSPrintf(&sStr," AND [%s] IN %s", kstr, chk2);
                 Jsi_DSAppend(&sStr,")", NULL);
             }
         }
-- 
2.43.0


From a5baf60b325cd0556c144a063a2b10c43e6710f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:14 +0000
Subject: [PATCH 095/112] fix: reading of a compressed file that is open for
 writing crashed

---
 src/jsiZvfs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index a47deec..16fe78c 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1220,6 +1220,10 @@ static int Jfz_FSReadProc(Jsi_Channel chan, char *s, int size) {
     if (size <= 0)
         return 0;
     *s = 0;
+    if (!(chan->flags & JSI_FS_READONLY)) { /* Is compressing: there is no input. */
+        Jsi_LogError("not opened for reading");
+        return -1;
+    }
     while (n<size && pInfo->state != JFZ_END && pInfo->state != JFZ_FAILED) {
         int avail = jfzFill(pInfo, 1);
         if (avail < 0) {
-- 
2.43.0


From 4e5266801d6e6dd5eebaa28dd5aab4a39fef4a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:05 +0000
Subject: [PATCH 096/112] fix: signals: callbacks after the first for a signal
 never ran, signals could be lost, failures of sigaction went unnoticed, names
 with a dash, alarms with fractions, and signals after the end of the interp

---
 src/jsi.h       |   1 +
 src/jsiCmds.c   |   5 +-
 src/jsiInt.h    |   4 +-
 src/jsiInterp.c |   7 +++
 src/jsiSignal.c | 129 +++++++++++++++++++++++++++++++++---------------
 5 files changed, 102 insertions(+), 44 deletions(-)

diff --git a/src/jsi.h b/src/jsi.h
index 4350aa7..f8ce80f 100644
--- a/src/jsi.h
+++ b/src/jsi.h
@@ -1305,6 +1305,7 @@ typedef struct {
     Jsi_Value *funcVal;         /* JS Function to call. */
     Jsi_EventHandlerProc *handler;  /* C-function handler. */
     void *data;
+    uint sigSeen;               /* Signals delivered when last handled. */
 } Jsi_Event;
 
 JSI_EXTERN Jsi_Event* Jsi_EventNew(Jsi_Interp *interp, Jsi_EventHandlerProc *callback, void* data); /*STUB = 349*/
diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index b69d21c..0b544d5 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -289,10 +289,11 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         switch (evPtr->evType) {
         case JSI_EVENT_SIGNAL:
 #ifndef JSI_OMIT_SIGNAL   /* TODO: win signals? */
-            if (!jsi_SignalIsSet(interp, evPtr->sigNum))
+            if (!jsi_SignalTake(interp, evPtr))
                 continue;
-            jsi_SignalClear(interp, evPtr->sigNum);
 #endif
+            cnt++;
+            evPtr->count++;
             break;
         case JSI_EVENT_TIMER:
             if (cur_sec <= evPtr->when_sec && (cur_sec != evPtr->when_sec || cur_ms < evPtr-> when_ms)) {
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 08b6e07..dd024d3 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1410,8 +1410,8 @@ Jsi_RC jsi_InitCData(Jsi_Interp *interp, int release);
 Jsi_RC jsi_InitVfs(Jsi_Interp *interp, int release);
 Jsi_RC jsi_execCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr, Jsi_DString *cStr, int *code);
 
-void jsi_SignalClear(Jsi_Interp *interp, int sigNum);
-bool jsi_SignalIsSet(Jsi_Interp *interp, int sigNum);
+bool jsi_SignalTake(Jsi_Interp *interp, Jsi_Event *ev);
+void jsi_SignalDiscard(Jsi_Interp *interp);
 /* excute opcodes
  * 1. ps, program execution context
  * 2. opcodes, codes to be executed
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 5ca29ef..bbd9eaf 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1045,7 +1045,11 @@ static Jsi_RC jsi_InterpDebugHook(struct Jsi_Interp* interp, const char *curFile
         curFunc = "";
 
     if (interp->parent && interp->parent->sigmask) {
+#if JSI__SIGNAL==1
+        jsi_SignalDiscard(interp->parent);
+#else
         interp->parent->sigmask = 0;
+#endif
         opCode = "SIGINT";
 
     } else if (Jsi_Strcmp(opCode, "DEBUG") || !interp->parent) {
@@ -1944,6 +1948,9 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
     Jsi_HashDeleteIF(interp->preserveTbl);
     if (interp->curDir)
         Jsi_Free(interp->curDir);
+#if JSI__SIGNAL==1
+    jsi_InitSignal(interp, 1);
+#endif
     if (isMainInt) {
         jsi_InitFilesys(interp, mainFlag);
     }
diff --git a/src/jsiSignal.c b/src/jsiSignal.c
index 5396908..2eed17e 100644
--- a/src/jsiSignal.c
+++ b/src/jsiSignal.c
@@ -3,6 +3,9 @@
 #include <string.h>
 #include <ctype.h>
 #include <unistd.h>
+#include <errno.h>
+#include <limits.h>
+#include <sys/time.h>
 #ifndef JSI_AMALGAMATION
 /* Adapted to update so "signal.handle(func) gets called back like setInterval/setTimeout */
 #include "jsiInt.h"
@@ -12,21 +15,22 @@
 
 enum { SIGNAL_ACTION_IGNORE=-1,  SIGNAL_ACTION_DEFAULT=0, SIGNAL_ACTION_HANDLE=1, MAX_SIGNALS = (sizeof(Jsi_Wide) * 8)};
 
-static Jsi_Wide *sigloc;
+static volatile Jsi_Wide sigNone;           /* Where signals go when there is no primary interp. */
+static volatile Jsi_Wide *sigloc = &sigNone;
 static Jsi_Wide sigsblocked;
 static struct sigaction *saOldPtr[MAX_SIGNALS] = {NULL};
 static struct sigaction saOld[MAX_SIGNALS];
 static int signal_handling[MAX_SIGNALS] = {0};
+static volatile uint sigCounts[MAX_SIGNALS]; /* Signals delivered, so that each callback sees each of them. */
 
 /* Make sure to do this as a wide, not int */
 #define sig_to_bit(SIG) ((Jsi_Wide)1 << (SIG))
 
 static void signal_handler(int sig)
 {
-    /* We just remember which signals occurred. Jsi_Eval() will
-     * notice this as soon as it can and throw an error
-     */
-    *sigloc |= sig_to_bit(sig);
+    /* We just remember which signals occurred; the event loop, perhaps in another thread, will notice. */
+    __sync_fetch_and_add(&sigCounts[sig], 1);
+    __sync_fetch_and_or(sigloc, sig_to_bit(sig));
 }
 
 static void signal_ignorer(int sig)
@@ -103,21 +107,21 @@ static int find_signal_by_name(Jsi_Interp *interp, const char *name)
     if (*pt == '-') {
         pt++;
     }
-    if (Jsi_Strncasecmp(name, "sig", 3) == 0) {
+    if (Jsi_Strncasecmp(pt, "sig", 3) == 0) {
         pt += 3;
     }
     if (isdigit(UCHAR(pt[0]))) {
-        i = atoi(pt);
-        if (i > 0 && i < MAX_SIGNALS) {
-            return i;
+        char *ep;
+        long n = strtol(pt, &ep, 10);
+        if (!*ep && n > 0 && n < MAX_SIGNALS) {
+            return (int)n;
         }
     }
     else {
         for (i = 1; i < MAX_SIGNALS; i++) {
-            /* Jsi_SignalId() returns names such as SIGINT, and
-             * returns "unknown signal id" if unknown, so this will work
-             */
-            if (Jsi_Strncasecmp(Jsi_SignalName(i) + 3, pt, -1) == 0) {
+            /* Jsi_SignalId() returns names such as SIGINT. */
+            const char *nam = Jsi_SignalId(i);
+            if (nam && Jsi_Strncasecmp(nam + 3, pt, -1) == 0) {
                 return i;
             }
         }
@@ -125,33 +129,57 @@ static int find_signal_by_name(Jsi_Interp *interp, const char *name)
     return -1;
 }
 
-void jsi_SignalClear(Jsi_Interp *interp, int sigNum) {
-    Jsi_Wide nsig = sig_to_bit(sigNum);
-    (*sigloc) &= ~nsig;
+static void signal_clear(int sigNum) {
+    __sync_fetch_and_and(sigloc, ~sig_to_bit(sigNum));
 }
 
-bool jsi_SignalIsSet(Jsi_Interp *interp, int sigNum) {
-    return (((*sigloc) & sig_to_bit(sigNum)) != 0);
+/* True if the signal of an event was delivered since it was last asked: it is the event's to handle. */
+bool jsi_SignalTake(Jsi_Interp *interp, Jsi_Event *ev) {
+    uint cnt = sigCounts[ev->sigNum];
+    if (cnt == ev->sigSeen)
+        return 0;
+    ev->sigSeen = cnt;
+    signal_clear(ev->sigNum);
+    return 1;
 }
 
-static void jsi_SignalSet(Jsi_Interp *interp, int sig) {
+/* Discard all pending signals. */
+void jsi_SignalDiscard(Jsi_Interp *interp) {
+    Jsi_HashEntry *hPtr;
+    Jsi_HashSearch search;
+    interp->sigmask = 0;
+    for (hPtr = Jsi_HashSearchFirst(interp->eventTbl, &search);
+            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search)) {
+        Jsi_Event *ev = (Jsi_Event*)Jsi_HashValueGet(hPtr);
+        if (ev && ev->evType == JSI_EVENT_SIGNAL)
+            ev->sigSeen = sigCounts[ev->sigNum];
+    }
+}
+
+static Jsi_RC jsi_SignalSet(Jsi_Interp *interp, int sig) {
     struct sigaction sa;
 
     sa.sa_flags = 0;
     sigemptyset(&sa.sa_mask);
     sa.sa_handler = signal_handler;
 
+    if (sig <= 0)
+        return Jsi_LogError("bad signal: %d", sig);
     if (SIGNAL_ACTION_HANDLE != signal_handling[sig]) {
 
         if (signal_handling[sig] == SIGNAL_ACTION_DEFAULT) {
+            struct sigaction old;
+            if (sigaction(sig, &sa, &old))
+                return Jsi_LogError("can not handle signal %d: %s", sig, strerror(errno));
+            saOld[sig] = old;
             saOldPtr[sig] = &saOld[sig];
-            sigaction(sig, &sa, saOldPtr[sig]);
         }
-        else {
-            sigaction(sig, &sa, 0);
+        else if (sigaction(sig, &sa, 0)) {
+            return Jsi_LogError("can not handle signal %d: %s", sig, strerror(errno));
         }
         signal_handling[sig] = SIGNAL_ACTION_HANDLE;
     }
+    return JSI_OK;
 }
 
 static Jsi_RC SignalSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
@@ -170,10 +198,11 @@ static Jsi_RC SignalSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         Jsi_Obj *nobj = Jsi_ObjNew(interp);
         int m;
         Jsi_ValueMakeArrayObject(interp, ret, nobj);
-        for (i = 0, m = 0; i < MAX_SIGNALS; i++) {
-            if (signal_handling[i] == action) {
-                /* Add signal name to the list  */
-                Jsi_ObjArraySet(interp, nobj, Jsi_ValueNewStringKey(interp, Jsi_SignalName(i)), m++);
+        for (i = 1, m = 0; i < MAX_SIGNALS; i++) {
+            const char *nam = Jsi_SignalId(i);
+            if (signal_handling[i] == action && (nam || action != SIGNAL_ACTION_DEFAULT)) {
+                /* Add signal name (or number) to the list  */
+                Jsi_ObjArraySet(interp, nobj, (nam ? Jsi_ValueNewStringKey(interp, nam) : Jsi_ValueNewNumber(interp, i)), m++);
             }
         }
         return JSI_OK;
@@ -194,7 +223,7 @@ static Jsi_RC SignalSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     /* Iterate through the provided signals */
     for (i = 0; i < argc; i++) {
         char *sstr;
-        int sig = find_signal_by_name(interp, sstr=Jsi_ValueArrayIndexToStr(interp,args,i, NULL));
+        int sig = find_signal_by_name(interp, sstr=Jsi_ValueArrayIndexToStr(interp,args,i, NULL)), src = 0;
 
         if (sig < 0) 
             return Jsi_LogError("unknown signal: %s", sstr);
@@ -204,18 +233,24 @@ static Jsi_RC SignalSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 case SIGNAL_ACTION_HANDLE:
                 case SIGNAL_ACTION_IGNORE:
                     if (signal_handling[sig] == SIGNAL_ACTION_DEFAULT) {
-                        saOldPtr[sig] = &saOld[sig];
-                        sigaction(sig, &sa, saOldPtr[sig]);
+                        struct sigaction old;
+                        if (!(src = sigaction(sig, &sa, &old))) {
+                            saOld[sig] = old;
+                            saOldPtr[sig] = &saOld[sig];
+                        }
                     }
                     else {
-                        sigaction(sig, &sa, 0);
+                        src = sigaction(sig, &sa, 0);
                     }
                     break;
 
                 case SIGNAL_ACTION_DEFAULT:
                     /* Restore old handler */
-                    sigaction(sig, saOldPtr[sig], NULL);
+                    if (!(src = sigaction(sig, saOldPtr[sig], NULL)))
+                        signal_clear(sig);
             }
+            if (src)
+                return Jsi_LogError("can not change signal %s: %s", sstr, strerror(errno));
             signal_handling[sig] = action;
         }
     }
@@ -263,16 +298,20 @@ static Jsi_RC SignalAlarmCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                         Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     Jsi_Value *sv = Jsi_ValueArrayIndex(interp, args, 0);
-    uint rc;
+    struct itimerval it = {}, old = {};
     Jsi_Number dtim;
     
     if (Jsi_GetNumberFromValue(interp, sv, &dtim) != JSI_OK) 
         return Jsi_LogError("bad time");
-    if (dtim<1)
-        rc = ualarm(dtim * 1e6, 0);
-    else
-        rc = alarm((uint)dtim);
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)rc);
+    if (!(dtim >= 0 && dtim <= INT_MAX))
+        return Jsi_LogError("bad time");
+    it.it_value.tv_sec = (time_t)dtim;
+    it.it_value.tv_usec = (suseconds_t)((dtim - (Jsi_Number)it.it_value.tv_sec) * 1e6);
+    if (dtim > 0 && it.it_value.tv_sec == 0 && it.it_value.tv_usec == 0)
+        it.it_value.tv_usec = 1; /* Zero would cancel. */
+    if (setitimer(ITIMER_REAL, &it, &old))
+        return Jsi_LogError("alarm failure: %s", strerror(errno));
+    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)old.it_value.tv_sec + old.it_value.tv_usec / 1e6);
     return JSI_OK;
 }
 
@@ -285,6 +324,8 @@ static Jsi_RC SignalKillCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     int rc, sigNum = SIGTERM;
     if (Jsi_GetNumberFromValue(interp, vpid, &npid) != JSI_OK) 
         return Jsi_LogError("bad pid");
+    if (!(npid >= INT_MIN && npid <= INT_MAX) || npid != (int)npid)
+        return Jsi_LogError("bad pid");
     if (sv) {
         if (sv->vt == JSI_VT_NUMBER)
             sigNum = (int)sv->d.num;
@@ -323,8 +364,10 @@ static Jsi_RC SignalCallbackCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     }
     if (sigNum < 0 || sigNum >= MAX_SIGNALS) 
         return Jsi_LogError("unknown signal: %d", sigNum);
+    if (jsi_SignalSet(interp, sigNum) != JSI_OK)
+        return JSI_ERROR;
     while (1) {
-        id = interp->eventIdx++;
+        id = ++interp->eventIdx;
         Jsi_HashEntry *hPtr = Jsi_HashEntryNew(interp->eventTbl, (void*)id, &isNew);
         if (!isNew)
             continue;
@@ -336,10 +379,12 @@ static Jsi_RC SignalCallbackCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         ev->hPtr = hPtr;
         ev->sigNum = sigNum;
         ev->evType = JSI_EVENT_SIGNAL;
+        ev->sigSeen = sigCounts[sigNum];
+        if (*sigloc & sig_to_bit(sigNum)) /* Delivered but not handled yet. */
+            ev->sigSeen--;
         Jsi_HashValueSet(hPtr, ev);
         break;
     }
-    jsi_SignalSet(interp, sigNum);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)id);
     return JSI_OK;
 }
@@ -358,8 +403,12 @@ static Jsi_CmdSpec signalCmds[] = {
 
 Jsi_RC jsi_InitSignal(Jsi_Interp *interp, int release)
 {
-    if (release) return JSI_OK;
     static int isinit = 0;
+    if (release) {
+        if (sigloc == &interp->sigmask)
+            sigloc = &sigNone;
+        return JSI_OK;
+    }
     if (!isinit) {
         sigloc = &interp->sigmask;
         isinit = 1;
-- 
2.43.0


From ab1cd503283956c3228456665ca7d333f282a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 097/112] fix: update() ignored its maxEvents option

---
 src/jsiCmds.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 0b544d5..7103b5b 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -415,7 +415,7 @@ A positive mintime will result in sleeps between event checks.")
 static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    int maxEvents = -1, hasopts = 0;
+    int hasopts = 0;
     int cnt = 0, lcnt = 0;
     Jsi_RC rc = JSI_OK;
     Jsi_Value *opts = Jsi_ValueArrayIndex(interp, args, 0);
@@ -424,6 +424,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     jsiGetTime(&start_sec, &start_ms);
     jsiUpdateData udata = {};
     udata.sleep = 1;
+    udata.maxEvents = -1;
        
     if (opts != NULL) {
         Jsi_Number dms = 0;
@@ -442,13 +443,13 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         long long diftime;
         if (!interp->EventHdlId && (interp->interpStrEvents || Jsi_DSLength(&interp->interpEvalQ)))
             jsi_AddEventHandler(interp); 
-        int ne = Jsi_EventProcess(interp, maxEvents);
+        int ne = Jsi_EventProcess(interp, udata.maxEvents>0 ? udata.maxEvents-cnt : -1);
         if (ne<0)
             break;
         cnt += ne;
         if (Jsi_InterpGone(interp))
             return JSI_ERROR;
-        if (udata.minTime==0)
+        if (udata.minTime==0 || (udata.maxEvents>0 && cnt>=udata.maxEvents))
             break;
         jsiGetTime(&cur_sec, &cur_ms);
         diftime = (cur_sec-start_sec)*1000LL + (cur_ms-start_ms);
-- 
2.43.0


From 2d0fa307fca9de66e965273e2719686525ed7fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:03 +0000
Subject: [PATCH 098/112] fix: interps that end, or are dropped, while others
 use them: waits that never ended, use after free, aliases deleted or changed
 while in use or queued, messages run after exit, info of another interp

---
 src/jsiInt.h    |   1 +
 src/jsiInterp.c | 476 +++++++++++++++++++++++++++++++++++-------------
 2 files changed, 348 insertions(+), 129 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index dd024d3..454a93a 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -895,6 +895,7 @@ typedef struct InterpStrEvent_ {
     void *acdata;
     void *acalias; /* The AliasCmd of a queued callback, or when that is gone acfunc and acargs. */
     Jsi_Value *acfunc, *acargs;
+    bool acfree; /* Free the AliasCmd. */
     void *mutex;
 } InterpStrEvent;
 
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index bbd9eaf..d6ee633 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -158,6 +158,11 @@ typedef struct InterpObj {
     Jsi_Obj *fobj;
     int objId;
     int deleting;
+    /* When the interp has its own thread, which is what deletes it. */
+    Jsi_Mutex *mutex;   /* For the following. */
+    int refCnt;         /* Held by the object and by the thread. */
+    int useCnt;         /* Methods that are using subinterp. */
+    bool ending;        /* The thread is done with its script. */
 } InterpObj;
 
 /* Global state of interps. */
@@ -174,15 +179,21 @@ typedef struct {
     InterpObj *intobj;
     Jsi_Interp *dinterp; // Dest interp.
     Jsi_Interp *subinterp;
+    bool deleted;
 } AliasCmd;
 
 
 static void interpObjErase(InterpObj *fo);
+static Jsi_Interp *interpObjHold(Jsi_Interp *interp, InterpObj *fo);
+static void interpObjUnhold(Jsi_Interp *interp, InterpObj *fo);
+static Jsi_RC interpObjUse(Jsi_CmdProc *proc, bool lock, Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr);
 static Jsi_RC interpObjFree(Jsi_Interp *interp, void *data);
 static bool interpObjIsTrue(void *data);
 static bool interpObjEqual(void *data1, void *data2);
 
 static Jsi_RC jsi_InterpConfFiles(Jsi_Interp *interp);
+static void jsi_AliasRelease(AliasCmd *ac);
 
 /* Call a command with JSON args.  Returned string by using Jsi_ValueGetDString(..., flags). */
 Jsi_RC Jsi_EvalCmdJSON(Jsi_Interp *interp, const char *cmd, const char *jsonArgs, Jsi_DString *dStr, int flags)
@@ -274,6 +285,47 @@ makestr:
 }
 
 /* Invoke command in target interp. */
+/* Append to the queue of dinterp. */
+static Jsi_RC jsi_StrEventAdd(Jsi_Interp *interp, Jsi_Interp *dinterp, InterpStrEvent *s) {
+    if (Jsi_MutexLock(interp, dinterp->QMutex) != JSI_OK)
+        return JSI_ERROR;
+    InterpStrEvent **sp = &dinterp->interpStrEvents;
+    while (*sp)
+        sp = &(*sp)->next;
+    *sp = s;
+    Jsi_MutexUnlock(interp, dinterp->QMutex);
+    return JSI_OK;
+}
+
+/* Remove all from the queue of an interp that ends: those waiting for a result get an error. */
+static void jsi_StrEventsClear(Jsi_Interp *interp) {
+    InterpStrEvent *se, *next;
+    if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
+        return;
+    se = interp->interpStrEvents;
+    interp->interpStrEvents = NULL;
+    Jsi_MutexUnlock(interp, interp->QMutex);
+    for (; se; se = next) {
+        next = se->next;
+        if (se->isExec == 1) {
+            Jsi_DSSetLength(&se->data, 0);
+            Jsi_DSAppend(&se->data, "Sub-interp gone", NULL);
+            se->rc = JSI_ERROR;
+            se->isExec = 0; /* Is freed by the waiter. */
+            continue;
+        }
+        if (se->acalias && se->acfree)
+            jsi_AliasRelease((AliasCmd *)se->acalias);
+        if (se->acfunc)
+            Jsi_DecrRefCount(interp, se->acfunc);
+        if (se->acargs)
+            Jsi_DecrRefCount(interp, se->acargs);
+        Jsi_DSFree(&se->func);
+        Jsi_DSFree(&se->data);
+        Jsi_Free(se);
+    }
+}
+
 Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -289,8 +341,10 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     bool isthrd = (interp != dinterp && interp->threadId != dinterp->threadId);
 
     if (isthrd) {
+        if (Jsi_InterpGone(dinterp))
+            return Jsi_LogError("interp gone");
         /* Post to event queue of dinterp.  Its values are for its own thread only, where refcounts change. */
-        InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
+        InterpStrEvent *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
         Jsi_DSInit(&s->func);
         Jsi_DSInit(&s->data);
         if (argc) {
@@ -306,21 +360,11 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             }
         }
         s->acalias = ac;
-        if (Jsi_MutexLock(interp, dinterp->QMutex) != JSI_OK) {
+        if (jsi_StrEventAdd(interp, dinterp, s) != JSI_OK) {
             Jsi_DSFree(&s->data);
             Jsi_Free(s);
             return JSI_ERROR;
         }
-        se = dinterp->interpStrEvents;
-        if (!se)
-            dinterp->interpStrEvents = s;
-        else {
-            while (se->next)
-                se = se->next;
-            se->next = s;
-        }
-
-        Jsi_MutexUnlock(interp, dinterp->QMutex);
         return JSI_OK;
     }
 
@@ -356,10 +400,11 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         srpPtr = &srPtr;
     }
     Jsi_RC rc = Jsi_FunctionInvoke(dinterp, ac->func, nargs, srpPtr, NULL);
-    ac->refCount--;
     if (inc)
         Jsi_DecrRefCount(dinterp, nargs);
     Jsi_DecrRefCount(dinterp, nrPtr);
+    if (--ac->refCount == 0 && ac->deleted)
+        jsi_AliasRelease(ac);
     if (dinterp != interp) {
         Jsi_MutexUnlock(interp, dinterp->Mutex);
         if (interp->subOpts.mutexUnlock && Jsi_MutexLock(interp, interp->Mutex) != JSI_OK) {
@@ -413,13 +458,14 @@ static Jsi_RC jsi_AliasCallback(Jsi_Interp *interp, InterpStrEvent *se) {
     return rc;
 }
 
-static Jsi_RC jsi_AliasFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *data) {
-    /* TODO: deal with other copies of func may be floating around (refCount). */
-    AliasCmd *ac = (AliasCmd *)data;
-    if (!ac) return JSI_ERROR;
-    SIGASSERT(ac,ALIASCMD);
-    if (ac->subinterp && ac->subinterp->subthread && ac->dinterp && Jsi_MutexLock(ac->dinterp, ac->dinterp->QMutex) == JSI_OK) {
-        InterpStrEvent *se;
+/* Free function and arguments of an alias: only in the thread they are of. */
+static void jsi_AliasRelease(AliasCmd *ac) {
+    InterpStrEvent *se;
+    if (ac->refCount) { /* Still being invoked. */
+        ac->deleted = 1;
+        return;
+    }
+    if (Jsi_MutexLock(ac->dinterp, ac->dinterp->QMutex) == JSI_OK) {
         for (se = ac->dinterp->interpStrEvents; se; se = se->next)
             if (se->acalias == ac)
                 jsi_AliasBind(ac->dinterp, se);
@@ -429,19 +475,54 @@ static Jsi_RC jsi_AliasFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *data)
         Jsi_DecrRefCount(ac->dinterp, ac->func);
     if (ac->args)
         Jsi_DecrRefCount(ac->dinterp, ac->args);
-    if (!ac->cmdVal)
-        return JSI_OK;
-    Jsi_Func *fobj = ac->cmdVal->d.obj->d.fobj->func;
-    fobj->cmdSpec->reserved[2] = NULL;
-    fobj->cmdSpec->proc = NULL;
-    if (ac->intobj && ac->intobj->subinterp) {
-        Jsi_CommandDelete(ac->intobj->subinterp, ac->cmdName);
-        //if (Jsi_Strchr(ac->cmdName, '.'))
-        //    Jsi_LogBug("alias free with X.Y dot name leaks memory: %s", ac->cmdName);
-    } else
-        Jsi_DecrRefCount(ac->subinterp, ac->cmdVal);
     _JSI_MEMCLEAR(ac);
     Jsi_Free(ac);
+}
+
+static Jsi_RC jsi_AliasFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *data) {
+    /* TODO: deal with other copies of func may be floating around (refCount). */
+    AliasCmd *ac = (AliasCmd *)data;
+    if (!ac) return JSI_ERROR;
+    SIGASSERT(ac,ALIASCMD);
+    if (ac->cmdVal) {
+        Jsi_Func *fobj = ac->cmdVal->d.obj->d.fobj->func;
+        fobj->cmdSpec->reserved[2] = NULL;
+        fobj->cmdSpec->proc = NULL;
+        if (ac->intobj && ac->intobj->subinterp) {
+            Jsi_CommandDelete(ac->intobj->subinterp, ac->cmdName);
+            //if (Jsi_Strchr(ac->cmdName, '.'))
+            //    Jsi_LogBug("alias free with X.Y dot name leaks memory: %s", ac->cmdName);
+        } else
+            Jsi_DecrRefCount(ac->subinterp, ac->cmdVal);
+        ac->cmdVal = NULL;
+    } else if (ac->subinterp && ac->subinterp->QMutex && Jsi_MutexLock(interp, ac->subinterp->QMutex) == JSI_OK) {
+        InterpStrEvent **sp = &ac->subinterp->interpStrEvents; /* May not have been created yet. */
+        while (*sp) {
+            InterpStrEvent *se = *sp;
+            if (se->acdata != ac)
+                sp = &se->next;
+            else {
+                *sp = se->next;
+                Jsi_DSFree(&se->func);
+                Jsi_DSFree(&se->data);
+                Jsi_Free(se);
+            }
+        }
+        Jsi_MutexUnlock(interp, ac->subinterp->QMutex);
+    }
+    ac->subinterp = NULL;
+    ac->intobj = NULL;
+    if (ac->dinterp->threadId == Jsi_CurrentThread())
+        jsi_AliasRelease(ac);
+    else { /* After the callbacks that are queued already. */
+        InterpStrEvent *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
+        Jsi_DSInit(&s->func);
+        Jsi_DSInit(&s->data);
+        s->acalias = ac;
+        s->acfree = 1;
+        if (jsi_StrEventAdd(interp, ac->dinterp, s) != JSI_OK)
+            Jsi_Free(s);
+    }
     return JSI_OK;
 }
 
@@ -464,7 +545,7 @@ With 1 arg returns func for given alias name.\n\
 With 2 args where arg2 == null, returns args for given alias name .\n\
 With 3 args, create/update an alias for func and args. \n\
 Delete an alias by creating it with null for both func and args.")
-static Jsi_RC InterpAliasCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+static Jsi_RC interpAlias(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     InterpObj *udf = (InterpObj *)Jsi_UserObjGetData(interp, _this, funcPtr);
@@ -487,6 +568,8 @@ static Jsi_RC InterpAliasCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         ac = (AliasCmd*)Jsi_HashValueGet(hPtr);
         if (!ac) return JSI_ERROR;
         SIGASSERT(ac,ALIASCMD);
+        if (ac->dinterp->threadId != interp->threadId)
+            return Jsi_LogError("alias is from another thread");
         Jsi_ValueDup2(interp, ret, ac->func);
         return JSI_OK;
     }
@@ -500,7 +583,10 @@ static Jsi_RC InterpAliasCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             return Jsi_LogError("arg 2: expected null to query args");
         if (!ac) return JSI_ERROR;
         SIGASSERT(ac,ALIASCMD);
-        Jsi_ValueDup2(interp, ret, ac->args); //TODO: JSON??
+        if (ac->dinterp->threadId != interp->threadId)
+            return Jsi_LogError("alias is from another thread");
+        if (ac->args)
+            Jsi_ValueDup2(interp, ret, ac->args); //TODO: JSON??
         return JSI_OK;
     }
     
@@ -524,13 +610,13 @@ static Jsi_RC InterpAliasCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_HashEntryDelete(hPtr);
         return JSI_OK;
     }
-    hPtr = Jsi_HashEntryNew(aliases, (void*)key, &isNew);
-    if (!hPtr)
-        return Jsi_LogError("create failed: %s", key);
     if (!Jsi_ValueIsFunction(interp, afunc))
         return Jsi_LogError("arg 2: expected function");
     if (Jsi_ValueIsNull(interp, aargs) == 0 && Jsi_ValueIsArray(interp, aargs) == 0)
         return Jsi_LogError("arg 3: expected array or null");
+    hPtr = Jsi_HashEntryNew(aliases, (void*)key, &isNew);
+    if (!hPtr)
+        return Jsi_LogError("create failed: %s", key);
     if (!isNew) {
         jsi_AliasFree(interp, NULL, Jsi_HashValueGet(hPtr));
     }
@@ -555,35 +641,49 @@ static Jsi_RC InterpAliasCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     if (vasync && Jsi_GetBoolFromValue(interp, vasync, &async))
         return JSI_ERROR;
         
-    if (!async) {
-        if (Jsi_MutexLock(interp, sinterp->Mutex) != JSI_OK)
-            return JSI_ERROR;
-        Jsi_RC rc = jsi_AliasCreateCmd(sinterp, key, ac);
-        Jsi_MutexUnlock(interp, sinterp->Mutex);
-        return rc;
-    }
-
-    /* Post to thread event in sub-interps queue. */
-    if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
-        return JSI_ERROR;
+    if (!async)
+        return jsi_AliasCreateCmd(sinterp, key, ac);
 
-    /* Is an async call. */
-    InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
-    // TODO: is s->data inited?
+    /* Is an async call: post to thread event in sub-interps queue. */
+    InterpStrEvent *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
+    Jsi_DSInit(&s->data);
     s->acdata = ac;
     Jsi_DSInit(&s->func);
     Jsi_DSAppend(&s->func, ac->cmdName, NULL);
-    se = sinterp->interpStrEvents;
-    if (!se)
-        sinterp->interpStrEvents = s;
-    else {
-        while (se->next)
-            se = se->next;
-        se->next = s;
+    return jsi_StrEventAdd(interp, sinterp, s);
+}
+
+static Jsi_RC interpAliasLock(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    InterpObj *udf = (InterpObj *)Jsi_UserObjGetData(interp, _this, funcPtr);
+    Jsi_Interp *sinterp = (udf ? udf->subinterp : interp );
+    bool async = 0, lock = (interp->threadId != sinterp->threadId);
+    Jsi_Value *vasync = Jsi_ValueArrayIndex(interp, args, 3);
+    if (vasync && Jsi_GetBoolFromValue(interp, vasync, &async))
+        return JSI_ERROR;
+    if (lock && async && Jsi_MutexLock(interp, sinterp->QMutex) == JSI_OK) {
+        /* Need not wait for the thread, except to change an alias. */
+        char *key = Jsi_ValueArrayIndexToStr(interp, args, 0, NULL);
+        lock = (key && Jsi_HashEntryFind(sinterp->aliasHash, (void*)key) != NULL);
+        Jsi_MutexUnlock(interp, sinterp->QMutex);
+    }
+    if (lock && Jsi_MutexLock(interp, sinterp->Mutex) != JSI_OK)
+        return JSI_ERROR;
+    Jsi_RC rc = JSI_ERROR;
+    if (Jsi_MutexLock(interp, sinterp->QMutex) == JSI_OK) {
+        rc = interpAlias(interp, args, _this, ret, funcPtr);
+        Jsi_MutexUnlock(interp, sinterp->QMutex);
     }
+    if (lock)
+        Jsi_MutexUnlock(interp, sinterp->Mutex);
+    return rc;
+}
 
-    Jsi_MutexUnlock(interp, sinterp->QMutex);
-    return JSI_OK;
+static Jsi_RC InterpAliasCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    return interpObjUse(interpAliasLock, 0, interp, args, _this, ret, funcPtr);
 }
 
 static Jsi_RC freeCodeTbl(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *ptr) {
@@ -1407,11 +1507,9 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
             Jsi_InterpDelete(interp);
             return NULL;
         }
-        if (interp->subthread)
-            jsiIntData.mainInterp->threadCnt++;
         if (interp->subthread && interp->strKeyTbl == jsiIntData.mainInterp->strKeyTbl)
             jsiIntData.mainInterp->threadShrCnt++;
-        if (jsiIntData.mainInterp->threadShrCnt)
+        if (jsiIntData.mainInterp->threadShrCnt) /* From then on, as the lock may be held. */
 #ifdef JSI_USE_MANY_STRKEY
             jsiIntData.mainInterp->strKeyTbl->v.tree->opts.lockTreeProc = KeyLockerTree;
 #else
@@ -1878,10 +1976,25 @@ void jsi_DebugDumpValues(Jsi_Interp *interp)
 }
 #endif
 
+/* Count of running threads that were started by interp or its sub-interps, after adding num. */
+static int jsi_ThreadCount(Jsi_Interp *interp, int num)
+{
+    Jsi_Interp *ip, *minterp = jsiIntData.mainInterp;
+    if (!minterp || !minterp->QMutex || Jsi_MutexLock(NULL, minterp->QMutex) != JSI_OK)
+        return 0;
+    for (ip = interp; ip && num; ip = ip->parent)
+        ip->threadCnt += num;
+    int cnt = interp->threadCnt;
+    Jsi_MutexUnlock(NULL, minterp->QMutex);
+    return cnt;
+}
+
 static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
 {
     SIGASSERT(interp,INTERP);
     bool isMainInt = (interp == jsiIntData.mainInterp);
+    if (jsi_ThreadCount(interp, 0)) /* In use by threads, which main ends with the process. */
+        return JSI_OK;
     int mainFlag = (isMainInt ? 2 : 1);
     if (isMainInt)
         DeleteAllInterps();
@@ -1924,16 +2037,6 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
     if (isMainInt)
         Jsi_HashDeleteIF(interp->lexkeyTbl);
     Jsi_HashDeleteIF(interp->protoTbl);
-    if (interp->subthread)
-        jsiIntData.mainInterp->threadCnt--;
-    if (interp->subthread && interp->strKeyTbl == jsiIntData.mainInterp->strKeyTbl)
-        jsiIntData.mainInterp->threadShrCnt--;
-    if (!jsiIntData.mainInterp->threadShrCnt)
-#ifdef JSI_USE_MANY_STRKEY
-        jsiIntData.mainInterp->strKeyTbl->v.tree->opts.lockTreeProc = NULL;
-#else
-        jsiIntData.mainInterp->strKeyTbl->v.hash->opts.lockHashProc = NULL;
-#endif
     //Jsi_ValueMakeUndef(interp, &interp->ret);
     Jsi_HashDeleteIF(interp->thisTbl);
     Jsi_HashDeleteIF(interp->varTbl);
@@ -1963,17 +2066,8 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
 #if JSI__MYSQL==1
         Jsi_InitMySql(interp, mainFlag);
 #endif
-    while (interp->interpStrEvents) {
-        InterpStrEvent *se = interp->interpStrEvents;
-        interp->interpStrEvents = se->next;
-        if (se->acfunc)
-            Jsi_DecrRefCount(interp, se->acfunc);
-        if (se->acargs)
-            Jsi_DecrRefCount(interp, se->acargs);
-        if (se->acdata)
-            Jsi_Free(se->acdata);
-        Jsi_Free(se);
-    }
+    if (interp->QMutex)
+        jsi_StrEventsClear(interp);
 
     if (interp->Mutex)
         Jsi_MutexDelete(interp, interp->Mutex);
@@ -2116,17 +2210,80 @@ static void interpObjErase(InterpObj *fo)
     fo->subinterp = NULL;
 }
 
+static void interpObjUnref(InterpObj *fo)
+{
+    if (Jsi_MutexLock(NULL, fo->mutex) != JSI_OK)
+        return;
+    int cnt = --fo->refCnt;
+    Jsi_MutexUnlock(NULL, fo->mutex);
+    if (cnt)
+        return;
+    Jsi_MutexDelete(NULL, fo->mutex);
+    Jsi_Free(fo);
+}
+
+/* The interp of the object, or NULL if that is gone. */
+static Jsi_Interp *interpObjHold(Jsi_Interp *interp, InterpObj *fo)
+{
+    SIGASSERT(fo,INTERPOBJ);
+    if (!fo->mutex)
+        return fo->subinterp;
+    Jsi_Interp *sinterp = NULL;
+    if (Jsi_MutexLock(interp, fo->mutex) != JSI_OK)
+        return NULL;
+    if (!fo->ending) {
+        sinterp = fo->subinterp;
+        fo->useCnt++;
+    }
+    Jsi_MutexUnlock(interp, fo->mutex);
+    return sinterp;
+}
+
+static void interpObjUnhold(Jsi_Interp *interp, InterpObj *fo)
+{
+    if (!fo->mutex || Jsi_MutexLock(interp, fo->mutex) != JSI_OK)
+        return;
+    fo->useCnt--;
+    Jsi_MutexUnlock(interp, fo->mutex);
+}
+
 static Jsi_RC interpObjFree(Jsi_Interp *interp, void *data)
 {
     InterpObj *fo = (InterpObj *)data;
     SIGASSERT(fo,INTERPOBJ);
     if (fo->deleting) return JSI_OK;
     fo->deleting = 1;
-    interpObjErase(fo);
-    Jsi_Free(fo);
+    if (fo->mutex)
+        interpObjUnref(fo);
+    else {
+        interpObjErase(fo);
+        Jsi_Free(fo);
+    }
     return JSI_OK;
 }
 
+/* Call proc for the interp of the object, which its thread does not delete meanwhile.
+ * With lock, the thread also does not run meanwhile. */
+static Jsi_RC interpObjUse(Jsi_CmdProc *proc, bool lock, Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    InterpObj *fo = (InterpObj *)Jsi_UserObjGetData(interp, _this, funcPtr);
+    if (!fo)
+        return (*proc)(interp, args, _this, ret, funcPtr);
+    Jsi_Interp *sinterp = interpObjHold(interp, fo);
+    if (!sinterp)
+        return Jsi_LogError("Sub-interp gone");
+    Jsi_RC rc = JSI_ERROR;
+    if (!fo->mutex || !lock)
+        rc = (*proc)(interp, args, _this, ret, funcPtr);
+    else if (Jsi_MutexLock(interp, sinterp->Mutex) == JSI_OK) {
+        rc = (*proc)(interp, args, _this, ret, funcPtr);
+        Jsi_MutexUnlock(interp, sinterp->Mutex);
+    }
+    interpObjUnhold(interp, fo);
+    return rc;
+}
+
 static bool interpObjIsTrue(void *data)
 {
     InterpObj *fo = (InterpObj *)data;
@@ -2316,28 +2473,43 @@ Jsi_Interp *jsi_DoExit(Jsi_Interp *interp, int rc)
 #define FN_interpeval JSI_INFO("\
 When the 'async' option is used on a threaded interp, the script is queued as an Event.")
 
-static Jsi_RC InterpEvalCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+static Jsi_RC interpEval(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     return InterpEvalCmd_(interp, args, _this, ret, funcPtr, 0);
 }
+static Jsi_RC InterpEvalCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    return interpObjUse(interpEval, 0, interp, args, _this, ret, funcPtr);
+}
 
 
 #define FN_interpuplevel JSI_INFO("\
 The level argument is as returned by Info.level().  Not supported with threads.")
-static Jsi_RC InterpUplevelCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+static Jsi_RC interpUplevel(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     return InterpEvalCmd_(interp, args, _this, ret, funcPtr, 1);
 }
+static Jsi_RC InterpUplevelCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    return interpObjUse(interpUplevel, 0, interp, args, _this, ret, funcPtr);
+}
 
-static Jsi_RC InterpSourceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+static Jsi_RC interpSource(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     return InterpEvalCmd_(interp, args, _this, ret, funcPtr, 2);
 }
+static Jsi_RC InterpSourceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    return interpObjUse(interpSource, 0, interp, args, _this, ret, funcPtr);
+}
 
-static Jsi_RC InterpValueCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+static Jsi_RC interpValue(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     InterpObj *udf = (InterpObj *)Jsi_UserObjGetData(interp, _this, funcPtr);
@@ -2384,37 +2556,20 @@ static Jsi_RC InterpValueCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     return JSI_OK;
 }
 
-static Jsi_RC InterpInfoCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+static Jsi_RC InterpValueCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    InterpObj *udf = (InterpObj *)Jsi_UserObjGetData(interp, _this, funcPtr);
-    Jsi_Interp *subinterp = interp;
-    if (udf) {
-        if (!udf->subinterp)
-            return Jsi_LogError("Sub-interp gone");
-        subinterp = udf->subinterp;
-    }
-    return jsi_InterpInfo(subinterp, args, _this, ret, funcPtr);
+    return interpObjUse(interpValue, 0, interp, args, _this, ret, funcPtr);
 }
 
-Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+static Jsi_RC interpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    Jsi_Interp *sinterp = interp;
+    InterpObj *udf = (InterpObj *)Jsi_UserObjGetData(interp, _this, funcPtr);
+    Jsi_Interp *sinterp = (udf ? udf->subinterp : interp);
     Jsi_DString dStr = {}, cStr = {};
     char tbuf[1024];
-    Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 0);
     tbuf[0] = 0;
-    if (v) {
-        InterpObj *udf = NULL;
-        if (v && v->vt == JSI_VT_OBJECT && v->d.obj->ot == JSI_OT_USEROBJ)
-            udf = (InterpObj *)v->d.obj->d.uobj->data;
-        if (udf && udf->subinterp) {
-            SIGASSERT(udf, INTERPOBJ);
-            sinterp = udf->subinterp;
-        } else
-            return Jsi_LogError("unknown interp");
-    }
     if (sinterp->subthread)
         snprintf(tbuf, sizeof(tbuf), ", thread:{errorCnt:%u, evalCnt:%u, msgCnt:%u }",
             sinterp->threadErrCnt, sinterp->threadEvalCnt, sinterp->threadMsgCnt );
@@ -2440,6 +2595,24 @@ Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     return rc;
 }
 
+static Jsi_RC InterpInfoCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    return interpObjUse(interpInfo, 1, interp, args, _this, ret, funcPtr);
+}
+
+Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 0);
+    if (!v)
+        return interpInfo(interp, NULL, NULL, ret, NULL);
+    if (v->vt != JSI_VT_OBJECT || v->d.obj->ot != JSI_OT_USEROBJ
+        || v->d.obj->d.uobj->reg->freefun != interpObjFree || !interpObjIsTrue(v->d.obj->d.uobj->data))
+        return Jsi_LogError("unknown interp");
+    return interpObjUse(interpInfo, 1, interp, NULL, v, ret, NULL);
+}
+
 static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
 {
     Jsi_RC rc = JSI_OK;
@@ -2461,6 +2634,8 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
         else if (se->acdata) {
             jsi_AliasCreateCmd(interp, Jsi_DSValue(&se->func), (AliasCmd*)se->acdata);
         }
+        else if (se->acfree)
+            jsi_AliasRelease((AliasCmd*)se->acalias);
         else if (se->acalias || se->acfunc) {
             if (se->acalias)
                 jsi_AliasBind(interp, se);
@@ -2508,6 +2683,8 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
             Jsi_DSFree(&se->data);
             Jsi_Free(se);
         }
+        if (Jsi_InterpGone(interp)) /* Did exit. */
+            break;
         if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
             return JSI_ERROR;
         se = interp->interpStrEvents;
@@ -2557,7 +2734,7 @@ Unless an 'async' parameter is true call is acyncronous.\n\
 Otherwise waits until the sub-interp is idle, \
 to make call and return result.")
 
-static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+static Jsi_RC interpCall(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     InterpObj *udf = (InterpObj *)Jsi_UserObjGetData(interp, _this, funcPtr);
@@ -2663,6 +2840,12 @@ static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     return JSI_OK;
 }
 
+static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    return interpObjUse(interpCall, 0, interp, args, _this, ret, funcPtr);
+}
+
 Jsi_RC Jsi_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi_Value **ret)
 {
 #if JSI__ZVFS==1
@@ -2789,6 +2972,31 @@ dochk:
 #define JSITHREADRET void*
 #endif
 
+/* Delete the interp of this thread, after telling all that wait for it. */
+static void interpThreadEnd(InterpObj *udf)
+{
+    Jsi_Interp *interp = udf->subinterp, *parent = udf->parent;
+    if (Jsi_MutexLock(interp, interp->Mutex) != JSI_OK)
+        return;
+    while (1) {
+        int cnt = 0;
+        if (Jsi_MutexLock(interp, udf->mutex) == JSI_OK) {
+            udf->ending = 1;
+            if (!(cnt = udf->useCnt))
+                udf->subinterp = NULL;
+            Jsi_MutexUnlock(interp, udf->mutex);
+        }
+        jsi_StrEventsClear(interp);
+        if (!cnt)
+            break;
+        Jsi_Sleep(interp, 1);
+    }
+    Jsi_MutexUnlock(interp, interp->Mutex);
+    Jsi_InterpDelete(interp);
+    interpObjUnref(udf);
+    jsi_ThreadCount(parent, -1);
+}
+
 static JSITHREADRET NewInterpThread(void* iPtr)
 {
     int rc = JSI_OK;
@@ -2806,15 +3014,8 @@ static JSITHREADRET NewInterpThread(void* iPtr)
     if (rc != JSI_OK) {
         Jsi_LogError("eval failure");
         interp->threadErrCnt++;
-        if (Jsi_MutexLock(interp, interp->Mutex) != JSI_OK)
-#ifdef __WIN32
-            return;
-#else
-            return NULL;
-#endif
-        Jsi_MutexUnlock(interp, interp->Mutex);
     }
-    interpObjErase(udf);
+    interpThreadEnd(udf);
 #ifndef __WIN32
     /* TODO: should we wait/notify parent??? */
     pthread_detach(pthread_self());
@@ -2886,17 +3087,16 @@ static Jsi_RC InterpConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
 #ifndef JSI_OMIT_THREADS
     if (sinterp->subthread) {
         sinterp->threadId = NULL; /* Is not in our thread, though its own did not yet start. */
+        cmdPtr->mutex = Jsi_MutexNew(interp, -1, 0);
+        cmdPtr->refCnt = 2;
+        jsi_ThreadCount(interp, 1);
 #ifdef __WIN32
-        if (!_beginthread( NewInterpThread, 0, cmdPtr )) {
-            Jsi_LogError("thread create failed");
-            goto bail;
-        }
+        if (!_beginthread( NewInterpThread, 0, cmdPtr ))
+            goto nothread;
 #else
         pthread_t nthread;
-        if (pthread_create(&nthread, NULL, NewInterpThread, cmdPtr) != 0) {
-            Jsi_LogError("thread create failed");
-            goto bail;
-        }
+        if (pthread_create(&nthread, NULL, NewInterpThread, cmdPtr) != 0)
+            goto nothread;
 #endif //__WIN32
 #else
     if (0) {
@@ -2925,6 +3125,18 @@ static Jsi_RC InterpConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     }
     return JSI_OK;
 
+#ifndef JSI_OMIT_THREADS
+nothread:
+    Jsi_LogError("thread create failed");
+    sinterp->threadId = interp->threadId;
+    jsi_ThreadCount(interp, -1);
+    cmdPtr->ending = 1;
+    interpObjErase(cmdPtr);
+    interpObjUnref(cmdPtr);
+    Jsi_ValueMakeUndef(interp, ret);
+    return JSI_ERROR;
+#endif
+
 bail:
     interpObjErase(cmdPtr);
     Jsi_ValueMakeUndef(interp, ret);
@@ -2987,7 +3199,7 @@ static Jsi_RC jsi_InterpConfFiles(Jsi_Interp *interp)
     return rc;
 }
 
-static Jsi_RC InterpConfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+static Jsi_RC interpConf(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     InterpObj *udf = (typeof(udf))Jsi_UserObjGetData(interp, _this, funcPtr);
@@ -3018,6 +3230,12 @@ static Jsi_RC InterpConfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     return rc;
 }
 
+static Jsi_RC InterpConfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    return interpObjUse(interpConf, 1, interp, args, _this, ret, funcPtr);
+}
+
 Jsi_Value *Jsi_ReturnValue(Jsi_Interp *interp) {
     return interp->retValue;
 }
-- 
2.43.0


From da4744ea44e9fdfb38e6c81a256c6bfee3d86d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:09 +0000
Subject: [PATCH 099/112] fix: realpath of a missing file under "/d/.." named a
 file in /d

---
 src/jsiFilesys.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 330490d..f164bf6 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1385,7 +1385,7 @@ static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
         } else if (!Jsi_Strcmp(argv[i],"..")) {
             char *pcp = Jsi_DSValue(&dStr), *lcp = pcp;
             pcp = Jsi_Strrchr(pcp, '/');
-            if (pcp && pcp != Jsi_DSValue(&dStr)) {
+            if (pcp) {
                 *pcp = 0;
                 Jsi_DSSetLength(&dStr, Jsi_Strlen(lcp));
             }
@@ -1395,6 +1395,8 @@ static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
         }
     }
     Jsi_DSFree(&sStr);
+    if (!Jsi_DSLength(&dStr)) // Was absolute, and goes up to the root.
+        Jsi_DSAppend(&dStr, "/", NULL);
     Jsi_Strcpy(path, Jsi_DSValue(&dStr));
     Jsi_DSFree(&dStr);
     Jsi_DSFree(&eStr);
-- 
2.43.0


From bf4c5c017e0df63b27dc592df0c6708f34ad709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:09 +0000
Subject: [PATCH 100/112] fix: loading code: once skipped files that never ran,
 exists hid files that could not be read, stale values and errors from earlier
 files, truncated and comment-ended imports, lost autoloads, unchecked package
 versions

---
 src/jsiCmds.c | 14 +++++++-------
 src/jsiEval.c | 49 +++++++++++++++++++++++++++++++++----------------
 src/jsiInt.h  |  1 +
 3 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 7103b5b..380cedb 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -152,6 +152,7 @@ static Jsi_RC SysSourceCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     interp->includeDepth++;
     int oisi = interp->isMain;
     interp->isMain = data.isMain;
+    Jsi_ValueMakeUndef(interp, &interp->retValue); // Not the value of an earlier file, if this one is skipped.
     const char *sop = (data.once?" <ONCE>":"");
     if (!Jsi_ValueIsArray(interp, va)) {
         v = va;
@@ -795,7 +796,7 @@ done:
                 if (ptr)
                     if (fval) {
                         char *fval2 = Jsi_Realpath(interp, fval, NULL);
-                        ptr->loadFile = Jsi_KeyAdd(interp, fval2);
+                        ptr->loadFile = Jsi_KeyAdd(interp, fval2?fval2:Jsi_ValueString(interp, fval, NULL));
                         if (interp->parent && ptr->initProc) {
                             if (interp->debugOpts.pkgTrace)
                                 Jsi_Printf(interp, jsi_Stderr , "Package-Trace: load from topLevel: %s\n", name);
@@ -1006,13 +1007,12 @@ static Jsi_RC SysRequireCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     if (ver < 0)
         return JSI_ERROR;
     Jsi_RC rc = JSI_OK;
-    if (argc==2) {
-        if (ver < n)
-            rc = Jsi_LogType("package '%s' downlevel: %." JSI_VERFMT_LEN JSI_NUMGFMT " < %." JSI_VERFMT_LEN JSI_NUMGFMT, name, ver, n);
-        if (rc != JSI_OK)
-            return rc;
+    if (ver < n)
+        rc = Jsi_LogType("package '%s' downlevel: %." JSI_VERFMT_LEN JSI_NUMGFMT " < %." JSI_VERFMT_LEN JSI_NUMGFMT, name, ver, n);
+    if (rc != JSI_OK)
+        return rc;
+    if (argc==2)
         return jsi_PkgDumpInfo(interp, name, ret, n);
-    }
     Jsi_Value *opts = Jsi_ValueArrayIndex(interp, args, 2);
        
     if (opts != NULL) {
diff --git a/src/jsiEval.c b/src/jsiEval.c
index 344579f..7af1fc2 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1,6 +1,7 @@
 /* The interpreter evaluation engine for jsi. */
 #ifndef JSI_LITE_ONLY
 #ifndef JSI_AMALGAMATION
+#include <errno.h>
 #include "jsiInt.h"
 #endif
 #include <math.h>
@@ -71,8 +72,10 @@ static Jsi_RC jsiEvalOp(Jsi_Interp* interp, jsi_Pstate *ps, char *program,
         newps->eval_flag = 1;
         interp->ps = newps;
         r = jsi_evalcode(newps, NULL, newps->opcodes, scope, currentScope, _this, ret, interp->framePtr->filePtr);
-        if (r) {
+        if (r && newps != ps) {
             Jsi_ValueDup2(interp, &ps->last_exception, newps->last_exception);
+            if (newps->last_exception) // Parse is cached: leave nothing for the next eval to catch.
+                Jsi_ValueReset(interp, &newps->last_exception);
         }
         newps->eval_flag = oef;
         interp->ps = ps;
@@ -622,8 +625,10 @@ Jsi_Value *jsi_LoadFunction(Jsi_Interp *interp, const char *str, Jsi_Value *tret
             ifn = interp->autoFiles->d.obj->arrCnt;
         }
         for (i=0; i<ifn; i++) {  
-            if (Jsi_EvalFile(interp, ifs[i], 0) != JSI_OK)
-                break;
+            if (Jsi_EvalFile(interp, ifs[i], 0) != JSI_OK) {
+                interp->autoLoaded = 0; // Try again on next lookup.
+                return tret;
+            }
             interp->autoLoaded++;
         }
     }
@@ -2570,9 +2575,13 @@ Jsi_RC jsi_evalStrFile(Jsi_Interp* interp, Jsi_Value *path, const char *str, int
                 tinput = input = Jsi_Open(interp, npath, (exists?"-r":"r"));
                 interp->isSafe = osafe;
                 if (!input) {
-                    if (exists)
-                        rc = JSI_OK;
-                    //Jsi_LogError("Can not open '%s'", fname);
+                    if (exists) {
+                        errno = 0;
+                        if (Jsi_Access(interp, npath, F_OK) != 0 && (errno == 0 || errno == ENOENT || errno == ENOTDIR))
+                            rc = JSI_OK;
+                        else
+                            Jsi_LogError("Can not open '%s'", fname);
+                    }
                     goto bail;
                 }
             }
@@ -2585,12 +2594,12 @@ Jsi_RC jsi_evalStrFile(Jsi_Interp* interp, Jsi_Value *path, const char *str, int
             Jsi_HashEntry *hPtr;
             hPtr = Jsi_HashEntryNew(interp->fileTbl, fname, &isNew);
             if (isNew == 0 && hPtr) {
-                if ((flags & JSI_EVAL_ONCE)) {
+                fi = (jsi_FileInfo *)Jsi_HashValueGet(hPtr);
+                if (!fi) goto bail;
+                if ((flags & JSI_EVAL_ONCE) && fi->loaded) {
                     rc = JSI_OK;
                     goto bail;
                 }
-                fi = (jsi_FileInfo *)Jsi_HashValueGet(hPtr);
-                if (!fi) goto bail;
                 interp->curDir = fi->dirName;
                 
             } else {
@@ -2645,14 +2654,16 @@ Jsi_RC jsi_evalStrFile(Jsi_Interp* interp, Jsi_Value *path, const char *str, int
 cont:
                 Jsi_DSAppend(&dStr, buf,  NULL);
             }
-            if (cnt>=MAX_LOOP_COUNT)
-                Jsi_LogError("source file too large");
-            else if (Jsi_Eof(interp, input) == 0) { // Do not evaluate a truncated script.
+            if (cnt>=MAX_LOOP_COUNT) {
+                rc = Jsi_LogError("source file too large");
+                goto bail;
+            }
+            if (Jsi_Eof(interp, input) == 0) { // Do not evaluate a truncated script.
                 rc = Jsi_LogError("failed read: %s", fname);
                 goto bail;
             }
             if (flags&JSI_EVAL_IMPORT)
-                Jsi_DSAppend(&dStr, "})(); ", NULL);
+                Jsi_DSAppend(&dStr, "\n})(); ", NULL); // The last line may be a comment.
             str = Jsi_DSValue(&dStr);
 
         }
@@ -2679,6 +2690,8 @@ cont:
     if (!interp->noEval && !(flags&JSI_EVAL_NOEVAL)) {
         Jsi_ValueMakeUndef(interp, &interp->retValue);
         interp->ps = ps;
+        if (!ostr)
+            fi->loaded = 1;
         Jsi_Value *retValue = interp->retValue;
         if (level <= 0)
             rc = jsi_evalcode(ps, NULL, ps->opcodes, interp->gsc, interp->csc, interp->csc, &retValue, fi);
@@ -2692,12 +2705,15 @@ cont:
                 rc = jsi_evalcode(ps, NULL, ps->opcodes, fptr->ingsc, fptr->incsc, fptr->inthis, &retValue, fi);
         }
         //interp->curFile = curFile;
-        if (rc == JSI_ERROR && ignore)
+        if (rc == JSI_ERROR && ignore) {
             rc = JSI_OK;
-        else if (ps->last_exception || oldps->last_exception)
+            Jsi_ValueMakeUndef(interp, &interp->retValue);
+            interp->errMsgBuf[0] = 0; // Not to be taken for the text of a later error.
+        } else if (ps != oldps && (ps->last_exception || oldps->last_exception))
             Jsi_ValueDup2(interp, &oldps->last_exception, ps->last_exception); //TODO: dup even if null?
+        if (ps != oldps && ps->last_exception) // Parse is cached: leave nothing for the next eval to catch.
+            Jsi_ValueReset(interp, &ps->last_exception);
         interp->ps = oldps;
-        interp->evalFlags = oldef;
         if (rc == JSI_OK && ps && !ostr)
             fi->str = ps->lexer->d.str;
     }
@@ -2706,6 +2722,7 @@ bail:
     interp->curDir = oldDir;
     interp->framePtr->Sp = oldSp;
     interp->isMain = oisi;
+    interp->evalFlags = oldef;
     if (path != npath)
         Jsi_DecrRefCount(interp, npath);
     Jsi_DSFree(&dStr);
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 454a93a..f276bb1 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -347,6 +347,7 @@ typedef struct {
     char *dirName;  /* Directory name. */
     const char *str; /* File data. */
     int useCnt;
+    bool loaded;    /* Has been evaluated (for source once). */
     uint log;
     struct jsi_PkgInfo* pkg;
 } jsi_FileInfo;
-- 
2.43.0


From d16d711f57d6835e6ba4de750e695bc90379b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:42 +0000
Subject: [PATCH 101/112] fix: return and errors in try, catch and finally:
 return skipped finally, an error pending during finally was lost or replaced
 by another, errors dropped earlier or of timers were taken for a later one

---
 src/jsiCmds.c  |  19 ++++---
 src/jsiEval.c  | 131 ++++++++++++++++++++++++++++++++++++-------------
 src/jsiInt.h   |   6 ++-
 src/jsiUtils.c |   3 +-
 4 files changed, 114 insertions(+), 45 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 380cedb..265217f 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -310,6 +310,9 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             assert(0);
         }
         evPtr->busy = 1;
+        jsi_Frame *fp = interp->framePtr;
+        int tryDepth = fp->tryDepth;
+        fp->tryDepth = 0;   // Errors are reported here, as no try can catch them.
         if (evPtr->handler) {
             rc = evPtr->handler(interp, evPtr->data);
         } else {
@@ -322,20 +325,20 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             rc = Jsi_FunctionInvoke(interp, evPtr->funcVal, vpargs, &nret, NULL);
         }
         evPtr->busy = 0;
+        if (rc != JSI_OK && !interp->deleting && !interp->exited)
+            Jsi_LogError("event function call failure");
+        fp->tryDepth = tryDepth;
         if (interp->deleting) {
             if (!evPtr->hPtr)
                 Jsi_EventFree(interp, evPtr);
             cnt = -1;
             goto bail;
         }
-        if (rc != JSI_OK) {
-            if (interp->exited) {
-                if (!evPtr->hPtr)
-                    Jsi_EventFree(interp, evPtr);
-                cnt = rc;
-                goto bail;
-            }
-            Jsi_LogError("event function call failure");
+        if (rc != JSI_OK && interp->exited) {
+            if (!evPtr->hPtr)
+                Jsi_EventFree(interp, evPtr);
+            cnt = rc;
+            goto bail;
         }
         if (evPtr->once) {
             Jsi_EventFree(interp, evPtr);
diff --git a/src/jsiEval.c b/src/jsiEval.c
index 7af1fc2..00025ab 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -309,21 +309,35 @@ static const char *jsiEvalPrint(Jsi_Value *v)
     }
     return buf;
 }
+/* Keep in tryDepth the number of try blocks, in this frame and its callers, that will catch an error. */
+static void jsiTryLeave(Jsi_Interp* interp, jsi_TryList *t)
+{
+    if (t->catches) {
+        t->catches = 0;
+        interp->framePtr->tryDepth--;
+    }
+}
+
 /* destroy top of trylist */
 #define pop_try(head) jsiPopTry(interp, &head)
 static void jsiPopTry(Jsi_Interp* interp, jsi_TryList **head)
 {
-    interp->framePtr->tryDepth--;
-    jsi_TryList *t = (*head)->next;
-    Jsi_Free(*head);
-    *head = t;
-    interp->tryList = t;
+    jsi_TryList *t = *head;
+    jsiTryLeave(interp, t);
+    if (t->type == jsi_TL_WITH)
+        interp->framePtr->withDepth--;
+    if (t->pend)
+        Jsi_DecrRefCount(interp, t->pend);
+    *head = t->next;
+    Jsi_Free(t);
 }
 
 static void jsiPushTry(Jsi_Interp* interp, jsi_TryList **head, jsi_TryList *n)
 {
-    interp->tryList = n;
-    interp->framePtr->tryDepth++;
+    if (n->catches)
+        interp->framePtr->tryDepth++;
+    if (n->type == jsi_TL_WITH)
+        interp->framePtr->withDepth++;
     n->next = *head;
     *head = n;
 }
@@ -348,6 +362,42 @@ static void jsiRestoreScope(Jsi_Interp* interp, jsi_Pstate *ps, jsi_TryList* try
     *context_id = ps->_context_id++; 
 }
 
+/* Get the current exception: the value of a throw, or the text of an error. */
+static Jsi_Value *jsiTakeException(Jsi_Interp *interp, jsi_Pstate *ps) {
+    Jsi_Value *excpt = Jsi_ValueNew1(interp);
+    if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
+        //TODO: DONE??? fix test262 crash in freeValueTbl@jsiInterp.c:565 for last_exception which is
+        // freed in jsi_PstateFree@jsiPstate.c:251. Is this code the problem?
+        Jsi_Value *ple = ps->last_exception;
+        Jsi_ValueCopy(interp, excpt, ple);
+        Jsi_ValueReset(interp, &ps->last_exception);
+    } else {
+        Jsi_ValueMakeStringDup(interp, &excpt, interp->errMsgBuf);
+    }
+    interp->errMsgBuf[0] = 0;
+    return excpt;
+}
+
+/* For return: go to the finally block of the innermost try that is left, and keep the value until its end. */
+static bool jsiTryReturn(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, jsi_TryList **tlp,
+     jsi_ScopeChain **scope, Jsi_Value **currentScope, int *context_id, Jsi_Value *vret) {
+    jsi_TryList *t;
+    while ((t = *tlp)) {
+        if (t->type == jsi_TL_TRY && *ipp >= t->d.td.tstart && *ipp < t->d.td.cend) {
+            jsiTryLeave(interp, t);
+            t->d.td.last_op = jsi_LOP_RET;
+            t->pend = Jsi_ValueNew1(interp);
+            Jsi_ValueMove(interp, t->pend, vret);
+            *ipp = t->d.td.fstart - 1;
+            return 1;
+        }
+        if (t->type != jsi_TL_TRY || t->inCatch)
+            jsiRestoreScope(interp, ps, t, scope, currentScope, context_id);
+        jsiPopTry(interp, tlp);
+    }
+    return 0;
+}
+
 static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, jsi_TryList **tlp,
      jsi_ScopeChain **scope, Jsi_Value **currentScope, int *context_id, Jsi_Value *top, const char *nam) {
     if (Jsi_InterpGone(interp))
@@ -357,6 +407,10 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
     const char *str;
     while (1) {
         if (trylist == NULL) {
+            if (!Jsi_Strcmp(nam, "finally") && ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
+                nam = "throw";
+                top = ps->last_exception;
+            }
             str = (top?Jsi_ValueString(interp, top, NULL):"");
             if (str) {
                 if (!Jsi_Strcmp(nam, "help"))
@@ -380,12 +434,8 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
                 break;
             } else if (*ipp >= trylist->d.td.cstart && *ipp < trylist->d.td.cend) {
                 trylist->d.td.last_op = jsi_LOP_THROW; // in "catch"
-                if ((*ipp)->op == OP_THROW && interp->framePtr->tryDepth==1) {
-                    rc = JSI_ERROR; // TODO: fix nested exception error msg propagation
-                    if (ps->last_exception &&
-                        ((str = Jsi_ValueString(interp, ps->last_exception, NULL))))
-                        Jsi_LogError("%s near \"%s\"", nam, str);
-                }
+                trylist->pendMsg = (!ps->last_exception || ps->last_exception->vt == JSI_VT_UNDEF);
+                trylist->pend = jsiTakeException(interp, ps); // Until the end of "finally".
                 *ipp = trylist->d.td.fstart - 1;
                 break;
             } else if (*ipp >= trylist->d.td.fstart && *ipp < trylist->d.td.fend) {
@@ -857,6 +907,11 @@ static Jsi_RC jsiEvalFunction(jsi_Pstate *ps, jsi_OpCode *ip, int discard) {
         _jsi_TOP = spretPtr;
     }
     Jsi_DecrRefCount(interp, args);
+    if (rc == JSI_OK) { // An error dropped within the call is not to be taken for a later one.
+        interp->errMsgBuf[0] = 0;
+        if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF)
+            Jsi_ValueReset(interp, &ps->last_exception);
+    }
     return rc;
 }
 
@@ -1798,6 +1853,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                         if (tojmp >= trylist->d.td.tstart && tojmp < trylist->d.td.fend) break;
                         
                         if (ip >= trylist->d.td.tstart && ip < trylist->d.td.cend) {
+                            jsiTryLeave(interp, trylist);
                             trylist->d.td.last_op = jsi_LOP_JMP;
                             trylist->d.td.ld.tojmp = tojmp;
                             
@@ -1869,15 +1925,13 @@ undef_eval:
                     }
                 }
                 jsiPop(interp, (uintptr_t)ip->data);
-                interp->didReturn = 1;
                 if (trylist) {
-                    while (trylist) {
-                        if (trylist->type == jsi_TL_TRY && trylist->inCatch)
-                            JSI_RESTORE_SCOPE();
-                        pop_try(trylist);
-                    }
+                    if (jsiTryReturn(interp, ps, &ip, &trylist, &scope, &currentScope, &context_id, vret))
+                        break;
+                    interp->didReturn = 1;
                     goto done;
                 }
+                interp->didReturn = 1;
                 ip = end;
                 break;
             }
@@ -1950,6 +2004,7 @@ undef_eval:
                 n->d.td.tsp = fp->Sp;
                 n->inCatch=0;
                 n->inFinal=0;
+                n->catches = (n->d.td.cstart->data != NULL);
 
                 jsiPushTry(interp, &trylist, n);
                 break;
@@ -1958,6 +2013,7 @@ undef_eval:
                 if (trylist == NULL || trylist->type != jsi_TL_TRY)
                     Jsi_LogBug("Unexpected ETRY opcode??");
 
+                jsiTryLeave(interp, trylist);
                 ip = trylist->d.td.fstart - 1;
                 break;
             }
@@ -1966,6 +2022,7 @@ undef_eval:
                 if (trylist == NULL || trylist->type != jsi_TL_TRY) 
                     Jsi_LogBug("Unexpected SCATCH opcode??");
 
+                jsiTryLeave(interp, trylist);
                 if (!ip->data) {
                     throwStr = "catch";
                     rc = JSI_ERROR;
@@ -1977,17 +2034,7 @@ undef_eval:
                     fp->ingsc = scope;  //TODO: changing frame
                     fp->incsc = currentScope;
                     Jsi_IncrRefCount(interp, currentScope);
-                    Jsi_Value *excpt = Jsi_ValueNew1(interp);
-                    if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
-                        //TODO: DONE??? fix test262 crash in freeValueTbl@jsiInterp.c:565 for last_exception which is
-                        // freed in jsi_PstateFree@jsiPstate.c:251. Is this code the problem?
-                        Jsi_Value *ple = ps->last_exception;
-                        Jsi_ValueCopy(interp, excpt, ple);
-                        Jsi_ValueReset(interp, &ps->last_exception);
-                    } else {
-                        Jsi_ValueMakeStringDup(interp, &excpt, interp->errMsgBuf);
-                    }
-                    interp->errMsgBuf[0] = 0;
+                    Jsi_Value *excpt = jsiTakeException(interp, ps);
                     Jsi_ValueInsert(interp, currentScope, (char*)ip->data, excpt, JSI_OM_DONTENUM);
                     Jsi_DecrRefCount(interp, excpt);
                     context_id = ps->_context_id++;
@@ -2018,13 +2065,32 @@ undef_eval:
                 trylist->inFinal = 0;
                 int last_op = trylist->d.td.last_op;
                 jsi_OpCode *tojmp = (last_op == jsi_LOP_JMP ? trylist->d.td.ld.tojmp : 0);
+                Jsi_Value *pend = trylist->pend;
+                bool pendMsg = trylist->pendMsg;
                 
+                trylist->pend = NULL;
                 pop_try(trylist);
 
                 if (last_op == jsi_LOP_THROW) {
                     throwStr = "finally";
                     rc = JSI_ERROR;
-                } else if (last_op == jsi_LOP_JMP) {
+                    interp->errMsgBuf[0] = 0;
+                    if (!pend) {}
+                    else if (!pendMsg)
+                        Jsi_ValueDup2(interp, &ps->last_exception, pend);
+                    else
+                        Jsi_Strncpy(interp->errMsgBuf, Jsi_ValueString(interp, pend, NULL), sizeof(interp->errMsgBuf)-1);
+                } else if (last_op == jsi_LOP_RET) {
+                    Jsi_ValueMove(interp, vret, pend);
+                    if (!jsiTryReturn(interp, ps, &ip, &trylist, &scope, &currentScope, &context_id, vret)) {
+                        Jsi_DecrRefCount(interp, pend);
+                        interp->didReturn = 1;
+                        goto done;
+                    }
+                }
+                if (pend)
+                    Jsi_DecrRefCount(interp, pend);
+                if (last_op == jsi_LOP_JMP) {
                     while (1) {
                         if (trylist == NULL) {
                             ip = tojmp;
@@ -2038,6 +2104,7 @@ undef_eval:
                             }
                             
                             if (ip >= trylist->d.td.tstart && ip < trylist->d.td.cend) {
+                                jsiTryLeave(interp, trylist);
                                 trylist->d.td.last_op = jsi_LOP_JMP;
                                 trylist->d.td.ld.tojmp = tojmp;
                                 
@@ -2082,7 +2149,6 @@ undef_eval:
                 n->d.wd.wend = n->d.wd.wstart + (uintptr_t)ip->data;
 
                 jsiPushTry(interp, &trylist, n);
-                fp->withDepth++;
                 
                 /* make expr to top of scope chain */
                 scope = jsi_ScopeChainDupNext(interp, scope, currentScope);
@@ -2102,7 +2168,6 @@ undef_eval:
                 JSI_RESTORE_SCOPE();
                 
                 pop_try(trylist);
-                fp->withDepth--;
                 break;
             }
             case OP_DEBUG: {
diff --git a/src/jsiInt.h b/src/jsiInt.h
index f276bb1..d5c05ec 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1054,7 +1054,7 @@ typedef enum {
         jsi_TL_WITH,
 } jsi_try_op_type;                            /* type of try */
 
-typedef enum { jsi_LOP_NOOP, jsi_LOP_THROW, jsi_LOP_JMP } jsi_last_try_op_t; 
+typedef enum { jsi_LOP_NOOP, jsi_LOP_THROW, jsi_LOP_JMP, jsi_LOP_RET } jsi_last_try_op_t; 
 
 typedef struct jsi_TryList {
     jsi_try_op_type type;
@@ -1084,6 +1084,9 @@ typedef struct jsi_TryList {
     struct jsi_TryList *next;
     bool inCatch;
     bool inFinal;
+    bool catches;                       /* counted in tryDepth */
+    bool pendMsg;                       /* pend is the text of an error */
+    Jsi_Value *pend;                    /* exception or return value, during finally */
 } jsi_TryList;
 
 
@@ -1106,7 +1109,6 @@ struct Jsi_Interp {
     Jsi_Value *safeWriteDirs;
     const char *safeExecPattern;
     Jsi_DebugInterp debugOpts;
-    struct jsi_TryList *tryList;
     bool deleting;
     bool destroying;
     uint EventHdlId;
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 2e01cbd..f21a8e3 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -209,8 +209,7 @@ Jsi_RC Jsi_LogMsg(Jsi_Interp *interp, Jsi_PkgOpts* popts, uint code, const char
         if (interp->framePtr->level > 1 && !fp->tryDepth)
             jsi_DumpStackTrace(interp);
 
-        if ((fp->tryDepth - fp->withDepth)>0 && interp->inParse<=0 
-            && (!interp->tryList || !(interp->tryList->inCatch|interp->tryList->inFinal))) { 
+        if (fp->tryDepth>0 && interp->inParse<=0) { 
             /* Should only do the first or traceback? */
             if (!interp->errMsgBuf[0]) {
                 
-- 
2.43.0


From 2e4835a1a0ea0d747b7dc865c3778bd9b07951b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:36 +0000
Subject: [PATCH 102/112] fix: errors in try: the same statement failing again
 gave an empty error, errors of a waited Interp.call were lost, thrown values
 other than strings ended the program with no message

---
 src/jsiCmds.c   |  1 +
 src/jsiEval.c   | 48 ++++++++++++++----------------------------------
 src/jsiInt.h    |  4 ++--
 src/jsiInterp.c | 12 ++++++++++++
 4 files changed, 29 insertions(+), 36 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 265217f..ac08969 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -313,6 +313,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         jsi_Frame *fp = interp->framePtr;
         int tryDepth = fp->tryDepth;
         fp->tryDepth = 0;   // Errors are reported here, as no try can catch them.
+        interp->curIpLastError = NULL;
         if (evPtr->handler) {
             rc = evPtr->handler(interp, evPtr->data);
         } else {
diff --git a/src/jsiEval.c b/src/jsiEval.c
index 00025ab..78b1c24 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -375,29 +375,10 @@ static Jsi_Value *jsiTakeException(Jsi_Interp *interp, jsi_Pstate *ps) {
         Jsi_ValueMakeStringDup(interp, &excpt, interp->errMsgBuf);
     }
     interp->errMsgBuf[0] = 0;
+    interp->curIpLastError = NULL;
     return excpt;
 }
 
-/* For return: go to the finally block of the innermost try that is left, and keep the value until its end. */
-static bool jsiTryReturn(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, jsi_TryList **tlp,
-     jsi_ScopeChain **scope, Jsi_Value **currentScope, int *context_id, Jsi_Value *vret) {
-    jsi_TryList *t;
-    while ((t = *tlp)) {
-        if (t->type == jsi_TL_TRY && *ipp >= t->d.td.tstart && *ipp < t->d.td.cend) {
-            jsiTryLeave(interp, t);
-            t->d.td.last_op = jsi_LOP_RET;
-            t->pend = Jsi_ValueNew1(interp);
-            Jsi_ValueMove(interp, t->pend, vret);
-            *ipp = t->d.td.fstart - 1;
-            return 1;
-        }
-        if (t->type != jsi_TL_TRY || t->inCatch)
-            jsiRestoreScope(interp, ps, t, scope, currentScope, context_id);
-        jsiPopTry(interp, tlp);
-    }
-    return 0;
-}
-
 static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, jsi_TryList **tlp,
      jsi_ScopeChain **scope, Jsi_Value **currentScope, int *context_id, Jsi_Value *top, const char *nam) {
     if (Jsi_InterpGone(interp))
@@ -407,11 +388,14 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
     const char *str;
     while (1) {
         if (trylist == NULL) {
-            if (!Jsi_Strcmp(nam, "finally") && ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
+            if ((!Jsi_Strcmp(nam, "finally") || !Jsi_Strcmp(nam, "throw")) && ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
                 nam = "throw";
                 top = ps->last_exception;
             }
+            Jsi_DString dStr = {};
             str = (top?Jsi_ValueString(interp, top, NULL):"");
+            if (!str && !Jsi_Strcmp(nam, "throw"))
+                str = Jsi_ValueGetDString(interp, top, &dStr, JSI_OUTPUT_QUOTE);
             if (str) {
                 if (!Jsi_Strcmp(nam, "help"))
                     Jsi_LogInfo("...%s", str);
@@ -424,6 +408,7 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
                     interp->dumpedStack = ov;
                 }
             }
+            Jsi_DSFree(&dStr);
             return JSI_ERROR;
         }
         if (trylist->type == jsi_TL_TRY) {
@@ -557,7 +542,7 @@ static void jsiDumpFunctions(Jsi_Interp *interp, const char *spnam) {
     const char *varname = NULL;
     int m = 0;
     
-    if (lso) {
+    if (lso && (!spnam || !*spnam)) {
         spnam = interp->lastSubscriptFailStr;
         if (!spnam) spnam = interp->lastPushStr;
         if (!spnam) spnam = "";
@@ -909,6 +894,7 @@ static Jsi_RC jsiEvalFunction(jsi_Pstate *ps, jsi_OpCode *ip, int discard) {
     Jsi_DecrRefCount(interp, args);
     if (rc == JSI_OK) { // An error dropped within the call is not to be taken for a later one.
         interp->errMsgBuf[0] = 0;
+        interp->curIpLastError = NULL;
         if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF)
             Jsi_ValueReset(interp, &ps->last_exception);
     }
@@ -1925,13 +1911,15 @@ undef_eval:
                     }
                 }
                 jsiPop(interp, (uintptr_t)ip->data);
+                interp->didReturn = 1;
                 if (trylist) {
-                    if (jsiTryReturn(interp, ps, &ip, &trylist, &scope, &currentScope, &context_id, vret))
-                        break;
-                    interp->didReturn = 1;
+                    while (trylist) {
+                        if (trylist->type != jsi_TL_TRY || trylist->inCatch)
+                            JSI_RESTORE_SCOPE();
+                        pop_try(trylist);
+                    }
                     goto done;
                 }
-                interp->didReturn = 1;
                 ip = end;
                 break;
             }
@@ -2018,7 +2006,6 @@ undef_eval:
                 break;
             }
             case OP_SCATCH: {
-                interp->curIpLastError = NULL;
                 if (trylist == NULL || trylist->type != jsi_TL_TRY) 
                     Jsi_LogBug("Unexpected SCATCH opcode??");
 
@@ -2080,13 +2067,6 @@ undef_eval:
                         Jsi_ValueDup2(interp, &ps->last_exception, pend);
                     else
                         Jsi_Strncpy(interp->errMsgBuf, Jsi_ValueString(interp, pend, NULL), sizeof(interp->errMsgBuf)-1);
-                } else if (last_op == jsi_LOP_RET) {
-                    Jsi_ValueMove(interp, vret, pend);
-                    if (!jsiTryReturn(interp, ps, &ip, &trylist, &scope, &currentScope, &context_id, vret)) {
-                        Jsi_DecrRefCount(interp, pend);
-                        interp->didReturn = 1;
-                        goto done;
-                    }
                 }
                 if (pend)
                     Jsi_DecrRefCount(interp, pend);
diff --git a/src/jsiInt.h b/src/jsiInt.h
index d5c05ec..d708dff 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1054,7 +1054,7 @@ typedef enum {
         jsi_TL_WITH,
 } jsi_try_op_type;                            /* type of try */
 
-typedef enum { jsi_LOP_NOOP, jsi_LOP_THROW, jsi_LOP_JMP, jsi_LOP_RET } jsi_last_try_op_t; 
+typedef enum { jsi_LOP_NOOP, jsi_LOP_THROW, jsi_LOP_JMP } jsi_last_try_op_t; 
 
 typedef struct jsi_TryList {
     jsi_try_op_type type;
@@ -1086,7 +1086,7 @@ typedef struct jsi_TryList {
     bool inFinal;
     bool catches;                       /* counted in tryDepth */
     bool pendMsg;                       /* pend is the text of an error */
-    Jsi_Value *pend;                    /* exception or return value, during finally */
+    Jsi_Value *pend;                    /* exception, during finally */
 } jsi_TryList;
 
 
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index d6ee633..2af2617 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -419,6 +419,7 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             interp->errLine = dinterp->errLine;
             interp->errFile = dinterp->errFile;
             dinterp->errMsgBuf[0] = 0;
+            dinterp->curIpLastError = NULL;
         }
     }
     return rc;
@@ -2426,6 +2427,7 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 interp->errLine = sinterp->errLine;
                 interp->errFile = sinterp->errFile;
                 sinterp->errMsgBuf[0] = 0;
+                sinterp->curIpLastError = NULL;
             }
         }
         sinterp->level--;
@@ -2790,7 +2792,17 @@ static Jsi_RC interpCall(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             return JSI_ERROR;
         }
         Jsi_Value *srPtr = Jsi_ValueNew1(sinterp);
+        int intry = (interp->framePtr->tryDepth>0);
+        sinterp->framePtr->tryDepth += intry;
         rc = Jsi_CommandInvokeJSON(sinterp, fname, cp, &srPtr);
+        sinterp->framePtr->tryDepth -= intry;
+        if (intry && rc != JSI_OK && interp != sinterp) {
+            Jsi_Strcpy(interp->errMsgBuf, sinterp->errMsgBuf);
+            interp->errLine = sinterp->errLine;
+            interp->errFile = sinterp->errFile;
+            sinterp->errMsgBuf[0] = 0;
+            sinterp->curIpLastError = NULL;
+        }
         Jsi_DSSetLength(&dStr, 0);
         Jsi_CleanValue(sinterp, interp, srPtr, ret);
         //Jsi_ValueCopy(interp, *ret, srPtr);
-- 
2.43.0


From 79ce6f59caa09870fdc256d3627b292419339682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:34 +0000
Subject: [PATCH 103/112] fix: vfs: mounting over a mount removed it, nested
 mounts used the wrong one, sizes beyond the data and fileList data were read
 out of bounds, unmounting in use freed what was used, seeks went the wrong
 way, writes were lost silently

---
 src/jsiVfs.c | 180 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 128 insertions(+), 52 deletions(-)

diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index c5e1047..0ea8f56 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -29,7 +29,9 @@ typedef struct VfsData {
     Jsi_Value *fileList, *callback;
     Jsi_Value *file, *info, *extra, *param, *user;
     Jsi_HashEntry *hPtr;
-    bool noAddDirs, writeable, noPatches;
+    bool noAddDirs, writeable, noPatches, closing;
+    int refs;                   /* Held by the mount itself, open channels and running commands. */
+    Jsi_Interp *interp;
 } VfsData;
 
 typedef struct VfsFile {
@@ -37,7 +39,6 @@ typedef struct VfsFile {
     const char *file, *fullpath;
     ssize_t size;
     time_t timestamp;
-    const char *dataPtr;
     Jsi_Value *data;
     Jsi_HashEntry *hPtr;
     int isdir;
@@ -47,6 +48,19 @@ typedef struct VfsFile {
 
 static void jsi_vfsDelete(Jsi_Interp *interp, VfsData* cmdPtr);
 
+static void VfsRelease(VfsData* cmdPtr) {
+    if (--cmdPtr->refs <= 0)
+        jsi_vfsDelete(cmdPtr->interp, cmdPtr);
+}
+
+/* The content of a file: never more than the data there is. */
+static const char *VfsContent(VfsFile *pFile, ssize_t *sizePtr) {
+    int len = 0;
+    const char *cp = (pFile->data ? Jsi_ValueString(pFile->cmdPtr->interp, pFile->data, &len) : NULL);
+    *sizePtr = (!cp ? 0 : (pFile->size < len ? pFile->size : len));
+    return cp;
+}
+
 static VfsData* VfsLookupMount(Jsi_Interp *interp, const char *path) {
     Jsi_HashEntry *hPtr; 
     Jsi_HashSearch zSearch;
@@ -57,7 +71,7 @@ static VfsData* VfsLookupMount(Jsi_Interp *interp, const char *path) {
             const char *zpath = pArchive->mountStr;
             int iLen = Jsi_Strlen(zpath);
             if (!Jsi_Strncmp(zpath, path, iLen) && (path[iLen]==0 || path[iLen]=='/')) {
-                if (!match || Jsi_Strlen(match->mountStr)>(uint)iLen)
+                if (!match || Jsi_Strlen(match->mountStr)<(uint)iLen)
                     match=(VfsData*)Jsi_HashValueGet(hPtr);
             }
         }
@@ -86,7 +100,10 @@ static VfsFile *jsi_VfsLookup(Jsi_Interp *interp, Jsi_Value *path) {
         zt[len-1] = 0;
     }
     VfsData* cmdPtr = VfsLookupMount(interp, zt);
-    if (!cmdPtr) return NULL;
+    if (!cmdPtr || !cmdPtr->fileHash) {
+        Jsi_DSFree(&dStr);
+        return NULL;
+    }
     hPtr = Jsi_HashEntryFind(cmdPtr->fileHash, zt);
     pFile = (VfsFile*)(hPtr ? Jsi_HashValueGet(hPtr) : 0);
     Jsi_DSFree(&dStr);
@@ -105,13 +122,15 @@ static int jsi_VfsSeek(
     int mode,                   /* One of SEEK_CUR, SEEK_SET or SEEK_END */
     int *pErrorCode             /* Write the error code here */
 ) {
+    ssize_t size;
+    VfsContent(pInfo, &size);
     switch( mode ) {
         case SEEK_CUR: {
-            chan->resInt[0] -= offset;
+            chan->resInt[0] += offset;
             break;
         }
         case SEEK_END: {
-            chan->resInt[0] = pInfo->size - offset;
+            chan->resInt[0] = size + offset;
             break;
         }
         case SEEK_SET: {
@@ -124,11 +143,13 @@ static int jsi_VfsSeek(
         }
     }
     if (chan->resInt[0] < 0) chan->resInt[0] = 0;
-    else if (chan->resInt[0] > pInfo->size) chan->resInt[0] = pInfo->size;
+    else if (chan->resInt[0] > size) chan->resInt[0] = size;
     return 0;
 }
 
 static int Jav_FSCloseProc(Jsi_Channel chan) {
+    VfsFile *pFile = (VfsFile*)chan->data;
+    VfsRelease(pFile->cmdPtr);
     return 0;
 }
 
@@ -141,12 +162,13 @@ static Jsi_Channel Jav_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
         return NULL;
     VfsData *cmdPtr = pFile->cmdPtr;
     
-    if (!cmdPtr->writeable && *mode != 'r') {
+    if (!cmdPtr->writeable && (*mode != 'r' || Jsi_Strchr(mode, '+'))) {
         Jsi_LogError("VFS is readonly");
         return NULL;
     }
     
-    if (!pFile->dataPtr) {
+    cmdPtr->refs++;
+    if (!pFile->data && cmdPtr->callback) {
         Jsi_Value *retStr = Jsi_ValueNew1(interp);
         Jsi_Value *vpargs, *vargs[3];
         vargs[0] = Jsi_ValueNewStringDup(interp, "file");
@@ -161,20 +183,25 @@ static Jsi_Channel Jav_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
         Jsi_DecrRefCount(interp, vargs[0]);
         Jsi_DecrRefCount(interp, vargs[2]);
         Jsi_DecrRefCount(interp, vpargs);
-        if (jrc == JSI_OK && !Jsi_ValueIsUndef(interp, retStr) && Jsi_ValueString(interp, retStr, NULL)) {
+        if (jrc == JSI_OK && !pFile->data && Jsi_ValueString(interp, retStr, NULL)) {
             pFile->data = retStr;
-            pFile->dataPtr = Jsi_ValueString(interp, pFile->data, NULL);
             retStr = NULL;
         }
         if (retStr)
             Jsi_DecrRefCount(interp, retStr);
-        if (!pFile->dataPtr)
+        if (jrc != JSI_OK) {
+            VfsRelease(cmdPtr);
             return NULL;
+        }
+    }
+    if (!pFile->data) {
+        VfsRelease(cmdPtr);
+        return NULL;
     }
 
     chan = (Jsi_Channel)Jsi_Calloc(1,sizeof(Jsi_Chan));
     chan->fname = pFile->fullpath;
-    chan->data = pFile;
+    chan->data = pFile; /* Keeps the reference to cmdPtr. */
     return chan;
 }
 
@@ -221,16 +248,19 @@ static int Jav_FSScandirProc(Jsi_Interp *interp, Jsi_Value *dirpath, Jsi_Dirent
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch sSearch;
     int len, n = 0, rc = JSI_OK, deSpace = 0;
-    Jsi_Dirent *de, dd;
+    Jsi_Dirent *de, dd = {};
     Jsi_Dirent **dep = NULL;
     *namelist = NULL;
-    Jsi_DString pStr;
+    Jsi_DString pStr = {};
 
     const char *zp=Jsi_ValueNormalPath(interp, dirpath, &pStr);
     len = Jsi_Strlen(zp);
     
     VfsData *cmdPtr = VfsLookupMount(interp, zp);
-    if (!cmdPtr) return -1;
+    if (!cmdPtr || !cmdPtr->fileHash) {
+        Jsi_DSFree(&pStr);
+        return -1;
+    }
     for(hPtr = Jsi_HashSearchFirst(cmdPtr->fileHash, &sSearch);
             hPtr && rc == JSI_OK;
             hPtr = Jsi_HashSearchNext(&sSearch)
@@ -253,7 +283,7 @@ static int Jav_FSScandirProc(Jsi_Interp *interp, Jsi_Value *dirpath, Jsi_Dirent
             deSpace += 50;
             dep = (Jsi_Dirent**)Jsi_Realloc(dep, deSpace * sizeof(Jsi_Dirent*));
         }
-        de = dep[n] = (Jsi_Dirent*)Jsi_Calloc(deSpace, sizeof(Jsi_Dirent));
+        de = dep[n] = (Jsi_Dirent*)Jsi_Calloc(1, sizeof(Jsi_Dirent));
         *de = dd;
         n++;
     }
@@ -314,8 +344,9 @@ static int Jav_FSTellProc(Jsi_Channel chan) {
 }
 
 static int Jav_FSEofProc(Jsi_Channel chan) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
-    return (chan->resInt[0] >= pInfo->size);
+    ssize_t size;
+    VfsContent((VfsFile*)chan->data, &size);
+    return (chan->resInt[0] >= size);
 }
 
 static int Jav_FSRewindProc(Jsi_Channel chan) {
@@ -335,14 +366,16 @@ static int Jav_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) {
 /*static int Jav_FSWriteProc(Jsi_Channel chan, const char *buf, int size) { return -1;}*/
 
 static int Jav_FSReadProc(Jsi_Channel chan, char *s, int size) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
-    int n, left = (pInfo->size-chan->resInt[0]);
+    ssize_t fsize;
+    const char *dataPtr = VfsContent((VfsFile*)chan->data, &fsize);
+    int n, left = (fsize-chan->resInt[0]);
     if (size <= left)
         n = size;
     else
         n = left;
-    if (n>0)
-        memcpy(s, pInfo->dataPtr+chan->resInt[0], n);
+    if (n<=0)
+        return 0;
+    memcpy(s, dataPtr+chan->resInt[0], n);
     chan->resInt[0] += n;
     return n;
 }
@@ -352,15 +385,17 @@ static int Jav_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
 }
 
 static int Jav_FSGetcProc(Jsi_Channel chan) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
-    if (chan->resInt[0]>=pInfo->size)
-        return 0;
-    return pInfo->dataPtr[chan->resInt[0]++];
+    ssize_t size;
+    const char *dataPtr = VfsContent((VfsFile*)chan->data, &size);
+    if (chan->resInt[0]>=size)
+        return -1;
+    return (unsigned char)dataPtr[chan->resInt[0]++];
 }
 
 static int Jav_FSUngetcProc(Jsi_Channel chan, int ch) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
-    if (pInfo->dataPtr && chan->resInt[0] > 0 && pInfo->dataPtr[chan->resInt[0]-1] == ch)
+    ssize_t size;
+    const char *dataPtr = VfsContent((VfsFile*)chan->data, &size);
+    if (chan->resInt[0] > 0 && chan->resInt[0] <= size && (unsigned char)dataPtr[chan->resInt[0]-1] == ch)
         chan->resInt[0]--;
     else {
         /* TODO: go back */
@@ -370,12 +405,13 @@ static int Jav_FSUngetcProc(Jsi_Channel chan, int ch) {
 }
 
 static char * Jav_FSGetsProc(Jsi_Channel chan, char *s, int size) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
+    ssize_t fsize;
+    const char *dataPtr = VfsContent((VfsFile*)chan->data, &fsize);
     char *cp = s;
     int n = 0;
     *s = 0;
-    while (n<(size-1) && chan->resInt[0]<pInfo->size) {
-        *cp = pInfo->dataPtr[chan->resInt[0]++];
+    while (n<(size-1) && chan->resInt[0]<fsize) {
+        *cp = dataPtr[chan->resInt[0]++];
         if (*cp == '\n') {
             n++;
             break;
@@ -520,7 +556,7 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     Jsi_HashEntry *hPtr = NULL, *hPtr2, *hPtr3;
     char *cp;
     char mbuf[PATH_MAX];
-    bool isNew;
+    bool isNew = 0, fNew;
     Jsi_Obj *o;
     VfsFile ff = {};
     VfsFile *fptr;
@@ -548,10 +584,12 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             goto bail;
         }
         cmd.callback = cmdPtr2->callback; Jsi_IncrRefCount(interp, cmd.callback);
-        cmd.noAddDirs = cmdPtr2->noAddDirs;
-        cmd.extra = cmdPtr2->extra;
-        if (cmd.extra)
+        if (!cmd.noAddDirs)
+            cmd.noAddDirs = cmdPtr2->noAddDirs;
+        if (!cmd.extra && cmdPtr2->extra) {
+            cmd.extra = cmdPtr2->extra;
             Jsi_IncrRefCount(interp, cmd.extra);
+        }
     }
     
     if (!cmd.mount) {
@@ -582,6 +620,8 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     cmdPtr = (typeof(cmdPtr))Jsi_Calloc(1, sizeof(*cmdPtr));
     *cmdPtr = cmd;
     cmdPtr->hPtr = hPtr;
+    cmdPtr->interp = interp;
+    cmdPtr->refs = 2; /* One for the mount, and one for this command. */
     Jsi_HashValueSet(hPtr, cmdPtr);
     cmdPtr->mountStr = (typeof(cmdPtr->mountStr))Jsi_HashKeyGet(hPtr);
 
@@ -603,6 +643,10 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             goto bail;
         }
         cmdPtr->info = retStr;
+        if (!cmdPtr->hPtr) {
+            Jsi_LogError("unmounted during mount");
+            goto bail;
+        }
     }
     
     if (!cmdPtr->fileList) {
@@ -631,6 +675,10 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             Jsi_LogError("expected filelist array");
             goto bail;
         }
+        if (!cmdPtr->hPtr) {
+            Jsi_LogError("unmounted during mount");
+            goto bail;
+        }
     }
         
     if (!cmdPtr->fileList || !Jsi_ValueIsObjType(interp, cmdPtr->fileList, JSI_OT_ARRAY)) {
@@ -648,15 +696,24 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             goto bail;
         }
         memset(&ff, 0, sizeof(ff));
-        if (Jsi_OptionsProcess(interp, VfsFileOptions, &ff, it, 0) < 0)
+        if (Jsi_OptionsProcess(interp, VfsFileOptions, &ff, it, 0) < 0) {
+            Jsi_OptionsFree(interp, VfsFileOptions, &ff, 0);
             goto bail;
+        }
+        if (ff.data) {
+            int dlen = 0;
+            Jsi_ValueString(interp, ff.data, &dlen);
+            if (!ff.size)
+                ff.size = dlen;
+        }
         Jsi_DSSetLength(&dStr, 0);
         Jsi_DSPrintf(&dStr, "%s/%s", cmdPtr->mountStr, ff.file);
         ff.fullpath = Jsi_DSValue(&dStr);
         ff.cmdPtr = cmdPtr;
-        hPtr2 = Jsi_HashEntryNew(cmdPtr->fileHash, ff.fullpath, &isNew);
-        if (!hPtr2 || !isNew) {
+        hPtr2 = Jsi_HashEntryNew(cmdPtr->fileHash, ff.fullpath, &fNew);
+        if (!hPtr2 || !fNew) {
             Jsi_LogError("bad or duplicate file: %s", ff.fullpath);
+            Jsi_OptionsFree(interp, VfsFileOptions, &ff, 0);
             goto bail;
         }
         if (S_ISDIR(ff.perms))
@@ -666,10 +723,12 @@ aadd:
             cp = Jsi_Strrchr(ff.fullpath, '/');
             if (cp != ff.fullpath && Jsi_Strcmp(ff.fullpath, cmdPtr->mountStr)) {
                 *cp = 0;
-                hPtr3 = Jsi_HashEntryNew(cmdPtr->fileHash, ff.fullpath, &isNew);
-                if (hPtr3 && isNew) {
+                hPtr3 = Jsi_HashEntryNew(cmdPtr->fileHash, ff.fullpath, &fNew);
+                if (hPtr3 && fNew) {
                     fptr = (typeof(fptr))Jsi_Calloc(1, sizeof(*fptr));
                     *fptr = ff;
+                    fptr->data = NULL; /* That is the file's. */
+                    fptr->size = 0;
                     fptr->hPtr = hPtr3;
                     fptr->fullpath = (typeof(fptr->fullpath))Jsi_HashKeyGet(hPtr3);
                     fptr->isdir = 1;
@@ -687,14 +746,20 @@ aadd:
     }
     Jsi_DSFree(&dStr);
     Jsi_ValueMakeStringDup(interp, ret, cmdPtr->mountStr);
+    VfsRelease(cmdPtr);
     return JSI_OK;
 
 bail:
     Jsi_DSFree(&dStr);
-    if (hPtr)
-        Jsi_HashEntryDelete(hPtr);
-    else
+    if (cmdPtr) {
+        if (cmdPtr->hPtr)
+            Jsi_HashEntryDelete(cmdPtr->hPtr);
+        VfsRelease(cmdPtr);
+    } else {
+        if (hPtr && isNew)
+            Jsi_HashEntryDelete(hPtr);
         Jsi_OptionsFree(interp, VfsOptions, &cmd, 0);
+    }
     return JSI_ERROR;
 }
 
@@ -707,8 +772,10 @@ static Jsi_RC VfsUnmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     Jsi_HashEntry *hPtr = Jsi_HashEntryFind(interp->vfsMountHash, name);
     VfsData *cmdPtr = (typeof(cmdPtr))(hPtr?Jsi_HashValueGet(hPtr):NULL);
     Jsi_RC jrc = JSI_OK;
-    if (!cmdPtr) 
+    if (!cmdPtr || cmdPtr->closing)
         return Jsi_LogError("No such mount: %s", name);
+    cmdPtr->closing = 1;
+    cmdPtr->refs++;
     if (cmdPtr->callback) {
         Jsi_Value *retStr = Jsi_ValueNew1(interp);
         Jsi_Value *vpargs, *vargs[3];
@@ -724,7 +791,9 @@ static Jsi_RC VfsUnmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         Jsi_DecrRefCount(interp, vargs[0]);
         Jsi_DecrRefCount(interp, retStr);
     }
-    Jsi_HashEntryDelete(cmdPtr->hPtr);
+    if (cmdPtr->hPtr)
+        Jsi_HashEntryDelete(cmdPtr->hPtr);
+    VfsRelease(cmdPtr);
     return jrc;
 }
 
@@ -757,7 +826,8 @@ static Jsi_RC VfsFileConfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     if (!cmdPtr) 
         return Jsi_LogError("No such mount: %s", name);
     Jsi_DString dStr = {};
-    hPtr = Jsi_HashEntryFind(cmdPtr->fileHash, Jsi_DSPrintf(&dStr, "%s/%s", name, file) );
+    Jsi_DSPrintf(&dStr, "%s/%s", name, file);
+    hPtr = (cmdPtr->fileHash ? Jsi_HashEntryFind(cmdPtr->fileHash, Jsi_DSValue(&dStr)) : NULL);
     Jsi_DSFree(&dStr);
     VfsFile *pInfo = NULL;
     if (hPtr)
@@ -804,15 +874,21 @@ static Jsi_RC VfsTypeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (!Jsi_ValueIsObjType(interp, opts, JSI_OT_OBJECT))
         return Jsi_LogError("arg2: expected object");
         
+    if (Jsi_OptionsProcess(interp, VfsDefOptions, &cmd, opts, 0) < 0) {
+        Jsi_OptionsFree(interp, VfsDefOptions, &cmd, 0);
+        return JSI_ERROR;
+    }
+
     hPtr = Jsi_HashEntryNew(interp->vfsDefHash, type, &isNew);
-    if (!hPtr || !isNew)
+    if (!hPtr || !isNew) {
+        Jsi_OptionsFree(interp, VfsDefOptions, &cmd, 0);
         return Jsi_LogError("type failed: %s", type); // Can't happen.
-
-    if (Jsi_OptionsProcess(interp, VfsDefOptions, &cmd, opts, 0) < 0)
-        return JSI_ERROR;
+    }
         
     cmdPtr = (typeof(cmdPtr))Jsi_Calloc(1, sizeof(*cmdPtr));
     *cmdPtr = cmd;
+    cmdPtr->interp = interp;
+    cmdPtr->refs = 1;
     cmdPtr->hPtr = hPtr;
     Jsi_HashValueSet(hPtr, cmdPtr);
     return JSI_OK;
@@ -854,7 +930,7 @@ static Jsi_RC freeVfsArchiveHashTbl(Jsi_Interp *interp, Jsi_HashEntry *hPtr, voi
     if (!ptr) return JSI_OK;
     VfsData *cmdPtr = (VfsData*)ptr;
     cmdPtr->hPtr = NULL;
-    jsi_vfsDelete(interp, cmdPtr);
+    VfsRelease(cmdPtr);
     return JSI_OK;
 }
 
-- 
2.43.0


From 8c049ac94bb46406c5165a15718b11ca6b170c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:34 +0000
Subject: [PATCH 104/112] fix: dates given as option strings lost their seconds

---
 src/jsiCmds.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index ac08969..aa7b001 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2076,7 +2076,6 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
         }
         rv = strptime(str, fmt, &tm);
     } else {
-        if (fmt) j++;
         while (timeFmts[j]) {
             rv = strptime(str, timeFmts[j], &tm);
             if (rv != NULL)
-- 
2.43.0


From 4ed649f019867eb92f16afb4d64303be61ade872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:34 +0000
Subject: [PATCH 105/112] fix: sqlar mounts could not read files stored
 uncompressed

---
 lib/Jsi_Vfs.jsi | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Jsi_Vfs.jsi b/lib/Jsi_Vfs.jsi
index 92e54a9..82b4021 100755
--- a/lib/Jsi_Vfs.jsi
+++ b/lib/Jsi_Vfs.jsi
@@ -209,9 +209,11 @@ function Jsi_Vfs(args:array=void, conf:object=void):void
         
         function Sqlar_ReadFile(file:string) {
             var info = mnt.info;
-            var dat = info.db.query("SELECT data FROM sqlar where name = @file LIMIT 1");
+            var dat = info.db.query("SELECT data, length(data)=sz AS stored FROM sqlar where name = @file LIMIT 1");
             if (dat.length<=0)
                 return '';
+            if (dat[0].stored) // Is only compressed when that made it smaller.
+                return dat[0].data;
             var fdat = Zvfs.inflate(dat[0].data);
             return fdat;
         }
-- 
2.43.0


From bed970562647f5f052ed7b7ae3d6447318c666d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:12 +0000
Subject: [PATCH 106/112] fix: test mode: arguments of one test were given to
 the next ones, regexp lines were taken as expected throws, throws with double
 quotes were syntax errors

---
 lib/Testing.jsi | 9 +++++----
 src/jsiEval.c   | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index e34a4c8..553c1dc 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -78,8 +78,9 @@ function Testing(fileargs:array, conf:object=void):number {
         var apat = "=!ARGSTART!=\n(.*)\n=!ARGEND!=";
         var asm = scr.match(apat);
 
-        if (self.args === '' && asm)
-            self.args = asm[1];
+        var targs = self.args;
+        if (targs === '' && asm)
+            targs = asm[1];
         var tcmd = Info.executable() + ' --L assert';
         var ut = 1;
         var sint = null;
@@ -95,7 +96,7 @@ function Testing(fileargs:array, conf:object=void):number {
             tcmd += ' -ItestMode ' + ut;
             siargs.testMode = ut;
         }
-        tcmd += ' '+fn+' '+self.args;
+        tcmd += ' '+fn+' '+targs;
 
         if (expect === null && self.expectFile)
             expect = File.read(self.expectFile);
@@ -126,7 +127,7 @@ function Testing(fileargs:array, conf:object=void):number {
             if (!self.exec) {
                 siargs.stdoutStr = '';
                 //siargs.scriptFile = fn;
-                siargs.args = self.args.split(' ');
+                siargs.args = targs.split(' ');
                 if (self.noproto)
                     siargs.subOpts = {noproto:true};
                 sint = new Interp(siargs);
diff --git a/src/jsiEval.c b/src/jsiEval.c
index 78b1c24..10b056a 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2308,7 +2308,7 @@ static Jsi_RC jsiJsPreprocessLine(Jsi_Interp* interp, char *buf, size_t bsiz, ui
                 return JSI_OK;
             }
         }
-        if (buf[ilen-1]=='\n' && buf[ilen-2]==';' && (2*ilen+12)<bsiz) {
+        if (buf[ilen-1]=='\n' && buf[ilen-2]==';' && (2*ilen+120)<bsiz) {
             if (Jsi_Strchr(buf, '`')) {
                 return Jsi_LogError("back-tick is illegal in testMode on line %d: %s", lineNo, buf);
             }
@@ -2336,10 +2336,10 @@ static Jsi_RC jsiJsPreprocessLine(Jsi_Interp* interp, char *buf, size_t bsiz, ui
                 Jsi_DSFree(&kStr);
                 if (rcs != JSI_OK)
                     return Jsi_LogError("failure in debugOpts.testFmtCallback");
-            } else if (ilen>3 && ubuf[0]=='/' && ubuf[0]=='/') {
-                char *ecp = ubuf+2;
+            } else if (ilen>3 && ucp[0]=='/' && ucp[1]=='/') {
+                char *ecp = ucp+2;
                 while (*ecp && isspace(*ecp)) ecp++;
-                snprintf(buf, bsiz, "printf(`%%s ==>`, \"%s\"); try { %s; puts('\\n[FAIL]!: expected a throw\\n'); } "
+                snprintf(buf, bsiz, "printf(`%%s ==>`, `%s`); try { %s; puts('\\n[FAIL]!: expected a throw\\n'); } "
                     "catch(err) { puts('\\n[PASS]!: err =',err); }\n", ecp, ecp);
             } else {
                 snprintf(buf, bsiz, "printf(`%%s ==> `,`%s`),puts(%s);\n", ucp, ucp);
-- 
2.43.0


From f696165f63ea114515ce226504bb3fdbeea704d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:52 +0000
Subject: [PATCH 107/112] fix: substr, slice and charAt took part of the next
 character after a non-ASCII one, indexOf, lastIndexOf and search counted
 bytes

---
 src/jsiString.c | 17 +++++++++++++----
 src/jsiUtf8.c   |  8 +++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index c8bd24d..6e440a6 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -225,6 +225,11 @@ static Jsi_RC StringRepeatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     return JSI_OK;
 }
 
+// Convert byte offset to the character index used by substr, etc.
+static int jsi_StrCharPos(const char *str, int pos) {
+    return (pos<=0 ? pos : (int)Jsi_NumUtfChars(str, pos));
+}
+
 static Jsi_RC StringIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -249,7 +254,9 @@ static Jsi_RC StringIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (istart < 0) istart = 0;
     }
 
-    int r = Jsi_Strpos(v, istart, vseq, 0);
+    int r = -1;
+    if (istart <= sLen)
+        r = jsi_StrCharPos(v, Jsi_Strpos(v, Jsi_UtfIndexToOffset(v, istart), vseq, 0));
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;
@@ -509,7 +516,9 @@ static Jsi_RC StringLastIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
         if (istart < 0) istart = 0;
     }
 
-    int r = Jsi_Strrpos(v, istart, vseq, 0);
+    int r = -1;
+    if (istart <= sLen)
+        r = jsi_StrCharPos(v, Jsi_Strrpos(v, Jsi_UtfIndexToOffset(v, istart), vseq, 0));
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;;
@@ -899,7 +908,7 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         char *ce, *cp = Jsi_ValueString(interp, seq, NULL);
         int n = -1;
         if ((ce = Jsi_Strstr(source_str, cp))) {
-            n = (ce-source_str);
+            n = jsi_StrCharPos(source_str, ce-source_str);
         }
         Jsi_ValueMakeNumber(interp, ret, n);
         return JSI_OK;
@@ -927,7 +936,7 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         }
 
     }
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos[0].rm_so);
+    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)jsi_StrCharPos(source_str, pos[0].rm_so));
     return JSI_OK;
 }
 
diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index ff159ef..beda484 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -103,7 +103,7 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
     ustart = n;
     ulen = len;
 #else
-    int m, e, l;
+    int m, e;
     ulen = ustart = 0;
     m = Jsi_UtfIndexToOffset(str, n);
     if (m>=0) {
@@ -112,11 +112,9 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
             ulen = Jsi_Strlen(str+m);
         } else {
             e = Jsi_UtfIndexToOffset(str+m, len);
-            l = Jsi_NumUtfBytes(str[m]);
-            if (l<0) l = 1;
-            if (e>=0 && l>0) {
+            if (e>=0) {
                 ustart = m;
-                ulen = e+l-1;
+                ulen = e;
             }
         }
     }
-- 
2.43.0


From 8f5dde73a81e4a107c0fcc1250ceab07e872d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:54 +0000
Subject: [PATCH 108/112] fix: the exit status was 0 when --E code or --I
 options failed or exited

---
 src/jsiInterp.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 2af2617..ae6c8e7 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -866,8 +866,14 @@ Jsi_Interp* Jsi_Main(Jsi_InterpOpts *opts)
         argc = opts->argc;
         argv = opts->argv;
     }
-    if (!interp)
+    if (!interp) {
+        int exitCode = (opts?opts->exitCode:0);
+        if (opts)
+            opts->exitCode = 1;     // Kept only if startup, eg. --E CODE, fails.
         interp = Jsi_InterpNew(opts);
+        if (interp && opts)
+            opts->exitCode = exitCode;
+    }
     if (!interp)
         return NULL;
     Jsi_InterpOnDelete(interp, &jsi_InterpDelete, (void*)&jsi_InterpDelete);
@@ -1722,6 +1728,8 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
         rc = Jsi_EvalString(interp, Jsi_DSValue(&interp->interpEvalQ), 0);
         Jsi_DSSetLength(&interp->interpEvalQ, 0);
         if (JSI_OK != rc) {
+            if (iopts && interp->exited)
+                iopts->exitCode = (interp->exitCode<0 || interp->exitCode>127 ? 127 : interp->exitCode);
             Jsi_InterpDelete(interp);
             return NULL;
         }
-- 
2.43.0


From f768bff631a7ebd8270e227b3ec505bd6716be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:01 +0000
Subject: [PATCH 109/112] fix: the test runner ended with an error, without
 running the remaining tests, on a test whose output only had lines too many

---
 lib/Testing.jsi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index 553c1dc..afd3cfd 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -256,7 +256,7 @@ function Testing(fileargs:array, conf:object=void):number {
                     for (var j = i-self.context; j<i+self.context; j++) {
                         if (j<0 || j>=rlst.length) continue;
                         if (j!==i) { puts('',rlst[j]); continue; }
-                        puts('-'+elst[i]);
+                        if (elst[i] !== undefined) puts('-'+elst[i]);
                         puts('+'+rlst[i]);
                     }
                     puts('====================DIFFEND');
-- 
2.43.0


From d5d32fdd78d41ee8fdb46c92656138c56bb5659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:26 +0000
Subject: [PATCH 110/112] fix: exit in --E code used the deleted interpreter
 and lost its status

---
 src/jsiInterp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index ae6c8e7..9ab238b 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1725,11 +1725,15 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
 #endif
     Jsi_PkgProvide(interp, "Jsi", JSI_VERSION, NULL);
     if (Jsi_DSLength(&interp->interpEvalQ)) {
+        Jsi_InterpOnDelete(interp, &jsi_InterpDelete, (void*)&jsi_InterpDelete);
         rc = Jsi_EvalString(interp, Jsi_DSValue(&interp->interpEvalQ), 0);
+        if (jsi_deleted) {  // Called exit.
+            if (iopts)
+                iopts->exitCode = (jsi_exitCode<0 || jsi_exitCode>127 ? 127 : jsi_exitCode);
+            return NULL;
+        }
         Jsi_DSSetLength(&interp->interpEvalQ, 0);
         if (JSI_OK != rc) {
-            if (iopts && interp->exited)
-                iopts->exitCode = (interp->exitCode<0 || interp->exitCode>127 ? 127 : interp->exitCode);
             Jsi_InterpDelete(interp);
             return NULL;
         }
-- 
2.43.0


From 29e69f8458fca05ca2e402759e67d4fb9d27ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:17 +0000
Subject: [PATCH 111/112] fix: options of the verified-value kind were stored
 outside their record

jsi_ValueToVerify added the option's byte offset to a pointer to pointers, so
setting one (the 'width' of a Sqlite query) wrote elsewhere on the stack.
---
 src/jsiOptions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 1a2f903..a4f29f4 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1166,7 +1166,7 @@ static Jsi_RC jsi_ValueToVerify(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
 {
     if (inStr)
         return JSI_ERROR;
-    Jsi_Value **s = (Jsi_Value**)((char*)record) + spec->offset;
+    Jsi_Value **s = (Jsi_Value**)(((char*)record) + spec->offset);
     Jsi_ValueHandlerProc *vfunc = (Jsi_ValueHandlerProc*)spec->data;
     if (!vfunc) 
         return Jsi_LogError("custom value spec did not set data: %s", spec->name);
-- 
2.43.0


From 25499eb31007af7f0ca6180d9e2788de71a9978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:19 +0000
Subject: [PATCH 112/112] fix: an eval or call in a threaded interp reported
 the error of an earlier one

The message of an error raised to the waiter was left in the interpreter, and
the first message is kept, so the next failing eval raised with that text.
---
 src/jsiInterp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 9ab238b..8f54652 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2671,6 +2671,8 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
                 Jsi_DSAppend(&se->data, interp->errMsgBuf, NULL);
                 se->errLine = interp->errLine;
                 se->errFile = interp->errFile;
+                interp->errMsgBuf[0] = 0;
+                interp->curIpLastError = NULL;
             } else {
                 Jsi_Value *sv = (rv ? rv : interp->retValue);
                 if (sv->vt != JSI_VT_UNDEF && !Jsi_ValueGetDString(interp, sv, &se->data, JSI_OUTPUT_JSON))
-- 
2.43.0

