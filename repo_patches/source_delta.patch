From 20c846c43238e258e0780f2675526169c30a7c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 01/15] fix: do not access a field beyond the end of a chunk
 that is smaller than the field

---
 src/libiff/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/field.c b/src/libiff/field.c
index 29ccfc8..b0d319a 100644
--- a/src/libiff/field.c
+++ b/src/libiff/field.c
@@ -30,7 +30,7 @@ IFF_Bool IFF_deriveSuccess(const IFF_FieldStatus status)
 
 static IFF_Bool fieldDoesNotFitInChunk(const size_t fieldSize, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
 {
-    return bytesProcessed > chunkSize - fieldSize;
+    return (IFF_Long)fieldSize > chunkSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;
 }
 
 static void increaseBytesProcessed(IFF_Long *bytesProcessed, const size_t fieldSize)
-- 
2.43.0


From fafcec5c1167de4054377e7c312ce0a3c936020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 02/15] fix: reject chunks that have a negative size while
 reading

---
 src/libiff/chunk.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 18d6a48..e69bdd6 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -74,6 +74,14 @@ IFF_Chunk *IFF_readChunk(FILE *file, const IFF_ID formType, const IFF_ChunkRegis
         || !IFF_readLong(file, &chunkSize, chunkId, "chunkSize"))
         return NULL;
 
+    if(chunkSize < 0)
+    {
+        IFF_error("Negative size: %d of chunk: '", chunkSize);
+        IFF_errorId(chunkId);
+        IFF_error("'\n");
+        return NULL;
+    }
+
     return readChunkBody(file, chunkId, chunkSize, formType, chunkRegistry);
 }
 
-- 
2.43.0


From e5a3633be8a552379216039ebc91a403f0465769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 03/15] fix: release the intermediate results of a form search

---
 src/libiff/group.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index c180a21..53ed87a 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -262,6 +262,7 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
         IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);
 
         forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
+        free(result);
     }
 
     return forms;
-- 
2.43.0


From 7892ade3070aa108410ea6f3f48193143332a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 04/15] fix: report a failure to flush the written file

---
 src/libiff/iff.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index d2c3942..359f96c 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -107,7 +107,13 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
     }
 
     status = IFF_writeFd(file, chunk, chunkRegistry);
-    fclose(file);
+
+    if(fclose(file) != 0)
+    {
+        IFF_error("ERROR: cannot write file: %s\n", filename);
+        return FALSE;
+    }
+
     return status;
 }
 
-- 
2.43.0


From 98fe933252936b1a822c217be441c3e0b41df117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 05/15] fix: pass arguments to the error function that match
 the format string

---
 src/libiff/group.c | 2 +-
 src/libiff/io.c    | 4 ++--
 src/libiff/list.c  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 53ed87a..4de8436 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -89,7 +89,7 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
     }
 
     if(*bytesProcessed > group->chunkSize)
-        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
diff --git a/src/libiff/io.c b/src/libiff/io.c
index 9d03487..f8f3146 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -214,7 +214,7 @@ IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long c
 
         if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
         {
-            IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
+            IFF_error("Cannot skip: %ld bytes in data chunk: '", bytesToSkip);
             IFF_errorId(chunkId);
             IFF_error("'\n");
             return TRUE;
@@ -236,7 +236,7 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
 
         if(!status)
         {
-            IFF_error("Cannot write: %u zero bytes in data chunk: '", bytesToSkip);
+            IFF_error("Cannot write: %lu zero bytes in data chunk: '", (unsigned long)bytesToSkip);
             IFF_errorId(chunkId);
             IFF_error("'\n");
         }
diff --git a/src/libiff/list.c b/src/libiff/list.c
index bcc75dd..74f7369 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -102,7 +102,7 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     }
 
     if(*bytesProcessed > list->chunkSize)
-        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
-- 
2.43.0


From b77bc8a8a61956e946244be4a300799735ba34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 06/15] fix: do not write zero filler bytes from memory that
 could not be allocated

---
 src/libiff/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index f8f3146..e274fd3 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -232,7 +232,7 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
     {
         size_t bytesToSkip = chunkSize - bytesProcessed;
         IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
-        IFF_Bool status = fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
+        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
 
         if(!status)
         {
-- 
2.43.0


From 6bcfb53314067c2ef68bbdc22393ca6f200e55e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 07/15] fix: fall back to the global chunk types when a FORM
 does not define a chunk type

---
 src/libiff/chunkregistry.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 7de22f7..c5c0214 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -95,8 +95,13 @@ IFF_ChunkType *IFF_findChunkType(const IFF_ChunkRegistry *chunkRegistry, const I
         if(formChunkTypes == NULL)
             result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
         else
+        {
             result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
 
+            if(result == NULL)
+                result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* The FORM does not define it, so fall back to the global chunk types */
+        }
+
         if(result == NULL)
             return chunkRegistry->defaultChunkType;
         else
-- 
2.43.0


From 0a95a5c0cd1148e03b07318c1ff400777c5bc63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 08/15] fix: also compare the ids and sizes of the PROP chunks
 in a LIST

---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 74f7369..0f6eab2 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -256,7 +256,7 @@ static IFF_Bool compareListPropChunks(const IFF_List *list1, const IFF_List *lis
 
         for(i = 0; i < list1->propLength; i++)
         {
-            if(!IFF_compareProp((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], chunkRegistry))
+            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], list1->contentsType, chunkRegistry))
                return FALSE;
         }
 
-- 
2.43.0


From 7eda3a8c5c9ef981a1302429002bcdc6095f102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 09/15] fix: write PROP chunks with the chunk type by which
 they are read

---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 0f6eab2..c370863 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -133,7 +133,7 @@ static IFF_Bool writeListPropChunks(FILE *file, const IFF_List *list, const IFF_
 
     for(i = 0; i < list->propLength; i++)
     {
-        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], 0, chunkRegistry))
+        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry))
         {
             IFF_error("Error writing PROP!\n");
             return FALSE;
-- 
2.43.0


From d6a11d2635f571e9821e4aec5187dad91cffe8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 10/15] fix: release an invalid input file when joining

---
 src/iffjoin/join.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 5b89281..47e4ca7 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -42,6 +42,9 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
         /* Check whether the IFF file is valid */
         if(chunk == NULL || !IFF_check(chunk, NULL))
         {
+            if(chunk != NULL)
+                IFF_free(chunk, NULL);
+
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-- 
2.43.0


From e375c82031b52fcf709816dfacf8725317428a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 11/15] fix: notice the end of the file while skipping unknown
 bytes

---
 src/libiff/io.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index e274fd3..9d2445d 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -210,20 +210,22 @@ IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long c
 {
     if(bytesProcessed < chunkSize)
     {
-        long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long i;
 
-        if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
+        /* Read the bytes instead of seeking, so that the end of the file is noticed and streams are supported as well */
+        for(i = bytesProcessed; i < chunkSize; i++)
         {
-            IFF_error("Cannot skip: %ld bytes in data chunk: '", bytesToSkip);
-            IFF_errorId(chunkId);
-            IFF_error("'\n");
-            return TRUE;
+            if(fgetc(file) == EOF)
+            {
+                IFF_error("Unexpected end of file, while skipping unknown bytes of '");
+                IFF_errorId(chunkId);
+                IFF_error("'\n");
+                return FALSE;
+            }
         }
-        else
-            return FALSE;
     }
-    else
-        return TRUE;
+
+    return TRUE;
 }
 
 IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
-- 
2.43.0


From 7a7663ddacd1a26c4af2e3df4011e203fb0d803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 12/15] fix: reject every punctuation mark in a form type

---
 src/libiff/form.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 788d609..670667f 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -104,7 +104,7 @@ IFF_Bool IFF_checkFormType(const IFF_ID formType)
     /* A form type is not allowed to have lowercase or puntuaction marks */
     for(i = 0; i < IFF_ID_SIZE; i++)
     {
-        if((formType2[i] >= 0x61 && formType2[i] <= 0x7a) || formType2[i] == '.')
+        if(!(formType2[i] >= 'A' && formType2[i] <= 'Z') && !(formType2[i] >= '0' && formType2[i] <= '9') && formType2[i] != ' ')
         {
             IFF_error("No lowercase characters or punctuation marks allowed in a form type ID!\n");
             return FALSE;
-- 
2.43.0


From 9dfd4fef208702b34df4a24d07f7d0ae2cc3a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:36 +0000
Subject: [PATCH 13/15] fix: iffjoin reports failure if the concatenation
 cannot be allocated

---
 src/iffjoin/join.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 47e4ca7..964fa86 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -34,6 +34,9 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
     unsigned int i;
     int status = 0;
 
+    if(cat == NULL)
+        return 1;
+
     for(i = 0; i < inputFilenamesLength; i++)
     {
         /* Open each input IFF file */
-- 
2.43.0


From b04eb8ac6d13f5e1e7d248d66d3c1eedea9b80c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:52 +0000
Subject: [PATCH 14/15] fix: check the allocation of the list of input files in
 iffjoin

---
 src/iffjoin/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iffjoin/main.c b/src/iffjoin/main.c
index 63f44ae..548fc39 100644
--- a/src/iffjoin/main.c
+++ b/src/iffjoin/main.c
@@ -138,6 +138,12 @@ int main(int argc, char *argv[])
         unsigned int i;
         int status;
 
+        if(inputFilenames == NULL)
+        {
+            fprintf(stderr, "ERROR: Cannot allocate memory!\n");
+            return 1;
+        }
+
         /* Create an array of input file names */
         for(i = 0; i < inputFilenamesLength; i++)
             inputFilenames[i] = argv[optind + i];
-- 
2.43.0


From bc84431393bdb98172c8895ac26e65d5ee208b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:56 +0000
Subject: [PATCH 15/15] fix: report a failure to write to the standard output

IFF_write left the output in the buffer of the standard output, so that it reported success although nothing could be written.
---
 src/libiff/iff.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index 359f96c..dea8176 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -120,7 +120,17 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
 IFF_Bool IFF_write(const char *filename, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
     if(filename == NULL)
-        return IFF_writeFd(stdout, chunk, chunkRegistry);
+    {
+        IFF_Bool status = IFF_writeFd(stdout, chunk, chunkRegistry);
+
+        if(fflush(stdout) != 0)
+        {
+            IFF_error("ERROR: cannot write to the standard output!\n");
+            return FALSE;
+        }
+
+        return status;
+    }
     else
         return IFF_writeFile(filename, chunk, chunkRegistry);
 }
-- 
2.43.0

