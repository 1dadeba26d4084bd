From 580dfbd2a9fb97c0571c8b24e5676315a93c59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 01/82] hooks: add guarded read-only voice table snapshot
 (SONIVOX_VERIF_HOOKS)

---
 arm-wt-22k/lib_src/eas_verif.h    | 79 +++++++++++++++++++++++++++++
 arm-wt-22k/lib_src/eas_voicemgt.c | 84 +++++++++++++++++++++++++++++++
 2 files changed, 163 insertions(+)
 create mode 100644 arm-wt-22k/lib_src/eas_verif.h

diff --git a/arm-wt-22k/lib_src/eas_verif.h b/arm-wt-22k/lib_src/eas_verif.h
new file mode 100644
index 0000000..0e451de
--- /dev/null
+++ b/arm-wt-22k/lib_src/eas_verif.h
@@ -0,0 +1,79 @@
+/*----------------------------------------------------------------------------
+ *
+ * File:
+ * eas_verif.h
+ *
+ * Contents and purpose:
+ * Read-only observation hooks for runtime monitors. Everything here is
+ * compiled only when SONIVOX_VERIF_HOOKS is defined.
+ *
+ *----------------------------------------------------------------------------
+*/
+
+#ifndef _EAS_VERIF_H
+#define _EAS_VERIF_H
+
+#ifdef SONIVOX_VERIF_HOOKS
+
+#define VERIF_MAX_SYNTHS    16
+#define VERIF_MAX_VOICES    256
+
+/* normalized voice states */
+#define VERIF_VOICE_FREE        0
+#define VERIF_VOICE_START       1
+#define VERIF_VOICE_PLAY        2
+#define VERIF_VOICE_RELEASE     3
+#define VERIF_VOICE_MUTING      4
+#define VERIF_VOICE_STOLEN      5
+#define VERIF_VOICE_INVALID     6
+
+/* one entry of the voice table */
+typedef struct
+{
+    int     state;              /* VERIF_VOICE_xxx */
+    int     vSynth;             /* virtual synth the voice belongs to */
+    int     channel;            /* MIDI channel 0..15 */
+    int     note;
+    int     velocity;
+    int     pedalHeld;          /* note-off deferred by the sustain pedal */
+    int     nextVSynth;         /* for stolen voices: where it goes next */
+    int     nextChannel;
+    int     nextNote;
+    int     dls;                /* region comes from a DLS collection */
+    int     regionValid;        /* region index lies inside its sound library */
+    int     pool;               /* pool of the channel the voice counts for, -1 none */
+} S_VERIF_VOICE;
+
+/* one virtual synth */
+typedef struct
+{
+    int     used;
+    int     numActiveVoices;
+    int     maxPolyphony;
+    int     refCount;
+    int     poolCount[16];
+} S_VERIF_SYNTH;
+
+typedef struct
+{
+    int             numVoices;
+    int             numSynths;
+    int             activeVoices;
+    int             maxPolyphony;
+    S_VERIF_SYNTH   synth[VERIF_MAX_SYNTHS];
+    S_VERIF_VOICE   voice[VERIF_MAX_VOICES];
+} S_VERIF_SNAPSHOT;
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+/* copies the state of the voice manager; has no side effect */
+void EAS_VerifSnapshot (EAS_DATA_HANDLE pEASData, S_VERIF_SNAPSHOT *pOut);
+
+#ifdef __cplusplus
+}
+#endif
+
+#endif /* SONIVOX_VERIF_HOOKS */
+#endif /* _EAS_VERIF_H */
diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 847ce6c..ee1903e 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -4057,3 +4057,87 @@ EAS_RESULT VMSanityCheck (EAS_DATA_HANDLE pEASData)
 #endif
 
 
+#ifdef SONIVOX_VERIF_HOOKS
+#include "eas_verif.h"
+
+/*----------------------------------------------------------------------------
+ * EAS_VerifSnapshot()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Copies the voice manager bookkeeping for an external monitor. Read only.
+ *----------------------------------------------------------------------------
+*/
+void EAS_VerifSnapshot (EAS_DATA_HANDLE pEASData, S_VERIF_SNAPSHOT *pOut)
+{
+    const S_VOICE_MGR *pVoiceMgr = pEASData->pVoiceMgr;
+    int i;
+    int j;
+
+    EAS_HWMemSet(pOut, 0, sizeof(*pOut));
+    pOut->numVoices = MAX_SYNTH_VOICES;
+    pOut->numSynths = MAX_VIRTUAL_SYNTHESIZERS;
+    pOut->activeVoices = pVoiceMgr->activeVoices;
+    pOut->maxPolyphony = pVoiceMgr->maxPolyphony;
+
+    for (i = 0; i < MAX_VIRTUAL_SYNTHESIZERS; i++)
+    {
+        const S_SYNTH *pSynth = pVoiceMgr->pSynth[i];
+        if (pSynth == NULL)
+            continue;
+        pOut->synth[i].used = 1;
+        pOut->synth[i].numActiveVoices = pSynth->numActiveVoices;
+        pOut->synth[i].maxPolyphony = pSynth->maxPolyphony;
+        pOut->synth[i].refCount = pSynth->refCount;
+        for (j = 0; j < NUM_SYNTH_CHANNELS; j++)
+            pOut->synth[i].poolCount[j] = pSynth->poolCount[j];
+    }
+
+    for (i = 0; i < MAX_SYNTH_VOICES; i++)
+    {
+        const S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[i];
+        S_VERIF_VOICE *pV = &pOut->voice[i];
+        const S_SYNTH *pSynth;
+        EAS_U16 region = pVoice->regionIndex;
+        int chan = pVoice->channel;
+
+        pV->pool = -1;
+        switch (pVoice->voiceState)
+        {
+            case eVoiceStateFree:       pV->state = VERIF_VOICE_FREE;       continue;
+            case eVoiceStateStart:      pV->state = VERIF_VOICE_START;      break;
+            case eVoiceStatePlay:       pV->state = VERIF_VOICE_PLAY;       break;
+            case eVoiceStateRelease:    pV->state = VERIF_VOICE_RELEASE;    break;
+            case eVoiceStateMuting:     pV->state = VERIF_VOICE_MUTING;     break;
+            case eVoiceStateStolen:     pV->state = VERIF_VOICE_STOLEN;     break;
+            default:                    pV->state = VERIF_VOICE_INVALID;    break;
+        }
+        pV->vSynth = GET_VSYNTH(pVoice->channel);
+        pV->channel = GET_CHANNEL(pVoice->channel);
+        pV->note = pVoice->note;
+        pV->velocity = pVoice->velocity;
+        pV->pedalHeld = (pVoice->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) != 0;
+        pV->nextVSynth = GET_VSYNTH(pVoice->nextChannel);
+        pV->nextChannel = GET_CHANNEL(pVoice->nextChannel);
+        pV->nextNote = pVoice->nextNote;
+        if (pV->state == VERIF_VOICE_STOLEN)
+        {
+            chan = pVoice->nextChannel;
+            region = pVoice->nextRegionIndex;
+        }
+        pSynth = (GET_VSYNTH(chan) < MAX_VIRTUAL_SYNTHESIZERS) ? pVoiceMgr->pSynth[GET_VSYNTH(chan)] : NULL;
+        if (pSynth == NULL)
+            continue;
+        pV->pool = pSynth->channels[GET_CHANNEL(chan)].pool;
+#ifdef DLS_SYNTHESIZER
+        if (region & FLAG_RGN_IDX_DLS_SYNTH)
+        {
+            pV->dls = 1;
+            pV->regionValid = (pSynth->pDLS != NULL) &&
+                ((region & REGION_INDEX_MASK) < pSynth->pDLS->numDLSRegions);
+            continue;
+        }
+#endif
+        pV->regionValid = (region & REGION_INDEX_MASK) < pSynth->pEAS->numWTRegions;
+    }
+}
+#endif
-- 
2.43.0


From 60b07500d8267065caa99c941a6c4aa83b9d9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 02/82] fix: release the synthesizer and restore the file
 handle when preparing an SMF file fails

---
 arm-wt-22k/lib_src/eas_smf.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 4f8db9d..193cc89 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -179,6 +179,7 @@ EAS_RESULT SMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 {
     S_SMF_DATA* pSMFData;
     EAS_RESULT result;
+    EAS_I32 i;
 
     /* check for valid state */
     pSMFData = (S_SMF_DATA *) pInstData;
@@ -194,7 +195,29 @@ EAS_RESULT SMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* parse the file header and setup the individual stream parsers */
     if ((result = SMF_ParseHeader(pEASData->hwInstData, pSMFData)) != EAS_SUCCESS)
+    {
+        /* keep one file handle and release everything else, so that
+         * the file can be closed, or prepared again */
+        for (i = 0; i < pSMFData->numStreams; i++)
+        {
+            if (pSMFData->streams[i].fileHandle == NULL)
+                continue;
+            if (pSMFData->fileHandle == NULL)
+                pSMFData->fileHandle = pSMFData->streams[i].fileHandle;
+            else
+                EAS_HWCloseFile(pEASData->hwInstData, pSMFData->streams[i].fileHandle);
+            pSMFData->streams[i].fileHandle = NULL;
+        }
+        pSMFData->numStreams = 0;
+        if (!pEASData->staticMemoryModel && pSMFData->streams)
+        {
+            EAS_HWFree(pEASData->hwInstData, pSMFData->streams);
+            pSMFData->streams = NULL;
+        }
+        VMMIDIShutdown(pEASData, pSMFData->pSynth);
+        pSMFData->pSynth = NULL;
         return result;
+    }
 
     /* ready to play */
     pSMFData->state = EAS_STATE_READY;
-- 
2.43.0


From 388005897a6ee740957e0d764ba3f1e8528a0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 03/82] fix: do not clear SMF instance data that could not be
 allocated

---
 arm-wt-22k/lib_src/eas_smf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 193cc89..957bd0e 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -141,7 +141,8 @@ EAS_RESULT SMF_CheckFileType (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle,
     else
     {
         pSMFData = EAS_HWMalloc(pEASData->hwInstData, sizeof(S_SMF_DATA));
-        EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
+        if (pSMFData)
+            EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
     }
     if (!pSMFData)
         return EAS_ERROR_MALLOC_FAILED;
-- 
2.43.0


From fb9be3f41f5784a590c18ae9f92c596a60056a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 04/82] fix: accept live MIDI stream handles in the stream
 setting calls instead of dereferencing a null parser

---
 arm-wt-22k/lib_src/eas_public.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a0b183c..4eec5be 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -102,7 +102,11 @@ EAS_RESULT EAS_SetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
 {
     S_FILE_PARSER_INTERFACE *pParserModule;
 
+    /* live MIDI streams have no parser */
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if (pParserModule == NULL)
+        return EAS_ERROR_FEATURE_NOT_AVAILABLE;
+
     if (pParserModule->pfSetData)
         return (*pParserModule->pfSetData)(pEASData, pStream->handle, param, value);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
@@ -124,7 +128,17 @@ EAS_RESULT EAS_GetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
 {
     S_FILE_PARSER_INTERFACE *pParserModule;
 
+    /* live MIDI streams have no parser, only a synth */
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if (pParserModule == NULL)
+    {
+        if (param != PARSER_DATA_SYNTH_HANDLE)
+            return EAS_ERROR_FEATURE_NOT_AVAILABLE;
+        /*lint -e{740} we are cheating by passing a pointer through this interface */
+        *pValue = (EAS_I32) ((S_INTERACTIVE_MIDI*) pStream->handle)->pSynth;
+        return EAS_SUCCESS;
+    }
+
     if (pParserModule->pfGetData)
         return (*pParserModule->pfGetData)(pEASData, pStream->handle, param, pValue);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
@@ -145,7 +159,11 @@ EAS_BOOL EAS_StreamReady (S_EAS_DATA *pEASData, EAS_HANDLE pStream)
     S_FILE_PARSER_INTERFACE *pParserModule;
     EAS_STATE state;
 
+    /* live MIDI streams are always ready */
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if (pParserModule == NULL)
+        return (pStream->handle != NULL);
+
     if (pParserModule->pfState(pEASData, pStream->handle, &state) != EAS_SUCCESS)
         return EAS_FALSE;
     return (state < EAS_STATE_OPEN);
@@ -1566,8 +1584,13 @@ EAS_PUBLIC EAS_RESULT EAS_OpenMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE *
     {
         EAS_I32 value;
         result = EAS_GetStreamParameter(pEASData, streamHandle, PARSER_DATA_SYNTH_HANDLE, &value);
-        pMIDIStream->pSynth = (S_SYNTH*) value;
-        VMIncRefCount(pMIDIStream->pSynth);
+        if ((result == EAS_SUCCESS) && (value == 0))
+            result = EAS_ERROR_NOT_VALID_IN_THIS_STATE;
+        if (result == EAS_SUCCESS)
+        {
+            pMIDIStream->pSynth = (S_SYNTH*) value;
+            VMIncRefCount(pMIDIStream->pSynth);
+        }
     }
     if (result != EAS_SUCCESS)
     {
-- 
2.43.0


From 1489b166aeac89a7c605b1d0eae0327dc4f45a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 05/82] fix: do not parse four bytes past the end of DLS list
 chunks

---
 arm-wt-22k/lib_src/eas_mdls.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 1595b60..b35d89b 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -942,7 +942,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     pos = chunkPos;
-    endChunk = pos + size;
+    endChunk = pos + size - 4;
     while (pos < endChunk)
     {
         chunkPos = pos;
@@ -1435,7 +1435,7 @@ static EAS_RESULT Parse_lins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             }
         }
 
-        if ((result = Parse_ins(pDLSData, chunkPos + 12, size)) != EAS_SUCCESS)
+        if ((result = Parse_ins(pDLSData, chunkPos + 12, size - 4)) != EAS_SUCCESS)
             return result;
     }
 
@@ -1501,17 +1501,17 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
             case CHUNK_LART:
                 lartPos = chunkPos + 12;
-                lartSize = size;
+                lartSize = size - 4;
                 break;
 
             case CHUNK_LAR2:
                 lar2Pos = chunkPos + 12;
-                lar2Size = size;
+                lar2Size = size - 4;
                 break;
 
             case CHUNK_LRGN:
                 lrgnPos = chunkPos + 12;
-                lrgnSize = size;
+                lrgnSize = size - 4;
                 break;
 
             default:
@@ -1688,7 +1688,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
                     return EAS_ERROR_DATA_INCONSISTENCY;
                 }
             }
-            if ((result = Parse_rgn(pDLSData, chunkPos + 12, size, artIndex)) != EAS_SUCCESS)
+            if ((result = Parse_rgn(pDLSData, chunkPos + 12, size - 4, artIndex)) != EAS_SUCCESS)
                 return result;
             regionCount++;
         }
@@ -1778,12 +1778,12 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
             case CHUNK_LART:
                 lartPos = chunkPos + 12;
-                lartSize = size;
+                lartSize = size - 4;
                 break;
 
             case CHUNK_LAR2:
                 lar2Pos = chunkPos + 12;
-                lar2Size = size;
+                lar2Size = size - 4;
                 break;
 
             default:
-- 
2.43.0


From e88bbc2f181749d32efcb239611750e8fedfbbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 06/82] fix: reject DLS waves with a sample rate of zero

---
 arm-wt-22k/lib_src/eas_mdls.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index b35d89b..dfe70ce 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1219,6 +1219,8 @@ static EAS_RESULT Parse_fmt (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WSM
     /* get sample rate */
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &p->sampleRate, EAS_FALSE)) != EAS_SUCCESS)
         return result;
+    if (p->sampleRate == 0)
+        return EAS_ERROR_FILE_FORMAT;
 
     /* bytes/sec */
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
-- 
2.43.0


From 0ef274f60aeece67bd7fe9e6fb2454116be1cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 07/82] fix: do not play past the regions of a DLS instrument
 with ignored or skipped regions

---
 arm-wt-22k/lib_src/eas_mdls.c | 48 ++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index dfe70ce..7ea535b 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1428,15 +1428,6 @@ static EAS_RESULT Parse_lins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         if (temp != CHUNK_INS)
             continue;
 
-        /* if second pass, ensure instCount is less than numDLSPrograms */
-        if (pDLSData->pDLS)
-        {
-            if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
-            {
-                return EAS_ERROR_DATA_INCONSISTENCY;
-            }
-        }
-
         if ((result = Parse_ins(pDLSData, chunkPos + 12, size - 4)) != EAS_SUCCESS)
             return result;
     }
@@ -1476,6 +1467,7 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     S_DLS_ART_VALUES art;
     S_PROGRAM *pProgram;
     EAS_U16 artIndex;
+    EAS_U32 firstRegion;
 
     /* seek to start of chunk */
     if ((result = EAS_HWFileSeek(pDLSData->hwInstData, pDLSData->fileHandle, pos)) != EAS_SUCCESS)
@@ -1559,21 +1551,35 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     {
 
         if (art.values[PARAM_MODIFIED])
+        {
+            /* ensure artIndex is less than numDLSArticulations */
+            if (artIndex >= pDLSData->pDLS->numDLSArticulations)
+                return EAS_ERROR_DATA_INCONSISTENCY;
             Convert_art(pDLSData, &art, artIndex);
-
-        /* setup pointers */
-        pProgram = &pDLSData->pDLS->pDLSPrograms[pDLSData->instCount];
-
-        /* initialize instrument */
-        pProgram->locale = locale;
-        pProgram->regionIndex = (EAS_U16) pDLSData->regionCount | FLAG_RGN_IDX_DLS_SYNTH;
-
+        }
     }
 
     /* parse the region data */
+    firstRegion = pDLSData->regionCount;
     if ((result = Parse_lrgn(pDLSData, lrgnPos, lrgnSize, artIndex, regionCount)) != EAS_SUCCESS)
         return result;
 
+    /* an instrument without any usable region cannot be played, ignore it */
+    if (pDLSData->regionCount == firstRegion)
+        return EAS_SUCCESS;
+
+    /* initialize instrument on second pass */
+    if (pDLSData->pDLS)
+    {
+        /* ensure instCount is less than numDLSPrograms */
+        if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
+            return EAS_ERROR_DATA_INCONSISTENCY;
+
+        pProgram = &pDLSData->pDLS->pDLSPrograms[pDLSData->instCount];
+        pProgram->locale = locale;
+        pProgram->regionIndex = (EAS_U16) firstRegion | FLAG_RGN_IDX_DLS_SYNTH;
+    }
+
     /* bump instrument count */
     pDLSData->instCount++;
     return EAS_SUCCESS;
@@ -1659,6 +1665,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     EAS_I32 chunkPos;
     EAS_I32 endChunk;
     EAS_U16 regionCount;
+    EAS_U32 firstRegion;
 
     /* seek to start of chunk */
     if ((result = EAS_HWFileSeek(pDLSData->hwInstData, pDLSData->fileHandle, pos)) != EAS_SUCCESS)
@@ -1666,6 +1673,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     regionCount = 0;
+    firstRegion = pDLSData->regionCount;
     endChunk = pos + size;
     while (pos < endChunk)
     {
@@ -1680,7 +1688,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             if (regionCount == numRegions)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "DLS region count exceeded cRegions value in insh, extra region ignored\n"); */ }
-                return EAS_SUCCESS;
+                break;
             }
             /* if second pass, ensure regionCount is less than numDLSRegions */
             if (pDLSData->pDLS)
@@ -1696,8 +1704,8 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         }
     }
 
-    /* set a flag in the last region */
-    if ((pDLSData->pDLS != NULL) && (regionCount > 0))
+    /* set a flag in the last region, regions skipped by a conditional chunk do not count */
+    if ((pDLSData->pDLS != NULL) && (pDLSData->regionCount > firstRegion))
         pDLSData->pDLS->pDLSRegions[pDLSData->regionCount - 1].wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION;
 
     return EAS_SUCCESS;
-- 
2.43.0


From a2f51295d059f7d6cac91f3b2b66842d4ebdd305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 08/82] fix: keep DLS waves aligned after a 16-bit wave with an
 odd data size

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 7ea535b..9253dac 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1016,6 +1016,10 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     if ((result = Parse_fmt(pDLSData, fmtPos, p)) != EAS_SUCCESS)
         return result;
 
+    /* ignore an incomplete 16-bit sample, the next wave must stay aligned */
+    if (p->bitsPerSample == 16)
+        dataSize &= ~(EAS_I32) 1;
+
     /* calculate the size of the wavetable needed. We need only half
      * the memory for 16-bit samples when in 8-bit mode, and we need
      * double the memory for 8-bit samples in 16-bit mode. For
-- 
2.43.0


From cf494e2165cadaa50dcf2e5909c337248190d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 09/82] fix: copy the loop start sample of 16-bit DLS waves to
 the loop end, not into the middle of the wave

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 9253dac..f7e6266 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1375,16 +1375,12 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     /* for looped samples, copy the last sample to the end */
     if (pWsmp->loopLength)
     {
-        if( (pDLSData->wavePoolOffset + pWsmp->loopLength) >= pDLSData->wavePoolSize )
-        {
-            return EAS_SUCCESS;
-        }
         if (sampleLen < sizeof(EAS_SAMPLE)
             || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - sizeof(EAS_SAMPLE)) {
             return EAS_FAILURE;
         }
 
-        pSample[(pWsmp->loopStart + pWsmp->loopLength)>>1] = pSample[(pWsmp->loopStart)>>1];
+        pSample[pWsmp->loopStart + pWsmp->loopLength] = pSample[pWsmp->loopStart];
     }
 
     return EAS_SUCCESS;
-- 
2.43.0


From 14d0b5c670c3d30913eb0198d90ae39fbe6316af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 10/82] fix: honour the attenuation of DLS waves and regions
 when EAS_I32 is 64 bits wide

---
 arm-wt-22k/lib_src/eas_mdls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index f7e6266..e8edc96 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1123,8 +1123,9 @@ static EAS_RESULT Parse_wsmp (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WS
         return result;
 
     /* get gain */
-    if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &p->gain, EAS_FALSE)) != EAS_SUCCESS)
+    if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
         return result;
+    p->gain = (int32_t) ltemp;
     if (p->gain > 0)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "Positive gain [%ld] in DLS wsmp ignored, set to 0dB\n", p->gain); */ }
-- 
2.43.0


From e5de30614359ea9e97484baf2aef52a79122d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 11/82] fix: close the duplicate file handle when a DLS wave
 cannot be parsed

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index e8edc96..e57154a 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -877,7 +877,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* get the offset to the wave and make sure it is within the wtbl chunk */
         if ((result = EAS_HWGetDWord(pDLSData->hwInstData, tempFile, &temp, EAS_FALSE)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
         if (temp > (EAS_U32) wtblSize)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Ptbl offset exceeds size of wtbl\n"); */ }
@@ -887,7 +890,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* parse the wave */
         if ((result = Parse_wave(pDLSData, wtblPos +(EAS_I32)  temp, waveIndex)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
     }
 
     /* close the temporary handle and return */
-- 
2.43.0


From 540983268b524012c7465fb730d60e72cfeb7af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 12/82] fix: stop evaluating a DLS conditional chunk at its end

---
 arm-wt-22k/lib_src/eas_mdls.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index e57154a..0f059a7 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2314,6 +2314,8 @@ static EAS_RESULT ReadDLSID (SDLS_SYNTHESIZER_DATA *pDLSData, DLSID *pDLSID)
     EAS_RESULT result;
     EAS_I32 n;
 
+    /* the structure is compared as a whole, including any padding */
+    EAS_HWMemSet(pDLSID, 0, sizeof(DLSID));
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data1, EAS_FALSE)) != EAS_SUCCESS)
         return result;
     if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data2, EAS_FALSE)) != EAS_SUCCESS)
@@ -2349,9 +2351,10 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
     stackPtr = -1;
     *pValue = 0;
     x = 0;
-    while (size)
+    while (size > 0)
     {
         /* read the opcode */
+        size -= 2;
         if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &opcode, EAS_FALSE)) != EAS_SUCCESS)
             return result;
 
@@ -2423,12 +2426,14 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
 
         else if (opcode == DLS_CDL_CONST)
         {
+            size -= 4;
             if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &x, EAS_FALSE)) != EAS_SUCCESS)
                 return result;
         }
 
         else if (opcode == DLS_CDL_QUERY)
         {
+            size -= 16;
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
             QueryGUID(&dlsid, &x);
@@ -2436,6 +2441,7 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
 
         else if (opcode == DLS_CDL_QUERYSUPPORTED)
         {
+            size -= 16;
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
             x = QueryGUID(&dlsid, &y);
-- 
2.43.0


From bdb0a3ff9a4e9673e22666e832c8e9ca00ae3b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 13/82] fix: settle voices stolen between streams when one of
 the streams is reset or closed

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index ee1903e..8fc4b76 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -118,6 +118,9 @@ const S_FRAME_INTERFACE *const pFrameInterface = &fmFrameInterface;
 #error "Undefined architecture option"
 #endif
 
+/* prototypes for functions used before they are defined */
+static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum);
+
 /*----------------------------------------------------------------------------
  * inline functions
  *----------------------------------------------------------------------------
@@ -439,6 +442,8 @@ void VMIncRefCount (S_SYNTH *pSynth)
 */
 void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
 {
+    S_SYNTH_VOICE *pVoice;
+    EAS_INT voiceNum;
 
 #ifdef _DEBUG_VM
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMReset: request to reset synth. Force = %d\n", force); */ }
@@ -447,6 +452,23 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     /* force voices to off state - may cause audio artifacts */
     if (force)
     {
+        /* settle stolen voices that are moving from or to another synth */
+        for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
+        {
+            pVoice = &pVoiceMgr->voices[voiceNum];
+            if ((pVoice->voiceState != eVoiceStateStolen) ||
+                (GET_VSYNTH(pVoice->channel) == GET_VSYNTH(pVoice->nextChannel)))
+                continue;
+
+            /* the voice is leaving this synth, start the new note right away */
+            if (GET_VSYNTH(pVoice->channel) == pSynth->vSynthNum)
+                VMRetargetStolenVoice(pVoiceMgr, voiceNum);
+
+            /* the new note belongs to this synth, drop it */
+            else if (GET_VSYNTH(pVoice->nextChannel) == pSynth->vSynthNum)
+                VMMuteVoice(pVoiceMgr, voiceNum);
+        }
+
         pVoiceMgr->activeVoices -= pSynth->numActiveVoices;
         pSynth->numActiveVoices = 0;
         VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
@@ -3781,6 +3803,9 @@ void VMMIDIShutdown (S_EAS_DATA *pEASData, S_SYNTH *pSynth)
 
     vSynthNum = pSynth->vSynthNum;
 
+    /* silence all voices before the sound libraries they use are released */
+    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+
     /* cleanup DLS load */
 #ifdef DLS_SYNTHESIZER
     /*lint -e{550} result used only in debugging code */
@@ -3793,8 +3818,6 @@ void VMMIDIShutdown (S_EAS_DATA *pEASData, S_SYNTH *pSynth)
     }
 #endif
 
-    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
-
     /* check Configuration Module for static memory allocation */
     if (!pEASData->staticMemoryModel)
         EAS_HWFree(pEASData->hwInstData, pSynth);
-- 
2.43.0


From 7b471c38fc8f9cf31ebc7fb11c7f097e2f828a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 14/82] fix: release a replaced or refused DLS collection and
 silence the voices that still play it

---
 arm-wt-22k/lib_src/eas_public.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 4eec5be..6b5c008 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -201,11 +201,20 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #ifdef DLS_SYNTHESIZER
         case PARSER_DATA_DLS_COLLECTION:
             {
-                EAS_RESULT result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
+                S_DLS *pOldDLS = pSynth->pDLS;
+                EAS_RESULT result;
+
+                /* voices may still be playing from the collection that is replaced */
+                if (pOldDLS != NULL)
+                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+
+                result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
                 if (result == EAS_SUCCESS)
                 {
                     DLSAddRef((S_DLS*) value);
                     VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
+                    if (pOldDLS != NULL)
+                        DLSCleanup(pEASData->hwInstData, pOldDLS);
                 }
                 return result;
             }
@@ -2496,8 +2505,13 @@ EAS_PUBLIC EAS_RESULT EAS_LoadDLSCollection (EAS_DATA_HANDLE pEASData, EAS_HANDL
 
         /* if a stream pStream is specified, point it to the DLS collection */
         if (pStream)
+        {
             result = EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_DLS_COLLECTION, (EAS_I32) pDLS);
 
+            /* the stream holds its own reference, the collection is freed if it was not accepted */
+            DLSCleanup(pEASData->hwInstData, pDLS);
+        }
+
         /* global DLS load */
         else
             result = VMSetGlobalDLSLib(pEASData, pDLS);
-- 
2.43.0


From 885a954dc2244779f7cbbcd3e5d36db814254693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 15/82] fix: keep the voice pool counts balanced when all notes
 of a channel are turned off

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 8fc4b76..6afd11f 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1027,8 +1027,7 @@ void VMAllNotesOff (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
                 ((pVoice->voiceState == eVoiceStateStolen) && (channel == pVoice->nextChannel)))
             {
                 /* this voice is assigned to the requested channel */
-                GetSynthPtr(voiceNum)->pfMuteVoice(pVoiceMgr, pSynth, pVoice, GetAdjustedVoiceNum(voiceNum));
-                pVoice->voiceState = eVoiceStateMuting;
+                VMMuteVoice(pVoiceMgr, voiceNum);
             }
         }
     }
-- 
2.43.0


From e002527235176b7202658a6bc60522ef476aa0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 16/82] fix: keep the voice pool counts balanced while a MIP
 message is processed

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 6afd11f..4b3e5c2 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -684,6 +684,7 @@ void VMReleaseVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 voiceNum)
 void VMInitMIPTable (S_SYNTH *pSynth)
 {
     EAS_INT i;
+    EAS_INT voices;
 
 #ifdef _DEBUG_VM
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMInitMIPTable\n"); */ }
@@ -691,11 +692,17 @@ void VMInitMIPTable (S_SYNTH *pSynth)
 
     /* clear SP-MIDI flag */
     pSynth->synthFlags &= ~SYNTH_FLAG_SP_MIDI_ON;
+    voices = 0;
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
     {
         pSynth->channels[i].pool = 0;
         pSynth->channels[i].mip = 0;
+        voices += pSynth->poolCount[i];
+        pSynth->poolCount[i] = 0;
     }
+
+    /* all voices share the first pool now */
+    pSynth->poolCount[0] = (EAS_U8) voices;
 }
 
 /*----------------------------------------------------------------------------
@@ -704,9 +711,10 @@ void VMInitMIPTable (S_SYNTH *pSynth)
  * Sets the priority and MIP level for a MIDI channel
  *----------------------------------------------------------------------------
 */
-/*lint -esym(715, pVoiceMgr) reserved for future use */
 void VMSetMIPEntry (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_U8 priority, EAS_U8 mip)
 {
+    S_SYNTH_VOICE *pVoice;
+    EAS_INT voiceNum;
 
 #ifdef _DEBUG_VM
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMSetMIPEntry: channel=%d, priority=%d, MIP=%d\n", channel, priority, mip); */ }
@@ -715,6 +723,18 @@ void VMSetMIPEntry (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS
     /* save data for use by MIP message processing */
     if (priority < NUM_SYNTH_CHANNELS)
     {
+        /* the voices of the channel move to the new pool */
+        for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
+        {
+            pVoice = &pVoiceMgr->voices[voiceNum];
+            if ((pVoice->voiceState == eVoiceStateFree) || (pVoice->voiceState == eVoiceStateMuting))
+                continue;
+            if (((pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel) == VSynthToChannel(pSynth, channel))
+            {
+                pSynth->poolCount[pSynth->channels[channel].pool]--;
+                pSynth->poolCount[priority]++;
+            }
+        }
         pSynth->channels[channel].pool = priority;
         pSynth->channels[channel].mip = mip;
     }
@@ -803,7 +823,7 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
         }
 
         /* not muted, count this voice */
-        else
+        else if (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting)
             pSynth->poolCount[pool]++;
     }
 }
-- 
2.43.0


From 171ad94b46b503d042b55bf162b8abd1adbd9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 17/82] fix: complete a reset when it is requested instead of
 undoing the messages that follow it

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 29 +----------------------------
 1 file changed, 1 insertion(+), 28 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 4b3e5c2..abbfe21 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -476,8 +476,7 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     else
         VMMuteAllVoices(pVoiceMgr, pSynth);
 
-    /* don't reset if voices are still playing */
-    if (pSynth->numActiveVoices == 0)
+    /* voices that are still ramping down keep their own parameters */
     {
         EAS_INT i;
 
@@ -494,14 +493,7 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
             pSynth->poolAlloc[0] = (EAS_U8) pVoiceMgr->maxPolyphony;
         else
             pSynth->poolAlloc[0] = (EAS_U8) pSynth->maxPolyphony;
-
-        /* clear reset flag */
-        pSynth->synthFlags &= ~SYNTH_FLAG_RESET_IS_REQUESTED;
     }
-
-    /* handle reset after voices are muted */
-    else
-        pSynth->synthFlags |= SYNTH_FLAG_RESET_IS_REQUESTED;
 }
 
 /*----------------------------------------------------------------------------
@@ -3030,25 +3022,6 @@ EAS_RESULT VMRender (S_VOICE_MGR *pVoiceMgr, EAS_I32 numSamples, EAS_I32 *pMixBu
         if (pSynth->synthFlags & SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING)
             VMDeferredStopNote(pVoiceMgr, pSynth);
 
-        /* check if we need to reset the synth */
-        if ((pSynth->synthFlags & SYNTH_FLAG_RESET_IS_REQUESTED) &&
-            (pSynth->numActiveVoices == 0))
-        {
-            /*
-            complete the process of resetting the synth now that
-            all voices have muted
-            */
-#ifdef _DEBUG_VM
-            { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMAddSamples: complete the reset process\n"); */ }
-#endif
-
-            VMInitializeAllChannels(pVoiceMgr, pSynth);
-            VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
-
-            /* clear the reset flag */
-            pSynth->synthFlags &= ~SYNTH_FLAG_RESET_IS_REQUESTED;
-        }
-
         /* clear channel update flags */
         for (channel = 0; channel < NUM_SYNTH_CHANNELS; channel++)
             pSynth->channels[channel].channelFlags &= ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
-- 
2.43.0


From 31ff8016d9610bf549e801512d4e57a3d6edca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 18/82] fix: keep voice pools and held notes consistent when
 all channels are initialized

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index abbfe21..8978379 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -515,11 +515,22 @@ void VMInitializeAllChannels (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
 
     VMResetControllers(pSynth);
 
+    /* all channels return to pool 0, and so do the voices playing on them */
+    for (i = 1; i < NUM_SYNTH_CHANNELS; i++)
+    {
+        pSynth->poolCount[0] = (EAS_U8) (pSynth->poolCount[0] + pSynth->poolCount[i]);
+        pSynth->poolCount[i] = 0;
+    }
+
     /* init each channel */
     pChannel = pSynth->channels;
 
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++, pChannel++)
     {
+        /* the pedals are lifted, let the notes go they were holding */
+        if (pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
+            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, (EAS_U8) i);
+
         pChannel->channelFlags = DEFAULT_CHANNEL_FLAGS;
         pChannel->staticGain = DEFAULT_CHANNEL_STATIC_GAIN;
         pChannel->staticPitch = DEFAULT_CHANNEL_STATIC_PITCH;
-- 
2.43.0


From b1180a721db56f91fe3078f4c7748e572528cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 19/82] fix: mute the voices of the stream whose polyphony is
 lowered, not those of another stream

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 8978379..25db687 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3377,16 +3377,13 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     else
         pSynth->poolAlloc[0] = (EAS_U8) polyphonyCount;
 
-    /* are we under polyphony limit? */
-    if (pSynth->numActiveVoices <= polyphonyCount)
-        return EAS_SUCCESS;
-
     /* count the number of active voices */
     activeVoices = 0;
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
-        /* this synth? */
-        if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) != pSynth->vSynthNum)
+        /* this synth? for stolen voices, check new channel */
+        if (GET_VSYNTH((pVoiceMgr->voices[i].voiceState == eVoiceStateStolen) ?
+            pVoiceMgr->voices[i].nextChannel : pVoiceMgr->voices[i].channel) != pSynth->vSynthNum)
             continue;
 
         /* is voice active? */
@@ -3400,6 +3397,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         S_SYNTH_VOICE *pVoice;
         EAS_I32 currentPriority, bestPriority;
         EAS_INT bestCandidate;
+        EAS_U8 currChannel;
 
         /* find the lowest priority voice */
         bestPriority = bestCandidate = -1;
@@ -3407,8 +3405,15 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         {
             pVoice = &pVoiceMgr->voices[i];
 
+            /* ignore free and muting voices */
+            if ((pVoice->voiceState == eVoiceStateFree) || (pVoice->voiceState == eVoiceStateMuting))
+                continue;
+
+            /* for stolen voices, check new channel */
+            currChannel = (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
+
             /* this synth? */
-            if (GET_VSYNTH(pVoice->nextChannel) != pSynth->vSynthNum)
+            if (GET_VSYNTH(currChannel) != pSynth->vSynthNum)
                 continue;
 
             /* if voice is stolen or just started, reduce the likelihood it will be stolen */
@@ -3418,7 +3423,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                 currentPriority = 128 - pVoice->nextVelocity;
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(currChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
             else
             {
@@ -3431,7 +3436,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                     ((EAS_I32) pVoice->gain >> (12 - NOTE_GAIN_STEAL_WEIGHT));
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(currChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
             /* is this the best choice so far? */
-- 
2.43.0


From 13b53694dd15213c5a7f71f94311abae10158286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 20/82] fix: leave a stolen voice muting when it is released

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 25db687..593eb0c 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -671,7 +671,10 @@ void VMReleaseVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 voiceNum)
 
     /* stolen voices should just be muted */
     if (pVoice->voiceState == eVoiceStateStolen)
+    {
         VMMuteVoice(pVoiceMgr, voiceNum);
+        return;
+    }
 
     /* release this voice */
     GetSynthPtr(voiceNum)->pfReleaseVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], GetAdjustedVoiceNum(voiceNum));
-- 
2.43.0


From 9f2551047c575ce2ebfb7a1241ca45b88dfa5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 21/82] fix: look up the MIDI channel, not the synthesizer's
 channel id, when the sustain pedal catches notes

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 593eb0c..de49004 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1267,7 +1267,7 @@ void VMCatchNotesForSustainPedal (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U
         if (channel == pVoiceMgr->voices[voiceNum].channel)
         {
             if (eVoiceStateRelease == pVoiceMgr->voices[voiceNum].voiceState)
-                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
+                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[GET_CHANNEL(channel)], GetAdjustedVoiceNum(voiceNum));
         }
     }
 }
-- 
2.43.0


From 642b38f4bacf758aa49f0a4ed8179897e785fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 22/82] fix: hold a deferred note-off for the pedal of the
 voice's own channel until the pedal is lifted

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index de49004..948c0dc 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1090,6 +1090,11 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     {
         if (pVoiceMgr->voices[voiceNum].voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF)
         {
+            /* voices of other synths are handled with the state of their own channels */
+            if (GET_VSYNTH((pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen) ?
+                pVoiceMgr->voices[voiceNum].nextChannel : pVoiceMgr->voices[voiceNum].channel) != pSynth->vSynthNum)
+                continue;
+
             /* check if this voice was stolen */
             if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen)
             {
@@ -1143,7 +1148,7 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
                 /* check if sustain pedal is on */
                 if (pSynth->channels[channel].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
                 {
-                    GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
+                    pVoiceMgr->voices[voiceNum].voiceFlags |= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;
                 }
 
                 /* release this voice */
-- 
2.43.0


From 25bdc2182ae860e570357c60ea8ce9d14ca34b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 23/82] fix: release the notes held by the sustain pedal when
 the controllers are reset

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 948c0dc..0e1d297 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2387,6 +2387,8 @@ void VMControlChange (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, E
         pChannel->expression = DEFAULT_EXPRESSION;
 
         /* turn the sustain pedal off as default/reset */
+        if (pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
+            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, channel);
         pChannel->channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;
         pChannel->pitchBend = DEFAULT_PITCH_BEND;
 
-- 
2.43.0


From 7f826d4f93b51180c1dd52e7461bfaf845ccbc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 24/82] fix: check the mute flag of the channel a stolen voice
 is going to play on

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 0e1d297..13db7d3 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1424,7 +1424,6 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
     /* establish some pointers */
     pVoice = &pVoiceMgr->voices[voiceNum];
     pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)];
-    pMIDIChannel = &pSynth->channels[pVoice->channel & 15];
     pNextSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->nextChannel)];
 
 #ifdef _DEBUG_VM
@@ -1436,7 +1435,8 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
 #endif
 
     /* make sure new channel hasn't been muted by SP-MIDI since the voice was stolen */
-    if ((pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
+    pMIDIChannel = &pNextSynth->channels[GET_CHANNEL(pVoice->nextChannel)];
+    if ((pNextSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
         (pMIDIChannel->channelFlags & CHANNEL_FLAG_MUTE))
     {
         VMFreeVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum]);
@@ -1455,7 +1455,6 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
 
     /* assign new channel number, and increase channel voice count */
     pVoice->channel = pVoice->nextChannel;
-    pMIDIChannel = &pNextSynth->channels[pVoice->channel & 15];
 
     /* assign other data */
     pVoice->note = pVoice->nextNote;
-- 
2.43.0


From 3c805511108775bf7eeb56acae55fc774e700cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 25/82] fix: do not exceed a polyphony limit when a voice is
 stolen from another stream or while it is muting

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 64 ++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 13db7d3..be1df86 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1601,6 +1601,10 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
     /* examine each voice on this channel playing this note */
     for (voiceNum = lowVoice; voiceNum <= highVoice; voiceNum++)
     {
+        /* voices that are being muted do not play the note any more */
+        if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateMuting)
+            continue;
+
         /* check stolen notes separately */
         if (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateStolen)
         {
@@ -1652,6 +1656,36 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
     return EAS_FALSE;
 }
 
+/*----------------------------------------------------------------------------
+ * VMCountVoices()
+ *----------------------------------------------------------------------------
+ * Count the voices in use, and those of them that are not being muted.
+ * Stolen voices belong to the synth that is going to play on them.
+ *
+ * Inputs:
+ * pSynth - synth to count, or NULL to count the voices of all synths
+ *----------------------------------------------------------------------------
+*/
+static void VMCountVoices (S_VOICE_MGR *pVoiceMgr, const S_SYNTH *pSynth, EAS_INT *pUsed, EAS_INT *pSounding)
+{
+    EAS_INT voiceNum;
+
+    *pUsed = *pSounding = 0;
+    for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
+    {
+        const S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[voiceNum];
+
+        if (pVoice->voiceState == eVoiceStateFree)
+            continue;
+        if ((pSynth != NULL) &&
+            (GET_VSYNTH((pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel) != pSynth->vSynthNum))
+            continue;
+        (*pUsed)++;
+        if (pVoice->voiceState != eVoiceStateMuting)
+            (*pSounding)++;
+    }
+}
+
 /*----------------------------------------------------------------------------
  * VMStartVoice()
  *----------------------------------------------------------------------------
@@ -1664,6 +1698,7 @@ void VMStartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_
     S_SYNTH_CHANNEL *pChannel;
     EAS_INT voiceNum;
     EAS_INT maxSynthPoly;
+    EAS_INT voicesUsed, voicesSounding;
     EAS_I32 lowVoice, highVoice;
     EAS_U16 keyGroup;
 
@@ -1718,10 +1753,11 @@ void VMStartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_
         maxSynthPoly = pVoiceMgr->maxPolyphony;
     else
         maxSynthPoly = pSynth->maxPolyphony;
+    VMCountVoices(pVoiceMgr, pSynth, &voicesUsed, &voicesSounding);
 
     /* any free voices? */
     if ((pVoiceMgr->activeVoices < pVoiceMgr->maxPolyphony) &&
-        (pSynth->numActiveVoices < maxSynthPoly) &&
+        (voicesUsed < maxSynthPoly) &&
         (EAS_SUCCESS == VMFindAvailableVoice(pVoiceMgr, &voiceNum, lowVoice, highVoice)))
     {
         S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[voiceNum];
@@ -2071,6 +2107,24 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
     EAS_U8 currNote;
     EAS_I32 bestPriority;
     EAS_I32 currentPriority;
+    EAS_INT maxSynthPoly;
+    EAS_INT synthUsed, synthSounding;
+    EAS_INT totalUsed, totalSounding;
+    EAS_BOOL ownVoicesOnly;
+    EAS_BOOL soundingVoicesOnly;
+
+    /*
+    taking a voice that is being muted adds a sounding voice, taking one from
+    another synth adds a voice to this one: neither may exceed the limits
+    */
+    if ((pSynth->maxPolyphony == 0) || (pVoiceMgr->maxPolyphony < pSynth->maxPolyphony))
+        maxSynthPoly = pVoiceMgr->maxPolyphony;
+    else
+        maxSynthPoly = pSynth->maxPolyphony;
+    VMCountVoices(pVoiceMgr, pSynth, &synthUsed, &synthSounding);
+    VMCountVoices(pVoiceMgr, NULL, &totalUsed, &totalSounding);
+    soundingVoicesOnly = (synthSounding >= maxSynthPoly) || (totalSounding >= pVoiceMgr->maxPolyphony);
+    ownVoicesOnly = (synthUsed >= maxSynthPoly) && ((soundingVoicesOnly ? synthSounding : synthUsed) > 0);
 
     /* determine which voice to steal */
     bestPriority = 0;
@@ -2084,6 +2138,10 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
         if (pCurrVoice->voiceState == eVoiceStateFree)
             continue;
 
+        /* ignore muting voices */
+        if (soundingVoicesOnly && (pCurrVoice->voiceState == eVoiceStateMuting))
+            continue;
+
         /* for stolen voices, use the new parameters, not the old */
         if (pCurrVoice->voiceState == eVoiceStateStolen)
         {
@@ -2098,6 +2156,10 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
             currNote = pCurrVoice->note;
         }
 
+        /* ignore voices of other synths */
+        if (ownVoicesOnly && (pCurrSynth != pSynth))
+            continue;
+
         /* ignore voices that are higher priority */
         if (pSynth->priority > pCurrSynth->priority)
             continue;
-- 
2.43.0


From 9c4aedc789ae31bf8e2becbe7df0de96984d8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 26/82] fix: do not take a free voice for one that plays the
 note (synthesizer 1, channel 0, note 105)

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index be1df86..5d77f2c 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1601,8 +1601,9 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
     /* examine each voice on this channel playing this note */
     for (voiceNum = lowVoice; voiceNum <= highVoice; voiceNum++)
     {
-        /* voices that are being muted do not play the note any more */
-        if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateMuting)
+        /* free voices and voices that are being muted do not play the note */
+        if ((pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateFree) ||
+            (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateMuting))
             continue;
 
         /* check stolen notes separately */
-- 
2.43.0


From b9e69589822048a002964a9eb119e1ba1cedfc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 27/82] fix: reject negative effects module numbers

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 6b5c008..ff99afd 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2296,7 +2296,7 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
 EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 *pValue)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
@@ -2331,7 +2331,7 @@ EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module
 EAS_PUBLIC EAS_RESULT EAS_SetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 value)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
-- 
2.43.0


From e8f0c48e68ac166df42dc5e3048f26de1290fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 28/82] fix: survive the removal or replacement of the sound
 library while it is in use

---
 arm-wt-22k/lib_src/eas_public.c   | 13 ++++++++++++-
 arm-wt-22k/lib_src/eas_voicemgt.c |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index ff99afd..7b27d92 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -221,7 +221,18 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #endif
 
         case PARSER_DATA_EAS_LIBRARY:
-            return VMSetEASLib(pSynth, (EAS_SNDLIB_HANDLE) value);
+            {
+                EAS_SNDLIB_HANDLE pOldEAS = pSynth->pEAS;
+                EAS_RESULT result = VMSetEASLib(pSynth, (EAS_SNDLIB_HANDLE) value);
+
+                /* voices and programs still refer to the library that is replaced */
+                if ((result == EAS_SUCCESS) && (pSynth->pEAS != pOldEAS))
+                {
+                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+                    VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
+                }
+                return result;
+            }
 
         case PARSER_DATA_POLYPHONY:
             return VMSetPolyphony(pEASData->pVoiceMgr, pSynth, value);
diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 5d77f2c..bb8ae9d 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1908,7 +1908,8 @@ void VMStartNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_U
     else
 #endif
 
-    /* braces here for #if clause */
+    /* without a sound library there is nothing to play */
+    if (pSynth->pEAS != NULL)
     {
         /* EAS voice */
         for (;;)
-- 
2.43.0


From 447332c6757fa66b615223af73dca9896c0af92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 29/82] fix: refuse stream priorities outside the documented
 range

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index bb8ae9d..6c09270 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3581,6 +3581,9 @@ EAS_RESULT VMGetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 *pPo
 /*lint -esym(715, pVoiceMgr) reserved for future use */
 EAS_RESULT VMSetPriority (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 priority)
 {
+    if ((priority < 1) || (priority > 15))
+        return EAS_ERROR_PARAMETER_RANGE;
+
     pSynth->priority = (EAS_U8) priority ;
     return EAS_SUCCESS;
 }
-- 
2.43.0


From 01829f94fc478b5565f998402d47a048aad62796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 30/82] fix: ignore free voices when checking key groups
 (synthesizer 1, channel 0)

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 6c09270..901c360 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1507,6 +1507,10 @@ void VMCheckKeyGroup (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U16 keyGroup,
     channel = VSynthToChannel(pSynth, channel);
     for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
     {
+        /* free voices do not play anything */
+        if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateFree)
+            continue;
+
         if (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateStolen)
         {
             /* voice must be on the same channel */
-- 
2.43.0


From 49c40c2825ad8d8321dcfa5a7e0c207feec85cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 31/82] fix: do not restart a song in the error state through a
 pending pause or resume

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 7b27d92..57043b0 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2203,7 +2203,7 @@ EAS_PUBLIC EAS_RESULT EAS_Pause (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
     result = pParserModule->pfState(pEASData, pStream->handle, &state);
     if (result == EAS_SUCCESS)
     {
-        if ((state != EAS_STATE_PLAY) && (state != EAS_STATE_READY) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))
+        if ((state >= EAS_STATE_OPEN) || ((state != EAS_STATE_PLAY) && (state != EAS_STATE_READY) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0)))
             return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
 
         /* make sure parser implements pause */
@@ -2259,7 +2259,7 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
     result = pParserModule->pfState(pEASData, pStream->handle, &state);
     if (result == EAS_SUCCESS)
     {
-        if ((state != EAS_STATE_PAUSED) && (state != EAS_STATE_PAUSING) && ((pStream->streamFlags & STREAM_FLAGS_PAUSE) == 0))
+        if ((state >= EAS_STATE_OPEN) || ((state != EAS_STATE_PAUSED) && (state != EAS_STATE_PAUSING) && ((pStream->streamFlags & STREAM_FLAGS_PAUSE) == 0)))
             return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
 
         /* make sure parser implements this function */
-- 
2.43.0


From a4759f3ab187ee54be1e6680e0d8e7565f83f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 32/82] fix: start every note at the beginning of its wave, not
 at the phase of the last note of the voice

---
 arm-wt-22k/lib_src/eas_dlssynth.c | 1 +
 arm-wt-22k/lib_src/eas_wtsynth.c  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_dlssynth.c b/arm-wt-22k/lib_src/eas_dlssynth.c
index a07262c..cefc118 100644
--- a/arm-wt-22k/lib_src/eas_dlssynth.c
+++ b/arm-wt-22k/lib_src/eas_dlssynth.c
@@ -345,6 +345,7 @@ EAS_RESULT DLS_StartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNTH_VOIC
     pWTVoice->filter.z2 = 0;
 
     /* initialize the oscillator */
+    pWTVoice->phaseFrac = 0;
     pWTVoice->phaseAccum = (EAS_U32) pSynth->pDLS->pDLSSamples + pSynth->pDLS->pDLSSampleOffsets[pDLSRegion->wtRegion.waveIndex];
     if (pDLSRegion->wtRegion.region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED)
     {
diff --git a/arm-wt-22k/lib_src/eas_wtsynth.c b/arm-wt-22k/lib_src/eas_wtsynth.c
index ea1fe78..b404785 100644
--- a/arm-wt-22k/lib_src/eas_wtsynth.c
+++ b/arm-wt-22k/lib_src/eas_wtsynth.c
@@ -363,6 +363,9 @@ static EAS_RESULT WT_StartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNT
 
     pVoice->gain = 0;
 
+    /* do not inherit the sample phase of the last note of this voice */
+    pWTVoice->phaseFrac = DEFAULT_PHASE_FRAC;
+
 #if (NUM_OUTPUT_CHANNELS == 2)
     /*
     Get the Midi CC10 pan value for this voice's channel
-- 
2.43.0


From 6d1a87ffb8643b4f9e5f41def4e9e64f1ea723db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 33/82] fix: honour a pause requested by a seek and drop stale
 pause and resume requests

---
 arm-wt-22k/lib_src/eas_public.c | 11 ++++-------
 arm-wt-22k/lib_src/eas_smf.c    |  4 ++--
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 57043b0..6d7cadb 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -952,7 +952,6 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
             /* establish pointer to parser module */
             pParserModule = pEASData->streams[streamNum].pParserModule;
 
-#ifdef JET_INTERFACE
             /* handle pause */
             if (pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_PAUSE)
             {
@@ -960,13 +959,11 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
                     result = pParserModule->pfPause(pEASData, pEASData->streams[streamNum].handle);
                 pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_PAUSE;
             }
-#endif
 
             /* get current state */
             if ((result = (*pParserModule->pfState)(pEASData, pEASData->streams[streamNum].handle, &parserState)) != EAS_SUCCESS)
                 return result;
 
-#ifdef JET_INTERFACE
             /* handle resume */
             if (parserState == EAS_STATE_PAUSED)
             {
@@ -974,10 +971,9 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
                 {
                     if (pParserModule->pfResume)
                         result = pParserModule->pfResume(pEASData, pEASData->streams[streamNum].handle);
-                    pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_RESUME;
                 }
             }
-#endif
+            pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_RESUME;
 
             /* if necessary, parse stream */
             if ((pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_PARSED) == 0)
@@ -1735,8 +1731,9 @@ EAS_PUBLIC EAS_RESULT EAS_State (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream, E
     if (pStream->repeatCount && (*pState == EAS_STATE_STOPPED))
         *pState = EAS_STATE_PLAY;
 
-    /* if we're not paused or pausing, we don't need to hide state from host */
-    if (*pState != EAS_STATE_PAUSED && *pState != EAS_STATE_PAUSING)
+    /* only a playing or paused stream is about to be paused or resumed */
+    else if (*pState != EAS_STATE_PAUSED && *pState != EAS_STATE_PAUSING &&
+        *pState != EAS_STATE_PLAY && *pState != EAS_STATE_READY)
         return EAS_SUCCESS;
 
     /* if stream is about to be paused, report it as paused */
diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 957bd0e..738c580 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -572,7 +572,7 @@ EAS_RESULT SMF_Pause (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* can't pause a stopped stream */
     pSMFData = (S_SMF_DATA*) pInstData;
-    if (pSMFData->state == EAS_STATE_STOPPED)
+    if (pSMFData->state == EAS_STATE_STOPPED || pSMFData->state == EAS_STATE_STOPPING)
         return EAS_ERROR_ALREADY_STOPPED;
 
     /* mute the synthesizer */
@@ -605,7 +605,7 @@ EAS_RESULT SMF_Resume (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* can't resume a stopped stream */
     pSMFData = (S_SMF_DATA*) pInstData;
-    if (pSMFData->state == EAS_STATE_STOPPED)
+    if (pSMFData->state == EAS_STATE_STOPPED || pSMFData->state == EAS_STATE_STOPPING)
         return EAS_ERROR_ALREADY_STOPPED;
 
     /* nothing to do but resume playback */
-- 
2.43.0


From da2d4e01b4753a3d98653ecb4988370392deef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 34/82] fix: release everything when initializing an instance
 fails

---
 arm-wt-22k/lib_src/eas_public.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 6d7cadb..977272b 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -422,6 +422,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if (!pEASData)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Failed to allocate EAS library memory\n"); */ }
+        EAS_HWShutdown(pHWInstData);
         return EAS_ERROR_MALLOC_FAILED;
     }
 
@@ -447,20 +448,20 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
         if ((result = (*pEASData->pMetricsModule->pfInit)(pEASData, &pEASData->pMetricsData)) != EAS_SUCCESS)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Error %ld initializing metrics module\n", result); */ }
-            return result;
+            goto InitError;
         }
     }
 #endif
 
     /* initailize the voice manager & synthesizer */
     if ((result = VMInitialize(pEASData)) != EAS_SUCCESS)
-        return result;
+        goto InitError;
 
     /* initialize mix engine */
     if ((result = EAS_MixEngineInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Error %ld starting up mix engine\n", result); */ }
-        return result;
+        goto InitError;
     }
 
     /* initialize effects modules */
@@ -472,7 +473,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
             if ((result = (*pEASData->effectsModules[module].effect->pfInit)(pEASData, &pEASData->effectsModules[module].effectData)) != EAS_SUCCESS)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Initialization of effects module %d returned %d\n", module, result); */ }
-                return result;
+                goto InitError;
             }
         }
     }
@@ -481,13 +482,18 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if ((result = EAS_PEInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "EAS_PEInit failed with error code %ld\n", result); */ }
-        return result;
+        goto InitError;
     }
 
     /* return instance data pointer to host */
     *ppEASData = pEASData;
 
     return EAS_SUCCESS;
+
+    /* release whatever has been initialized */
+InitError:
+    EAS_Shutdown(pEASData);
+    return result;
 }
 
 /*----------------------------------------------------------------------------
-- 
2.43.0


From e2c40bf78873e3dc0cd711c7f1bea960f8e5e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 35/82] fix: do not move the file position backwards when the
 host cannot read

---
 arm-wt-22k/host_src/eas_hostmm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/host_src/eas_hostmm.c b/arm-wt-22k/host_src/eas_hostmm.c
index 606f9fb..7a8b46d 100644
--- a/arm-wt-22k/host_src/eas_hostmm.c
+++ b/arm-wt-22k/host_src/eas_hostmm.c
@@ -297,6 +297,9 @@ EAS_RESULT EAS_HWReadFile (EAS_HW_DATA_HANDLE hwInstData, EAS_FILE_HANDLE file,
     /* copy the data to the requested location, and advance the pointer */
     if (count) {
         count = file->readAt(file->handle, pBuffer, file->filePos, count);
+        /* nothing was read if the host reports an error */
+        if (count < 0)
+            count = 0;
     }
     file->filePos += count;
     *pBytesRead = count;
-- 
2.43.0


From e8e5a82f345e4a2e949ce7b8abd3bfe45436baff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 36/82] fix: restore the default tempo and count the time
 before the first event when a song is rewound

---
 arm-wt-22k/lib_src/eas_smf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 738c580..d1131d5 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -515,6 +515,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     /* reset time to zero */
     pSMFData->time = 0;
 
+    /* the song starts with the default tempo again */
+    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+
     /* reset the synth */
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
 
@@ -544,6 +547,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
         }
     }
 
+    /* update the time of the next event */
+    if (pSMFData->nextStream)
+        SMF_UpdateTime(pSMFData, pSMFData->nextStream->ticks);
 
     pSMFData->state = EAS_STATE_READY;
     return EAS_SUCCESS;
-- 
2.43.0


From 4a2a02e0061130ea81aac566f50fb32f818c48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 37/82] fix: detect the setup bar of a rewound song from its
 own events

---
 arm-wt-22k/lib_src/eas_midi.c | 1 +
 arm-wt-22k/lib_src/eas_smf.c  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 8cb043a..4116981 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -93,6 +93,7 @@ void EAS_InitMIDIStream (S_MIDI_STREAM *pMIDIStream)
     pMIDIStream->pending = EAS_FALSE;
     pMIDIStream->runningStatus = 0;
     pMIDIStream->status = 0;
+    pMIDIStream->flags = 0;
 }
 
 /*----------------------------------------------------------------------------
diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index d1131d5..1ed1fe1 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -515,6 +515,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     /* reset time to zero */
     pSMFData->time = 0;
 
+    /* look for a setup bar at the start of the song again */
+    pSMFData->flags &= (EAS_U8) ~(SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR);
+
     /* the song starts with the default tempo again */
     pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
 
-- 
2.43.0


From d0e87cfa28bb65188f9e2adfea4a2707340e3cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 38/82] fix: represent tempos slower than 64 ms per tick

---
 arm-wt-22k/lib_src/eas_miditypes.h |  2 +-
 arm-wt-22k/lib_src/eas_smf.c       | 10 +++++-----
 arm-wt-22k/lib_src/eas_smfdata.h   |  1 +
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_miditypes.h b/arm-wt-22k/lib_src/eas_miditypes.h
index 015f08b..5728f03 100644
--- a/arm-wt-22k/lib_src/eas_miditypes.h
+++ b/arm-wt-22k/lib_src/eas_miditypes.h
@@ -106,7 +106,7 @@ typedef struct s_smf_data_tag
     EAS_I32             fileOffset;         /* for embedded files */
     EAS_I32             time;               /* current time in milliseconds/256 */
     EAS_U16             numStreams;         /* actual number of streams */
-    EAS_U16             tickConv;           /* current MIDI tick to msec conversion */
+    EAS_U32             tickConv;           /* current MIDI tick to msec conversion */
     EAS_U16             ppqn;               /* ticks per quarter note */
     EAS_U8              state;              /* current state EAS_STATE_XXXX */
     EAS_U8              flags;              /* flags - see definitions below */
diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 1ed1fe1..c9014f2 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -519,7 +519,7 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     pSMFData->flags &= (EAS_U8) ~(SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR);
 
     /* the song starts with the default tempo again */
-    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+    pSMFData->tickConv = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;
 
     /* reset the synth */
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
@@ -919,10 +919,10 @@ static EAS_RESULT SMF_ParseMetaEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData
                     (temp64 /= pSMFData->ppqn, false) ||
                     __builtin_add_overflow(temp64, 500, &temp64) ||
                     (temp64 /= 1000, false) ||
-                    temp64 > 65535) {
-                pSMFData->tickConv = 65535;
+                    temp64 > SMF_MAX_TICK_CONV) {
+                pSMFData->tickConv = SMF_MAX_TICK_CONV;
             } else {
-                pSMFData->tickConv = (EAS_U16) temp64;
+                pSMFData->tickConv = (EAS_U32) temp64;
             }
         }
         pSMFData->flags |= SMF_FLAGS_HAS_TEMPO;
@@ -1163,7 +1163,7 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING,"No support for SMPTE code timebase\n"); */ }
     else
         pSMFData->ppqn = (division & 0x7fff);
-    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+    pSMFData->tickConv = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;
 
     /* dynamic memory allocation, allocate memory for streams */
     if (pSMFData->streams == NULL)
diff --git a/arm-wt-22k/lib_src/eas_smfdata.h b/arm-wt-22k/lib_src/eas_smfdata.h
index 8f08839..b174d6d 100644
--- a/arm-wt-22k/lib_src/eas_smfdata.h
+++ b/arm-wt-22k/lib_src/eas_smfdata.h
@@ -58,6 +58,7 @@
 
 /* default timebase (120BPM) */
 #define SMF_DEFAULT_TIMEBASE        500000L
+#define SMF_MAX_TICK_CONV           0x3fffff    /* 4 seconds per tick, 10-bit tick counts must not overflow */
 
 /* value for pSMFStream->ticks to signify end of track */
 #define SMF_END_OF_TRACK            0xffffffff
-- 
2.43.0


From 19c46bda22d977506286c50885d4f8dd14cfb2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 39/82] fix: release the notes of a song that stops with an
 error

---
 arm-wt-22k/lib_src/eas_smf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index c9014f2..6971f9b 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -331,7 +331,10 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     {
         /* check for unexpected end-of-file */
         if (result != EAS_EOF)
+        {
+            VMReleaseAllVoices(pEASData->pVoiceMgr, pSMFData->pSynth);
             return result;
+        }
 
         /* indicate end of track for this stream */
         pSMFData->nextStream->ticks = SMF_END_OF_TRACK;
@@ -344,7 +347,10 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
         {
             /* check for unexpected end-of-file */
             if (result != EAS_EOF)
+            {
+                VMReleaseAllVoices(pEASData->pVoiceMgr, pSMFData->pSynth);
                 return result;
+            }
 
             /* indicate end of track for this stream */
             pSMFData->nextStream->ticks = SMF_END_OF_TRACK;
-- 
2.43.0


From 61c6271d75c932227b77e6d9decd00c764b07498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 40/82] fix: play events later than 134 million ticks

---
 arm-wt-22k/lib_src/eas_smf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 6971f9b..8d34246 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -365,7 +365,7 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     }
 
     /* find next event in all streams */
-    temp = 0x7ffffff;
+    temp = 0x7fffffff;
     pSMFData->nextStream = NULL;
     for (i = 0; i < pSMFData->numStreams; i++)
     {
-- 
2.43.0


From 606f154a189f7ebfde72d275cc52086119f55478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 41/82] fix: stop a song without any event with an error
 instead of failing every render

---
 arm-wt-22k/lib_src/eas_smf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 8d34246..9229774 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -310,6 +310,7 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
         return EAS_SUCCESS;
 
     if (!pSMFData->nextStream) {
+        pSMFData->state = EAS_STATE_ERROR;
         return EAS_ERROR_FILE_FORMAT;
     }
 
-- 
2.43.0


From 7db39498e84276bc68b8d8d33da57fb95f99509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 42/82] fix: do not skip the first frame of a song whose
 metadata was read

---
 arm-wt-22k/lib_src/eas_public.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 977272b..d5e37ce 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1453,8 +1453,9 @@ EAS_PUBLIC EAS_RESULT EAS_ParseMetaData (EAS_DATA_HANDLE pEASData, EAS_HANDLE pS
     if ((result = EAS_GetLocation(pEASData, pStream, playLength)) != EAS_SUCCESS)
         return result;
 
-    /* reset the parser to the beginning */
+    /* reset the parser to the beginning, the events of its first frame are still to be parsed */
     pStream->time = 0;
+    pStream->streamFlags &= ~STREAM_FLAGS_PARSED;
     return (*pParserModule->pfReset)(pEASData, pStream->handle);
 }
 
-- 
2.43.0


From a83469488ee0f803b352c98e487897e174ca4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 43/82] fix: keep the length of ticks longer than four seconds

---
 arm-wt-22k/lib_src/eas_smf.c     | 4 ++--
 arm-wt-22k/lib_src/eas_smfdata.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 9229774..f083eed 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -1290,7 +1290,7 @@ static void SMF_UpdateTime (S_SMF_DATA *pSMFData, EAS_U32 ticks)
         return;
 
     temp1 = (ticks >> 10) * pSMFData->tickConv;
-    temp2 = (ticks & 0x3ff) * pSMFData->tickConv;
-    pSMFData->time += (EAS_I32)((temp1 << 8) + (temp2 >> 2));
+    temp2 = (EAS_U32)(((unsigned long long)(ticks & 0x3ff) * pSMFData->tickConv) >> 2);
+    pSMFData->time += (EAS_I32)((temp1 << 8) + temp2);
 }
 
diff --git a/arm-wt-22k/lib_src/eas_smfdata.h b/arm-wt-22k/lib_src/eas_smfdata.h
index b174d6d..54ea98e 100644
--- a/arm-wt-22k/lib_src/eas_smfdata.h
+++ b/arm-wt-22k/lib_src/eas_smfdata.h
@@ -58,7 +58,7 @@
 
 /* default timebase (120BPM) */
 #define SMF_DEFAULT_TIMEBASE        500000L
-#define SMF_MAX_TICK_CONV           0x3fffff    /* 4 seconds per tick, 10-bit tick counts must not overflow */
+#define SMF_MAX_TICK_CONV           0x1ffffff   /* more than the slowest tempo at one tick per quarter note needs */
 
 /* value for pSMFStream->ticks to signify end of track */
 #define SMF_END_OF_TRACK            0xffffffff
-- 
2.43.0


From 6d0773d41e03c3b8a42aac13a41c14c90e55ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 44/82] fix: a refused pause or resume leaves the stream as it
 was

---
 arm-wt-22k/lib_src/eas_public.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index d5e37ce..b70f71d 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2212,19 +2212,17 @@ EAS_PUBLIC EAS_RESULT EAS_Pause (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
 
         /* make sure parser implements pause */
         if (pParserModule->pfPause == NULL)
-            result = EAS_ERROR_NOT_IMPLEMENTED;
+            return EAS_ERROR_NOT_IMPLEMENTED;
+
+        /* pause the stream */
+        if ((result = pParserModule->pfPause(pEASData, pStream->handle)) != EAS_SUCCESS)
+            return result;
 
         /* clear resume flag */
         pStream->streamFlags &= ~STREAM_FLAGS_RESUME;
 
         /* set pause flag */
         pStream->streamFlags |= STREAM_FLAGS_PAUSE;
-
-        /* pause the stream */
-        if (pParserModule->pfPause)
-            result = pParserModule->pfPause(pEASData, pStream->handle);
-        else
-            result = EAS_ERROR_NOT_IMPLEMENTED;
     }
 
     return result;
@@ -2268,19 +2266,17 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
 
         /* make sure parser implements this function */
         if (pParserModule->pfResume == NULL)
-            result = EAS_ERROR_NOT_IMPLEMENTED;
+            return EAS_ERROR_NOT_IMPLEMENTED;
+
+        /* resume the stream */
+        if ((result = pParserModule->pfResume(pEASData, pStream->handle)) != EAS_SUCCESS)
+            return result;
 
         /* clear pause flag */
         pStream->streamFlags &= ~STREAM_FLAGS_PAUSE;
 
         /* set resume flag */
         pStream->streamFlags |= STREAM_FLAGS_RESUME;
-
-        /* resume the stream */
-        if (pParserModule->pfResume)
-            result = pParserModule->pfResume(pEASData, pStream->handle);
-        else
-            result = EAS_ERROR_NOT_IMPLEMENTED;
     }
 
     return result;
-- 
2.43.0


From 2ddb49662c0565b44f1a11df272d36e3d5a75136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 45/82] fix: chorus rate and depth set by the host are
 converted like those of a preset

---
 arm-wt-22k/lib_src/eas_chorus.c | 58 +++++++++++++--------------------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_chorus.c b/arm-wt-22k/lib_src/eas_chorus.c
index 4a2c8d0..deda2af 100644
--- a/arm-wt-22k/lib_src/eas_chorus.c
+++ b/arm-wt-22k/lib_src/eas_chorus.c
@@ -114,23 +114,6 @@ static EAS_RESULT ChorusInit (EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
     pChorusData->m_nRate =      EAS_CHORUS_RATE_DEFAULT;
     pChorusData->m_nDepth =     EAS_CHORUS_DEPTH_DEFAULT;
 
-    //chorus rate and depth need some massaging from preset value (which is sample rate independent)
-
-    //convert rate from steps of .05 Hz to value which can be used as phase increment,
-    //with current CHORUS_SHAPE_SIZE and rate limits, this fits into 16 bits
-    //want to compute ((shapeSize * 65536) * (storedRate/20))/sampleRate;
-    //computing it as below allows rate steps to be evenly spaced
-    //uses 32 bit divide, but only once when new value is selected
-    pChorusData->m_nRate = (EAS_I16)
-        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-
-    //convert depth from steps of .05 ms, to samples, with 16 bit whole part, discard fraction
-    //want to compute ((depth * sampleRate)/20000)
-    //use the following approximation since 105/32 is roughly 65536/20000
-    /*lint -e{704} use shift for performance */
-    pChorusData->m_nDepth = (EAS_I16)
-        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
-
     pChorusData->m_nLevel = pChorusData->m_nLevel;
 
     //zero delay memory for chorus
@@ -163,13 +146,6 @@ static EAS_RESULT ChorusInit (EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
     pChorusData->m_nRate =  pPreset->m_nRate;
     pChorusData->m_nDepth = pPreset->m_nDepth;
 
-    pChorusData->m_nRate = (EAS_I16)
-        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-
-    /*lint -e{704} use shift for performance */
-    pChorusData->m_nDepth = (EAS_I16)
-        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
-
     *pInstData = pChorusData;
 
     return EAS_SUCCESS;
@@ -264,6 +240,8 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
     EAS_I32 nOutputSample;
     EAS_PCM *pIn;
     EAS_PCM *pOut;
+    EAS_I32 rate;
+    EAS_I32 depth;
 
     S_CHORUS_OBJECT *pChorusData;
 
@@ -282,6 +260,23 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
         ChorusUpdate(pChorusData);
     }
 
+    //chorus rate and depth need some massaging from preset value (which is sample rate independent)
+
+    //convert rate from steps of .05 Hz to value which can be used as phase increment,
+    //with current CHORUS_SHAPE_SIZE and rate limits, this fits into 16 bits
+    //want to compute ((shapeSize * 65536) * (storedRate/20))/sampleRate;
+    //computing it as below allows rate steps to be evenly spaced
+    //uses 32 bit divide, but only once per buffer
+    rate = (EAS_I16)
+        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
+
+    //convert depth from steps of .05 ms, to samples, with 16 bit whole part, discard fraction
+    //want to compute ((depth * sampleRate)/20000)
+    //use the following approximation since 105/32 is roughly 65536/20000
+    /*lint -e{704} use shift for performance */
+    depth = (EAS_I16)
+        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
+
     for (nChannelNumber = 0; nChannelNumber < NUM_OUTPUT_CHANNELS; nChannelNumber++)
     {
 
@@ -305,7 +300,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
                 //scale chorus depth by lfo value to get relative fractional sample index
                 //index is expressed as 32 bit number with 16 bit fractional part
                 /*lint -e{703} use shift for performance */
-                positionOffsetL = pChorusData->m_nDepth * (((EAS_I32)lfoValueLeft) << 1);
+                positionOffsetL = depth * (((EAS_I32)lfoValueLeft) << 1);
 
                 //add fixed chorus delay to get actual fractional sample index
                 positionOffsetL += ((EAS_I32)pChorusData->chorusTapPosition) << 16;
@@ -327,7 +322,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
                     pChorusData->chorusIndexL = 0;
 
                 //increment fractional lfo phase, and make it wrap as needed
-                pChorusData->lfoLPhase += pChorusData->m_nRate;
+                pChorusData->lfoLPhase += rate;
                 while (pChorusData->lfoLPhase >= (CHORUS_SHAPE_SIZE<<16))
                 {
                     pChorusData->lfoLPhase -= (CHORUS_SHAPE_SIZE<<16);
@@ -351,7 +346,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
                 //scale chorus depth by lfo value to get relative fractional sample index
                 //index is expressed as 32 bit number with 16 bit fractional part
                 /*lint -e{703} use shift for performance */
-                positionOffsetR = pChorusData->m_nDepth * (((EAS_I32)lfoValueRight) << 1);
+                positionOffsetR = depth * (((EAS_I32)lfoValueRight) << 1);
 
                 //add fixed chorus delay to get actual fractional sample index
                 positionOffsetR += ((EAS_I32)pChorusData->chorusTapPosition) << 16;
@@ -372,7 +367,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
                     pChorusData->chorusIndexR = 0;
 
                 //increment fractional lfo phase, and make it wrap as needed
-                pChorusData->lfoRPhase += pChorusData->m_nRate;
+                pChorusData->lfoRPhase += rate;
                 while (pChorusData->lfoRPhase >= (CHORUS_SHAPE_SIZE<<16))
                 {
                     pChorusData->lfoRPhase -= (CHORUS_SHAPE_SIZE<<16);
@@ -590,13 +585,6 @@ static EAS_RESULT ChorusUpdate(S_CHORUS_OBJECT *pChorusData)
     pChorusData->m_nRate =  pPreset->m_nRate;
     pChorusData->m_nDepth = pPreset->m_nDepth;
 
-    pChorusData->m_nRate = (EAS_I16)
-        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-
-    /*lint -e{704} use shift for performance */
-    pChorusData->m_nDepth = (EAS_I16)
-        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
-
     pChorusData->m_nCurrentChorus = pChorusData->m_nNextChorus;
 
     return EAS_SUCCESS;
-- 
2.43.0


From e9d2d63bba0030bc92536f30228b9c54a72b4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 46/82] fix: take over an effect preset when it is set, not
 when it is first processed

---
 arm-wt-22k/lib_src/eas_chorus.c | 3 +++
 arm-wt-22k/lib_src/eas_reverb.c | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_chorus.c b/arm-wt-22k/lib_src/eas_chorus.c
index deda2af..4d84c86 100644
--- a/arm-wt-22k/lib_src/eas_chorus.c
+++ b/arm-wt-22k/lib_src/eas_chorus.c
@@ -486,6 +486,9 @@ static EAS_RESULT ChorusSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_CHORUS_PRESET3 && value!=EAS_PARAM_CHORUS_PRESET4)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextChorus = (EAS_I8)value;
+            /* take over the preset now, so that parameters set after it are kept */
+            if (p->m_nNextChorus != p->m_nCurrentChorus)
+                ChorusUpdate(p);
             break;
         case EAS_PARAM_CHORUS_RATE:
             if(value<EAS_CHORUS_RATE_MIN || value>EAS_CHORUS_RATE_MAX)
diff --git a/arm-wt-22k/lib_src/eas_reverb.c b/arm-wt-22k/lib_src/eas_reverb.c
index cd5befe..c42814a 100644
--- a/arm-wt-22k/lib_src/eas_reverb.c
+++ b/arm-wt-22k/lib_src/eas_reverb.c
@@ -170,7 +170,7 @@ static EAS_RESULT ReverbInit(EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
 
     pReverbData->m_nNextRoom = 1;
 
-    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom + 1; // force update on first iteration
+    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom; // this preset is copied below
 
     pReverbData->m_nWet = REVERB_DEFAULT_WET;
 
@@ -877,6 +877,9 @@ static EAS_RESULT ReverbSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_REVERB_CHAMBER && value!=EAS_PARAM_REVERB_ROOM)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextRoom = (EAS_I16)value;
+            /* take over the preset now, so that parameters set after it are kept */
+            if (p->m_nNextRoom != p->m_nCurrentRoom)
+                ReverbUpdateRoom(p);
             break;
         case EAS_PARAM_REVERB_WET:
             if(value>EAS_REVERB_WET_MAX || value<EAS_REVERB_WET_MIN)
-- 
2.43.0


From 0fdfeb0df0c05e232565f7943059d3439ccdf372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 47/82] fix: the feedback of the reverb rounds towards zero, so
 that its tail decays to silence

---
 arm-wt-22k/lib_src/eas_reverb.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_reverb.c b/arm-wt-22k/lib_src/eas_reverb.c
index c42814a..bef903b 100644
--- a/arm-wt-22k/lib_src/eas_reverb.c
+++ b/arm-wt-22k/lib_src/eas_reverb.c
@@ -504,6 +504,9 @@ static EAS_RESULT ReverbCalculateSinCos(EAS_I16 nPhase, EAS_I16 *pnSin, EAS_I16
     return EAS_SUCCESS;
 }   /* end ReverbCalculateSinCos */
 
+/* multiply as MULT_EG1_EG1 does, but round towards zero, so that the feedback decays to silence */
+#define MULT_TO_ZERO(gain,damping) (((EAS_I32)(gain) * (EAS_I32)(damping)) / 32768)
+
 /*----------------------------------------------------------------------------
  * Reverb
  *----------------------------------------------------------------------------
@@ -557,11 +560,11 @@ static EAS_RESULT Reverb(S_REVERB_OBJECT *pReverbData, EAS_INT nNumSamplesToAdd,
         nDelayOut = pReverbData->m_nDelayLine[nAddr];
 
         // calculate allpass feedforward; subtract the feedforward result
-        nTemp1 = MULT_EG1_EG1(nApIn, pReverbData->m_sAp0.m_nApGain);
+        nTemp1 = MULT_TO_ZERO(nApIn, pReverbData->m_sAp0.m_nApGain);
         nApOut = SATURATE(nDelayOut - nTemp1);          // allpass output
 
         // calculate allpass feedback; add the feedback result
-        nTemp1 = MULT_EG1_EG1(nApOut, pReverbData->m_sAp0.m_nApGain);
+        nTemp1 = MULT_TO_ZERO(nApOut, pReverbData->m_sAp0.m_nApGain);
         nTemp1 = SATURATE(nApIn + nTemp1);
 
         // inject into allpass delay
@@ -585,11 +588,11 @@ static EAS_RESULT Reverb(S_REVERB_OBJECT *pReverbData, EAS_INT nNumSamplesToAdd,
         nDelayOut = pReverbData->m_nDelayLine[nAddr];
 
         // calculate allpass feedforward; subtract the feedforward result
-        nTemp1 = MULT_EG1_EG1(nApIn, pReverbData->m_sAp1.m_nApGain);
+        nTemp1 = MULT_TO_ZERO(nApIn, pReverbData->m_sAp1.m_nApGain);
         nApOut = SATURATE(nDelayOut - nTemp1);          // allpass output
 
         // calculate allpass feedback; add the feedback result
-        nTemp1 = MULT_EG1_EG1(nApOut, pReverbData->m_sAp1.m_nApGain);
+        nTemp1 = MULT_TO_ZERO(nApOut, pReverbData->m_sAp1.m_nApGain);
         nTemp1 = SATURATE(nApIn + nTemp1);
 
         // inject into allpass delay
@@ -608,22 +611,22 @@ static EAS_RESULT Reverb(S_REVERB_OBJECT *pReverbData, EAS_INT nNumSamplesToAdd,
         nDelayOut = pReverbData->m_nDelayLine[nAddr];
 
         // calculate delay line self out
-        nTemp1 = MULT_EG1_EG1(nDelayOut, pReverbData->m_nSin);
+        nTemp1 = MULT_TO_ZERO(nDelayOut, pReverbData->m_nSin);
 
         // fetch delay line cross out
         nAddr = CIRCULAR(nBase, pReverbData->m_zD1Cross, REVERB_BUFFER_MASK);
         nDelayOut = pReverbData->m_nDelayLine[nAddr];
 
         // calculate delay line self out
-        nTemp2 = MULT_EG1_EG1(nDelayOut, pReverbData->m_nCos);
+        nTemp2 = MULT_TO_ZERO(nDelayOut, pReverbData->m_nCos);
 
         // calculate unfiltered delay out
         nDelayOut = SATURATE(nTemp1 + nTemp2);
 
         // calculate lowpass filter (mixer scale factor included in LPF feedforward)
-        nTemp1 = MULT_EG1_EG1(nDelayOut, pReverbData->m_nLpfFwd);
+        nTemp1 = MULT_TO_ZERO(nDelayOut, pReverbData->m_nLpfFwd);
 
-        nTemp2 = MULT_EG1_EG1(pReverbData->m_zLpf0, pReverbData->m_nLpfFbk);
+        nTemp2 = MULT_TO_ZERO(pReverbData->m_zLpf0, pReverbData->m_nLpfFbk);
 
         // calculate filtered delay out and simultaneously update LPF state variable
         // filtered delay output is stored in m_zLpf0
@@ -637,22 +640,22 @@ static EAS_RESULT Reverb(S_REVERB_OBJECT *pReverbData, EAS_INT nNumSamplesToAdd,
         nDelayOut = pReverbData->m_nDelayLine[nAddr];
 
         // calculate delay line self out
-        nTemp1 = MULT_EG1_EG1(nDelayOut, pReverbData->m_nSin);
+        nTemp1 = MULT_TO_ZERO(nDelayOut, pReverbData->m_nSin);
 
         // fetch delay line cross out
         nAddr = CIRCULAR(nBase, pReverbData->m_zD0Cross, REVERB_BUFFER_MASK);
         nDelayOut = pReverbData->m_nDelayLine[nAddr];
 
         // calculate delay line self out
-        nTemp2 = MULT_EG1_EG1(nDelayOut, pReverbData->m_nCos);
+        nTemp2 = MULT_TO_ZERO(nDelayOut, pReverbData->m_nCos);
 
         // calculate unfiltered delay out
         nDelayOut = SATURATE(nTemp1 + nTemp2);
 
         // calculate lowpass filter (mixer scale factor included in LPF feedforward)
-        nTemp1 = MULT_EG1_EG1(nDelayOut, pReverbData->m_nLpfFwd);
+        nTemp1 = MULT_TO_ZERO(nDelayOut, pReverbData->m_nLpfFwd);
 
-        nTemp2 = MULT_EG1_EG1(pReverbData->m_zLpf1, pReverbData->m_nLpfFbk);
+        nTemp2 = MULT_TO_ZERO(pReverbData->m_zLpf1, pReverbData->m_nLpfFbk);
 
         // calculate filtered delay out and simultaneously update LPF state variable
         // filtered delay output is stored in m_zLpf1
-- 
2.43.0


From 55f9b7657edb87a28ffcb45bca663e3564194ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 48/82] fix: refuse a metadata callback without a buffer, it
 cut off the tracks of the song

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index b70f71d..8556fd3 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1492,6 +1492,10 @@ EAS_PUBLIC EAS_RESULT EAS_RegisterMetaDataCallback (
     if (!EAS_StreamReady(pEASData, pStream))
         return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
 
+    /* a callback needs a buffer with room for at least the terminating zero */
+    if ((cbFunc != NULL) && ((metaDataBuffer == NULL) || (metaDataBufSize < 1)))
+        return EAS_ERROR_INVALID_PARAMETER;
+
     /* register callback function */
     metadata.callback = cbFunc;
     metadata.buffer = metaDataBuffer;
-- 
2.43.0


From 7e673e187c7c31ff4bf5dd170dc46da8c133619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 49/82] fix: apply the reverb amount asked for after the reverb
 preset, which brings its own

---
 example/sonivoxrender.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/example/sonivoxrender.c b/example/sonivoxrender.c
index 285839f..22ac69a 100644
--- a/example/sonivoxrender.c
+++ b/example/sonivoxrender.c
@@ -27,7 +27,7 @@
 
 const char *dls_path = NULL;
 EAS_I32 reverb_type = -1;
-EAS_I32 reverb_wet = 0;
+EAS_I32 reverb_wet = -1; /* not given: as the preset says */
 EAS_DATA_HANDLE mEASDataHandle = NULL;
 
 int Read(void *handle, void *buf, int offset, int size) {
@@ -101,13 +101,6 @@ int initializeLibrary(void)
         }
     }
 
-    result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
-    if (result != EAS_SUCCESS) {
-        fprintf(stderr, "Failed to set reverb wet amount");
-        ok = EXIT_FAILURE;
-        goto cleanup;
-    }
-
     EAS_BOOL sw = EAS_TRUE;
     EAS_I32 preset = reverb_type - 1;
     if ( preset >= EAS_PARAM_REVERB_LARGE_HALL && preset <= EAS_PARAM_REVERB_ROOM ) {
@@ -119,6 +112,15 @@ int initializeLibrary(void)
             goto cleanup;
         }
     }
+    /* after the preset, which brings its own wet amount */
+    if (reverb_wet >= 0) {
+        result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
+        if (result != EAS_SUCCESS) {
+            fprintf(stderr, "Failed to set reverb wet amount");
+            ok = EXIT_FAILURE;
+            goto cleanup;
+        }
+    }
     result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, sw);
     if (result != EAS_SUCCESS) {
         fprintf(stderr, "Failed to set reverb bypass");
-- 
2.43.0


From 51d54ab13be7d9825242e6f824b55632655fe82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 50/82] fix: the renderer fails when its output cannot be
 written

---
 example/sonivoxrender.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/example/sonivoxrender.c b/example/sonivoxrender.c
index 22ac69a..65c164a 100644
--- a/example/sonivoxrender.c
+++ b/example/sonivoxrender.c
@@ -233,8 +233,12 @@ int renderFile(const char *fileName)
             break;
         }
 
-        fwrite(mAudioBuffer, sizeof(EAS_PCM), mEASConfig->mixBufferSize * mEASConfig->numChannels, stdout);
-        fflush(stdout);
+        size_t samples = mEASConfig->mixBufferSize * mEASConfig->numChannels;
+        if (fwrite(mAudioBuffer, sizeof(EAS_PCM), samples, stdout) != samples || fflush(stdout) != 0) {
+            fprintf(stderr, "Failed to write audio. error: %s\n", strerror(errno));
+            ok = EXIT_FAILURE;
+            break;
+        }
     }
 
 cleanup:
-- 
2.43.0


From b637c93187105f26853698725bfb3acaeedefbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 51/82] fix: a song that changed the master volume starts again
 at the volume of its stream

---
 arm-wt-22k/lib_src/eas_public.c | 35 +++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 8556fd3..a8a9aa0 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -85,6 +85,7 @@ static const S_EAS_LIB_CONFIG easLibConfig =
 
 /* local prototypes */
 static EAS_RESULT EAS_ParseEvents (S_EAS_DATA *pEASData, S_EAS_STREAM *pStream, EAS_U32 endTime, EAS_INT parseMode);
+static EAS_RESULT EAS_ResetStream (S_EAS_DATA *pEASData, EAS_HANDLE pStream);
 
 /*----------------------------------------------------------------------------
  * EAS_SetStreamParameter
@@ -1014,7 +1015,7 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
                         pEASData->streams[streamNum].repeatCount--;
 
                     /* reset the parser */
-                    if ((result = (*pParserModule->pfReset)(pEASData, pEASData->streams[streamNum].handle)) != EAS_SUCCESS)
+                    if ((result = EAS_ResetStream(pEASData, &pEASData->streams[streamNum])) != EAS_SUCCESS)
                         return result;
                     pEASData->streams[streamNum].time = 0;
                 }
@@ -1267,6 +1268,32 @@ EAS_PUBLIC EAS_RESULT EAS_SetTransposition (EAS_DATA_HANDLE pEASData, EAS_HANDLE
     return EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_TRANSPOSITION, transposition);
 }
 
+/*----------------------------------------------------------------------------
+ * EAS_ResetStream()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Returns the parser to the beginning of the song and the synthesizer to the
+ * volume of the stream, which the song may have changed (master volume)
+ *
+ * Inputs:
+ *
+ * Outputs:
+ *
+ *----------------------------------------------------------------------------
+*/
+static EAS_RESULT EAS_ResetStream (S_EAS_DATA *pEASData, EAS_HANDLE pStream)
+{
+    S_FILE_PARSER_INTERFACE *pParserModule;
+    EAS_RESULT result;
+
+    pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if ((result = (*pParserModule->pfReset)(pEASData, pStream->handle)) != EAS_SUCCESS)
+        return result;
+
+    (void) EAS_SetVolume(pEASData, pStream, pStream->volume);
+    return EAS_SUCCESS;
+}
+
 /*----------------------------------------------------------------------------
  * EAS_ParseEvents()
  *----------------------------------------------------------------------------
@@ -1440,7 +1467,7 @@ EAS_PUBLIC EAS_RESULT EAS_ParseMetaData (EAS_DATA_HANDLE pEASData, EAS_HANDLE pS
         return pParserModule->pfGetMetaData(pEASData, pStream->handle, playLength);
 
     /* reset the parser to the beginning */
-    if ((result = (*pParserModule->pfReset)(pEASData, pStream->handle)) != EAS_SUCCESS)
+    if ((result = EAS_ResetStream(pEASData, pStream)) != EAS_SUCCESS)
         return result;
 
     /* parse the file to end */
@@ -1456,7 +1483,7 @@ EAS_PUBLIC EAS_RESULT EAS_ParseMetaData (EAS_DATA_HANDLE pEASData, EAS_HANDLE pS
     /* reset the parser to the beginning, the events of its first frame are still to be parsed */
     pStream->time = 0;
     pStream->streamFlags &= ~STREAM_FLAGS_PARSED;
-    return (*pParserModule->pfReset)(pEASData, pStream->handle);
+    return EAS_ResetStream(pEASData, pStream);
 }
 
 /*----------------------------------------------------------------------------
@@ -2116,7 +2143,7 @@ EAS_PUBLIC EAS_RESULT EAS_Locate (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream,
         pStream->streamFlags |= STREAM_FLAGS_PAUSE;
 
     /* reset the synth and parser */
-    if ((result = (*pParserModule->pfReset)(pEASData, pStream->handle)) != EAS_SUCCESS)
+    if ((result = EAS_ResetStream(pEASData, pStream)) != EAS_SUCCESS)
         return result;
     pStream->time = 0;
 
-- 
2.43.0


From cf852e689a980b9d1adbefec245899d6e4765911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 52/82] fix: RPN LSB selection keeps the whole MSB chosen
 before

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 901c360..76ad10e 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2567,7 +2567,7 @@ EAS_RESULT VMUpdateRPNStateMachine (S_SYNTH *pSynth, EAS_U8 channel, EAS_U8 cont
         break;
     case MIDI_CONTROLLER_SELECT_RPN_LSB:
         pChannel->registeredParam =
-            (pChannel->registeredParam & 0x7F00) | value;
+            (pChannel->registeredParam & 0x3F80) | value;
         break;
     case MIDI_CONTROLLER_ENTER_DATA_MSB:
         switch (pChannel->registeredParam)
-- 
2.43.0


From 0d35f191c6c24afb5d4badcecc6eac1077460870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 53/82] fix: looped waves repeat with the period of their loop

---
 arm-wt-22k/lib_src/eas_wtengine.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_wtengine.c b/arm-wt-22k/lib_src/eas_wtengine.c
index dc8d864..cb68f96 100644
--- a/arm-wt-22k/lib_src/eas_wtengine.c
+++ b/arm-wt-22k/lib_src/eas_wtengine.c
@@ -189,6 +189,7 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     EAS_I32 phaseFrac;
     EAS_I32 acc0;
     const EAS_SAMPLE *pSamples;
+    const EAS_SAMPLE *loopStart;
     const EAS_SAMPLE *loopEnd;
     EAS_I32 samp1;
     EAS_I32 samp2;
@@ -207,6 +208,7 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     }
     pOutputBuffer = pWTIntFrame->pAudioBuffer;
 
+    loopStart = (const EAS_SAMPLE*) pWTVoice->loopStart;
     loopEnd = (const EAS_SAMPLE*) pWTVoice->loopEnd + 1;
     pSamples = (const EAS_SAMPLE*) pWTVoice->phaseAccum;
     /*lint -e{713} truncation is OK */
@@ -218,10 +220,10 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     /*lint -e{701} <avoid multiply for performance>*/
     samp1 = pSamples[0] << 8;
     /*lint -e{701} <avoid multiply for performance>*/
-    samp2 = pSamples[1] << 8;
+    samp2 = (&pSamples[1] < loopEnd ? pSamples[1] : loopStart[0]) << 8;
 #else
     samp1 = pSamples[0];
-    samp2 = pSamples[1];
+    samp2 = &pSamples[1] < loopEnd ? pSamples[1] : loopStart[0];
 #endif
 
     while (numSamples--) {
@@ -249,10 +251,10 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
             pSamples +=  nextSamplePhaseInc;
             phaseFrac = phaseFrac & PHASE_FRAC_MASK;
 
-            /* decrementing pSamples by entire buffer length until second pSample is within */
-            /* loopEnd                                                                      */
-            while (&pSamples[1] >= loopEnd) {
-                pSamples -= (loopEnd - (const EAS_SAMPLE*)pWTVoice->loopStart);
+            /* decrementing pSamples by entire loop length until it is within loopEnd; */
+            /* the sample that follows the last one of the loop is the first one       */
+            while (pSamples >= loopEnd) {
+                pSamples -= (loopEnd - loopStart);
             }
 
             /* fetch new samples */
@@ -260,10 +262,10 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
             /*lint -e{701} <avoid multiply for performance>*/
             samp1 = pSamples[0] << 8;
             /*lint -e{701} <avoid multiply for performance>*/
-            samp2 = pSamples[1] << 8;
+            samp2 = (&pSamples[1] < loopEnd ? pSamples[1] : loopStart[0]) << 8;
 #else
             samp1 = pSamples[0];
-            samp2 = pSamples[1];
+            samp2 = &pSamples[1] < loopEnd ? pSamples[1] : loopStart[0];
 #endif
         }
     }
-- 
2.43.0


From 676921574d3ad66e4a6a21b6a9a890a9c5c046e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 54/82] fix: a DLS region without a loop does not inherit the
 loop of its wave

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 0f059a7..7283e8c 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1146,6 +1146,10 @@ static EAS_RESULT Parse_wsmp (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WS
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
         return result;
 
+    /* the loop given here, if any, replaces one inherited from the wave */
+    p->loopStart = 0;
+    p->loopLength = 0;
+
     /* if looped sample, get loop data */
     if (ltemp)
     {
-- 
2.43.0


From 4921e6b02e9e46b48054c10d58b7f0987576c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 55/82] fix: loading a looped DLS wave leaves its samples as
 they are

---
 arm-wt-22k/lib_src/eas_mdls.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 7283e8c..f29e229 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1330,7 +1330,7 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         }
     }
 
-    /* for looped samples, copy the last sample to the end */
+    /* for looped samples, copy the first sample of the loop to the end */
     if (pWsmp->loopLength)
     {
         if (sampleLen < sizeof(EAS_SAMPLE)
@@ -1339,7 +1339,9 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             return EAS_FAILURE;
         }
 
-        pSample[pWsmp->loopStart + pWsmp->loopLength] = pSample[pWsmp->loopStart];
+        /* the wave itself stays as it is, regions may play it with another loop or none */
+        if (p == &pSample[pWsmp->loopStart + pWsmp->loopLength])
+            *p = pSample[pWsmp->loopStart];
     }
 
     return EAS_SUCCESS;
@@ -1383,7 +1385,7 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     }
 
-    /* for looped samples, copy the last sample to the end */
+    /* for looped samples, copy the first sample of the loop to the end */
     if (pWsmp->loopLength)
     {
         if (sampleLen < sizeof(EAS_SAMPLE)
@@ -1391,7 +1393,9 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             return EAS_FAILURE;
         }
 
-        pSample[pWsmp->loopStart + pWsmp->loopLength] = pSample[pWsmp->loopStart];
+        /* the wave itself stays as it is, regions may play it with another loop or none */
+        if (p == &pSample[pWsmp->loopStart + pWsmp->loopLength])
+            *p = pSample[pWsmp->loopStart];
     }
 
     return EAS_SUCCESS;
-- 
2.43.0


From ee8b1e1ed664df043726f9e46d55459f712fda4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 56/82] fix: a DLS collection is read at any position in the
 file that contains it

---
 arm-wt-22k/lib_src/eas_mdls.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index f29e229..7289add 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -809,12 +809,9 @@ static EAS_RESULT NextChunk (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 *pPos, EAS
 
     }
 
-    /* calculate start of next chunk */
-    *pPos += *pSize + 8;
-
-    /* adjust to word boundary */
-    if (*pPos & 1)
-        (*pPos)++;
+    /* calculate start of next chunk; chunks are padded to an even size, which
+     * says nothing about their position in a file that contains the collection */
+    *pPos += *pSize + (*pSize & 1) + 8;
 
     return EAS_SUCCESS;
 }
-- 
2.43.0


From 0a8781dd4fe3bc9da5aa5fed07fc451f76594f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 57/82] fix: an OTA pattern of no duration is not repeated for
 ever

---
 arm-wt-22k/lib_src/eas_ota.c     | 9 +++++++++
 arm-wt-22k/lib_src/eas_otadata.h | 1 +
 2 files changed, 10 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_ota.c b/arm-wt-22k/lib_src/eas_ota.c
index 740d1ea..3b65711 100644
--- a/arm-wt-22k/lib_src/eas_ota.c
+++ b/arm-wt-22k/lib_src/eas_ota.c
@@ -370,9 +370,17 @@ static EAS_RESULT OTA_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_I
         if (pData->loopCount && ((parserMode == eParserModePlay) || (pData->loopCount != OTA_INFINITE_LOOP)))
         {
             ALOGV("%s() loop backwards, loopCount = %d", __func__, pData->loopCount);
+            /* a pattern that takes no time cannot be repeated for ever */
+            if ((pData->loopCount == OTA_INFINITE_LOOP) && (pData->time == pData->loopTime))
+            {
+                pData->loopCount = 0;
+                continue;
+            }
+
             /* if not infinite loop, decrement loop count */
             if (pData->loopCount != OTA_INFINITE_LOOP)
                 pData->loopCount--;
+            pData->loopTime = pData->time;
 
             /* back to start of pattern*/
             if ((result = OTA_RestorePosition(pEASData->hwInstData, pData, &pData->patterns[pData->currentPattern])) != EAS_SUCCESS)
@@ -440,6 +448,7 @@ static EAS_RESULT OTA_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_I
 
             /* decrement pattern count */
             pData->numPatterns--;
+            pData->loopTime = pData->time;
         }
 
         /* restore previous position */
diff --git a/arm-wt-22k/lib_src/eas_otadata.h b/arm-wt-22k/lib_src/eas_otadata.h
index c06e3d3..21b2ef2 100644
--- a/arm-wt-22k/lib_src/eas_otadata.h
+++ b/arm-wt-22k/lib_src/eas_otadata.h
@@ -59,6 +59,7 @@ typedef struct
     S_SYNTH *pSynth;                /* synth handle */
     EAS_I32         fileOffset;             /* offset to start of data */
     EAS_I32         time;                   /* current time in 256ths of a msec */
+    EAS_I32         loopTime;               /* time at the start of the current pass of the pattern */
     EAS_U32         tick;                   /* length of 32nd note in 256th of a msec */
     EAS_U32         restTicks;              /* ticks to rest after current note */
     S_OTA_LOC       patterns[4];            /* pattern locations */
-- 
2.43.0


From 47dade24b08ae1efa4588d211f45557e0cff2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 58/82] fix: an OTA song goes on behind a pattern that is
 played again

---
 arm-wt-22k/lib_src/eas_ota.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_ota.c b/arm-wt-22k/lib_src/eas_ota.c
index 3b65711..1c35500 100644
--- a/arm-wt-22k/lib_src/eas_ota.c
+++ b/arm-wt-22k/lib_src/eas_ota.c
@@ -456,6 +456,7 @@ static EAS_RESULT OTA_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_I
         {
             if ((result = OTA_RestorePosition(pEASData->hwInstData, pData, &pData->restore)) != EAS_SUCCESS)
                 return result;
+            pData->restore.fileOffset = -1;
         }
     }
 
@@ -1092,7 +1093,6 @@ static EAS_RESULT OTA_SavePosition (EAS_HW_DATA_HANDLE hwInstData, S_OTA_DATA *p
 static EAS_RESULT OTA_RestorePosition (EAS_HW_DATA_HANDLE hwInstData, S_OTA_DATA *pData, S_OTA_LOC *pLoc)
 {
     EAS_HWMemCpy(&pData->current, pLoc, sizeof(S_OTA_LOC));
-    pData->restore.fileOffset = -1;
     return EAS_HWFileSeek(hwInstData, pData->fileHandle, pLoc->fileOffset);
 }
 
-- 
2.43.0


From f257d070ecf7ebbaadcbee9cf27d02af4e541325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 59/82] fix: RTTTL files with a two-letter title ending in J or
 K are not taken for OTA

---
 arm-wt-22k/host_src/eas_config.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/host_src/eas_config.c b/arm-wt-22k/host_src/eas_config.c
index 0b92357..6f91903 100644
--- a/arm-wt-22k/host_src/eas_config.c
+++ b/arm-wt-22k/host_src/eas_config.c
@@ -112,10 +112,6 @@ EAS_VOID_PTR const parserModules[] =
     &EAS_SMAF_Parser,
 #endif
 
-#ifdef _OTA_PARSER
-    &EAS_OTA_Parser,
-#endif
-
 #ifdef _IMELODY_PARSER
     &EAS_iMelody_Parser,
 #endif
@@ -124,6 +120,11 @@ EAS_VOID_PTR const parserModules[] =
     &EAS_RTTTL_Parser,
 #endif
 
+    /* the few bits that identify OTA also occur in the title of RTTTL files */
+#ifdef _OTA_PARSER
+    &EAS_OTA_Parser,
+#endif
+
 #if defined (_CMX_PARSER) || defined(_MFI_PARSER)
     &EAS_CMF_Parser
 #endif
-- 
2.43.0


From 8f53b3ae216a32d1375d09e92d35551d0fb023aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 60/82] fix: iMelody metadata fits the buffer of the host

---
 arm-wt-22k/lib_src/eas_imelody.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_imelody.c b/arm-wt-22k/lib_src/eas_imelody.c
index 1c706e8..f6b1420 100644
--- a/arm-wt-22k/lib_src/eas_imelody.c
+++ b/arm-wt-22k/lib_src/eas_imelody.c
@@ -1415,8 +1415,8 @@ static void IMY_MetaData (S_IMELODY_DATA *pData, E_EAS_METADATA_TYPE metaType, E
 
     /* copy data to host buffer */
     len = (EAS_I32) strlen((char*) buffer);
-    if (len >pData->metadata.bufferSize)
-        len = pData->metadata.bufferSize;
+    if (len >= pData->metadata.bufferSize)
+        len = pData->metadata.bufferSize - 1;
     strncpy((char*) pData->metadata.buffer, (char*) buffer, (size_t) len);
     pData->metadata.buffer[len] = 0;
 
-- 
2.43.0


From eede016a4f6ce05429d3a790f8007b7d2446a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 61/82] fix: long numbers in iMelody files do not overflow

---
 arm-wt-22k/lib_src/eas_imelody.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_imelody.c b/arm-wt-22k/lib_src/eas_imelody.c
index f6b1420..c2bef16 100644
--- a/arm-wt-22k/lib_src/eas_imelody.c
+++ b/arm-wt-22k/lib_src/eas_imelody.c
@@ -1323,7 +1323,9 @@ static EAS_BOOL IMY_GetNumber (EAS_HW_DATA_HANDLE hwInstData, S_IMELODY_DATA *pD
         c = IMY_GetNextChar(hwInstData, pData, inHeader);
         if (IsDigit(c))
         {
-            *temp = *temp * 10 + c - '0';
+            /* no value of the format needs more digits */
+            if (*temp < 100000)
+                *temp = *temp * 10 + c - '0';
             ok = EAS_TRUE;
         }
         else
@@ -1369,7 +1371,7 @@ static EAS_BOOL IMY_GetVersion (S_IMELODY_DATA *pData, EAS_INT *pVersion)
         if ((c == 0) || (c == '.'))
         {
             /*lint -e{701} use shift for performance */
-            version = (version << 8) + temp;
+            version = ((version << 8) + temp) & 0xffffff;
             if (c == 0)
             {
 
@@ -1383,7 +1385,7 @@ static EAS_BOOL IMY_GetVersion (S_IMELODY_DATA *pData, EAS_INT *pVersion)
             temp = 0;
         }
         else if (IsDigit(c))
-            temp = (temp * 10) + c - '0';
+            temp = ((temp * 10) + c - '0') & 0xffff;
     }
 }
 
-- 
2.43.0


From 1815be60c67a8bf9fde30c6d81f01abe9dcb4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 62/82] fix: an RTTTL song may end with the note b

---
 arm-wt-22k/lib_src/eas_rtttl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_rtttl.c b/arm-wt-22k/lib_src/eas_rtttl.c
index 4d0490b..f51d119 100644
--- a/arm-wt-22k/lib_src/eas_rtttl.c
+++ b/arm-wt-22k/lib_src/eas_rtttl.c
@@ -357,7 +357,10 @@ static EAS_RESULT RTTTL_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS
         if (c == 'b')
         {
             /* peek at next character */
-            if ((result = RTTTL_PeekNextChar(pEASData->hwInstData, pData, &c)) != EAS_SUCCESS)
+            result = RTTTL_PeekNextChar(pEASData->hwInstData, pData, &c);
+            if (result == EAS_EOF)
+                c = ',';
+            else if (result != EAS_SUCCESS)
                 return result;
 
             /* if a number, must be octave or tempo */
-- 
2.43.0


From 125619f70eff9922ef4bcffbd2f224ac951c23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 63/82] fix: an RTTTL note b with an octave is played

---
 arm-wt-22k/lib_src/eas_rtttl.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_rtttl.c b/arm-wt-22k/lib_src/eas_rtttl.c
index f51d119..6823317 100644
--- a/arm-wt-22k/lib_src/eas_rtttl.c
+++ b/arm-wt-22k/lib_src/eas_rtttl.c
@@ -369,10 +369,11 @@ static EAS_RESULT RTTTL_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS
                 if ((result = RTTTL_GetNumber(pEASData->hwInstData, pData, &temp)) != EAS_SUCCESS)
                     return result;
 
-                /* check for octave first */
+                /* the note b in the octave that follows */
                 if ((temp >= 4) && (temp <= 7))
                 {
-                    octave = (EAS_U8) temp;
+                    note = noteTable[1];
+                    octave = (EAS_U8) (temp * 12);
                 }
 
                 /* check for tempo */
-- 
2.43.0


From bd1214cf5928879b7e1cf1a747c157e0f0cd9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 64/82] fix: an RTTTL stream that cannot be prepared is freed
 only when it is closed

---
 arm-wt-22k/lib_src/eas_rtttl.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_rtttl.c b/arm-wt-22k/lib_src/eas_rtttl.c
index 6823317..509b02c 100644
--- a/arm-wt-22k/lib_src/eas_rtttl.c
+++ b/arm-wt-22k/lib_src/eas_rtttl.c
@@ -203,12 +203,7 @@ static EAS_RESULT RTTTL_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     pData->state = EAS_STATE_ERROR;
     if ((result = RTTTL_ParseHeader (pEASData,  pData, (EAS_BOOL) (pData->metadata.callback != NULL))) != EAS_SUCCESS)
-    {
-        /* if using dynamic memory, free it */
-        if (!pEASData->staticMemoryModel)
-            EAS_HWFree(pEASData->hwInstData, pData);
         return result;
-    }
 
     pData->state = EAS_STATE_READY;
     return EAS_SUCCESS;
-- 
2.43.0


From e247f591a779403d8fb52df29cf311dbf3daa0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 65/82] fix: the default duration in RTTTL files is a quarter
 note

---
 arm-wt-22k/lib_src/eas_rtttl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_rtttl.c b/arm-wt-22k/lib_src/eas_rtttl.c
index 509b02c..eeae4ae 100644
--- a/arm-wt-22k/lib_src/eas_rtttl.c
+++ b/arm-wt-22k/lib_src/eas_rtttl.c
@@ -1021,7 +1021,7 @@ static EAS_RESULT RTTTL_ParseHeader (S_EAS_DATA *pEASData, S_RTTTL_DATA* pData,
     pData->time = 0;
     pData->tick = DEFAULT_TICK_CONV;
     pData->note = 0;
-    pData->duration = 4;
+    pData->duration = 8;
     pData ->restTicks = 0;
     pData->octave = 60;
     pData->repeatOffset = -1;
-- 
2.43.0


From 0a7e3b60df509aded33694e45c133fc021ee7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 66/82] fix: an iMelody stream that cannot be prepared does not
 take a synthesizer again

---
 arm-wt-22k/lib_src/eas_imelody.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_imelody.c b/arm-wt-22k/lib_src/eas_imelody.c
index c2bef16..f7d8f39 100644
--- a/arm-wt-22k/lib_src/eas_imelody.c
+++ b/arm-wt-22k/lib_src/eas_imelody.c
@@ -271,6 +271,7 @@ static EAS_RESULT IMY_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     }
 
     /* parse the header */
+    pData->state = EAS_STATE_ERROR;
     if ((result = IMY_ParseHeader(pEASData,  pData)) != EAS_SUCCESS)
         return result;
 
-- 
2.43.0


From 6333307e107e5cfb69269525c71484fbfc6b6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 67/82] fix: an XMF file with a bank gives back the bank for
 all streams that it replaces

---
 arm-wt-22k/lib_src/eas_xmf.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_xmf.c b/arm-wt-22k/lib_src/eas_xmf.c
index 937758c..7ba6405 100644
--- a/arm-wt-22k/lib_src/eas_xmf.c
+++ b/arm-wt-22k/lib_src/eas_xmf.c
@@ -224,11 +224,13 @@ static EAS_RESULT XMF_CheckFileType (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileH
 static EAS_RESULT XMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 {
     S_XMF_DATA* pXMFData;
+    S_SYNTH *pSynth;
+    S_DLS *pOldDLS;
     EAS_RESULT result;
 
     /* parse DLS collection */
     pXMFData = (S_XMF_DATA*) pInstData;
-    if (pXMFData->dlsOffset != 0)
+    if ((pXMFData->dlsOffset != 0) && (pXMFData->pDLS == NULL))
     {
         if ((result = DLSParser(pEASData->hwInstData, pXMFData->fileHandle, pXMFData->dlsOffset, &pXMFData->pDLS)) != EAS_SUCCESS)
         {
@@ -245,12 +247,16 @@ static EAS_RESULT XMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     if (pXMFData->pDLS == NULL)
         return EAS_SUCCESS;
 
-    /* tell the synth to use the DLS collection */
-    result = VMSetDLSLib(((S_SMF_DATA*) pXMFData->pSMFData)->pSynth, pXMFData->pDLS);
+    /* tell the synth to use the DLS collection instead of the one for all streams */
+    pSynth = ((S_SMF_DATA*) pXMFData->pSMFData)->pSynth;
+    pOldDLS = pSynth->pDLS;
+    result = VMSetDLSLib(pSynth, pXMFData->pDLS);
     if (result == EAS_SUCCESS)
     {
         DLSAddRef(pXMFData->pDLS);
-        VMInitializeAllChannels(pEASData->pVoiceMgr, ((S_SMF_DATA*) pXMFData->pSMFData)->pSynth);
+        VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
+        if (pOldDLS != NULL)
+            DLSCleanup(pEASData->hwInstData, pOldDLS);
     }
     return result;
 }
-- 
2.43.0


From 1c7733f884b105c51e0abd8797d376dd47a30afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 68/82] fix: a JET file that is closed or cannot be opened
 leaves nothing behind

---
 arm-wt-22k/lib_src/jet.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index a2df5d1..018f6d9 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -49,6 +49,7 @@ static const S_JET_CONFIG jetDefaultConfig =
 extern EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_INT param, EAS_I32 value);
 extern EAS_RESULT EAS_OpenJETStream (EAS_DATA_HANDLE pEASData, EAS_FILE_HANDLE fileHandle, EAS_I32 offset, EAS_HANDLE *ppStream);
 extern EAS_RESULT DLSParser (EAS_HW_DATA_HANDLE hwInstData, EAS_FILE_HANDLE fileHandle, EAS_I32 offset, EAS_DLSLIB_HANDLE *ppDLS);
+extern EAS_RESULT DLSCleanup (EAS_HW_DATA_HANDLE hwInstData, EAS_DLSLIB_HANDLE pDLS);
 
 /*----------------------------------------------------------------------------
  * JET_ParseEvent()
@@ -411,9 +412,9 @@ EAS_PUBLIC EAS_RESULT JET_OpenFile (EAS_DATA_HANDLE easHandle, EAS_FILE_LOCATOR
         pos += chunkSize;
     }
 
-    /* close file if something went wrong */
+    /* close file and free collections if something went wrong */
     if (result != EAS_SUCCESS)
-        EAS_HWCloseFile(easHandle->hwInstData, easHandle->jetHandle->jetFileHandle);
+        JET_CloseFile(easHandle);
 
     return result;
 }
@@ -469,6 +470,21 @@ EAS_PUBLIC EAS_RESULT JET_CloseFile (EAS_DATA_HANDLE easHandle)
         if (result == EAS_SUCCESS)
             easHandle->jetHandle->jetFileHandle = NULL;
     }
+
+    /* nothing of the file must be left for the next one */
+    if (result == EAS_SUCCESS)
+    {
+        for (index = 0; index < JET_MAX_DLS_COLLECTIONS; index++)
+        {
+            DLSCleanup(easHandle->hwInstData, easHandle->jetHandle->libHandles[index]);
+            easHandle->jetHandle->libHandles[index] = NULL;
+        }
+        EAS_HWMemSet(easHandle->jetHandle->segmentOffsets, 0, sizeof(easHandle->jetHandle->segmentOffsets));
+        easHandle->jetHandle->numSegments = easHandle->jetHandle->numLibraries = 0;
+        easHandle->jetHandle->appDataOffset = easHandle->jetHandle->appDataSize = 0;
+        easHandle->jetHandle->playSegment = easHandle->jetHandle->queueSegment = 0;
+        easHandle->jetHandle->flags &= ~JET_FLAGS_PLAYING;
+    }
     return result;
 }
 
@@ -518,19 +534,11 @@ EAS_PUBLIC EAS_RESULT JET_Init (EAS_DATA_HANDLE easHandle, const S_JET_CONFIG *p
 EAS_PUBLIC EAS_RESULT JET_Shutdown (EAS_DATA_HANDLE easHandle)
 {
     EAS_RESULT result;
-    int i;
 
     /* close any open files */
     result = JET_CloseFile(easHandle);
 
     /* free allocated data */
-    for(i = 0 ; i < easHandle->jetHandle->numLibraries ; i++) {
-        if(easHandle->jetHandle->libHandles[i] != NULL) {
-            EAS_HWFree(easHandle->hwInstData, easHandle->jetHandle->libHandles[i]);
-            easHandle->jetHandle->libHandles[i] = NULL;
-        }
-    }
-
     EAS_HWFree(easHandle->hwInstData, easHandle->jetHandle);
     easHandle->jetHandle = NULL;
     return result;
-- 
2.43.0


From 6acd2d6f41c42400390154ec685aefb107103c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 69/82] fix: a JET segment that cannot be queued does not block
 the queue

---
 arm-wt-22k/lib_src/jet.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 018f6d9..9fbd7ff 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -627,7 +627,7 @@ EAS_PUBLIC EAS_RESULT JET_QueueSegment (EAS_DATA_HANDLE easHandle, EAS_INT segme
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "JET_QueueSegment segNum=%d, queue=%d\n", segmentNum, easHandle->jetHandle->queueSegment); */ }
 
     /* make sure it's a valid segment */
-    if (segmentNum >= easHandle->jetHandle->numSegments)
+    if ((segmentNum < 0) || (segmentNum >= easHandle->jetHandle->numSegments))
         return EAS_ERROR_PARAMETER_RANGE;
 
     /* make sure it's a valid DLS */
@@ -647,10 +647,18 @@ EAS_PUBLIC EAS_RESULT JET_QueueSegment (EAS_DATA_HANDLE easHandle, EAS_INT segme
     p->muteFlags = muteFlags;
     p->state = JET_STATE_CLOSED;
 
+    /* create duplicate file handle, it belongs to the stream of the segment */
+    result = EAS_HWDupHandle(easHandle->hwInstData, easHandle->jetHandle->jetFileHandle, &fileHandle);
+    if (result != EAS_SUCCESS)
+        return result;
+
     /* open the file */
-    result = EAS_OpenJETStream(easHandle, easHandle->jetHandle->jetFileHandle, easHandle->jetHandle->segmentOffsets[segmentNum], &p->streamHandle);
+    result = EAS_OpenJETStream(easHandle, fileHandle, easHandle->jetHandle->segmentOffsets[segmentNum], &p->streamHandle);
     if (result != EAS_SUCCESS)
+    {
+        EAS_HWCloseFile(easHandle->hwInstData, fileHandle);
         return result;
+    }
     p->state = JET_STATE_OPEN;
 
     /* if less than SEG_QUEUE_DEPTH segments queued up, prepare file for playback */
@@ -658,15 +666,12 @@ EAS_PUBLIC EAS_RESULT JET_QueueSegment (EAS_DATA_HANDLE easHandle, EAS_INT segme
     {
         result = JET_PrepareSegment(easHandle, easHandle->jetHandle->queueSegment);
         if (result != EAS_SUCCESS)
+        {
+            JET_CloseSegment(easHandle, easHandle->jetHandle->queueSegment);
             return result;
+        }
     }
 
-    /* create duplicate file handle */
-    result = EAS_HWDupHandle(easHandle->hwInstData, easHandle->jetHandle->jetFileHandle, &fileHandle);
-    if (result != EAS_SUCCESS)
-        return result;
-
-    easHandle->jetHandle->jetFileHandle = fileHandle;
     easHandle->jetHandle->queueSegment = (EAS_U8) JET_NextSegment(easHandle->jetHandle->queueSegment);
     return result;
 }
-- 
2.43.0


From 710bc0f9ebb7aa19de620dd352cd375870ad3fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 70/82] fix: JET mute flags of high tracks

---
 arm-wt-22k/lib_src/jet.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 9fbd7ff..984aaf3 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -805,7 +805,7 @@ EAS_PUBLIC EAS_RESULT JET_SetMuteFlag (EAS_DATA_HANDLE easHandle, EAS_INT trackN
     /* setup flag */
     if ((trackNum < 0) || (trackNum > 31))
         return EAS_ERROR_PARAMETER_RANGE;
-    trackMuteFlag = (1 << trackNum);
+    trackMuteFlag = ((EAS_U32) 1 << trackNum);
 
     /* get pointer to current segment */
     pSeg = &easHandle->jetHandle->segQueue[easHandle->jetHandle->playSegment];
@@ -1048,7 +1048,9 @@ void JET_Event (EAS_DATA_HANDLE easHandle, EAS_U32 segTrack, EAS_U8 channel, EAS
             {
                 /* get segment pointer and mute flag */
                 pSeg = &easHandle->jetHandle->segQueue[segTrack >> JET_EVENT_SEG_SHIFT];
-                muteFlag = 1 << ((segTrack & JET_EVENT_TRACK_MASK) >> JET_EVENT_TRACK_SHIFT);
+                /* there are mute flags for the first 32 tracks */
+                muteFlag = (segTrack & JET_EVENT_TRACK_MASK) >> JET_EVENT_TRACK_SHIFT;
+                muteFlag = (muteFlag < 32) ? ((EAS_U32) 1 << muteFlag) : 0;
 
                 /* un-mute the track */
                 if ((easHandle->jetHandle->muteQueue[i] & JET_CLIP_TRIGGER_FLAG) && ((value & 0x40) > 0))
-- 
2.43.0


From 7b439376bd3dd7d13bb1d50daac543dc48f52e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 71/82] fix: a JET segment queued while the one before it ends
 is played

---
 arm-wt-22k/lib_src/jet.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 984aaf3..95e75cc 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -919,6 +919,10 @@ EAS_PUBLIC EAS_RESULT JET_Process (EAS_DATA_HANDLE easHandle)
 
     /* check state of all streams */
     index = playIndex = easHandle->jetHandle->playSegment;
+
+    /* the current segment was queued when the one before it had already ended */
+    if (easHandle->jetHandle->flags & JET_FLAGS_PLAYING)
+        startNextSegment = EAS_TRUE;
     for (;;)
     {
         pSeg = &easHandle->jetHandle->segQueue[index];
@@ -935,6 +939,7 @@ EAS_PUBLIC EAS_RESULT JET_Process (EAS_DATA_HANDLE easHandle)
             {
                 /* take action if this segment is stopping */
                 case JET_STATE_PLAYING:
+                    startNextSegment = EAS_FALSE;
                     if (endOfLoop || (state == EAS_STATE_STOPPING) || (state == EAS_STATE_STOPPED))
                     {
                         /* handle repeats */
@@ -990,13 +995,27 @@ EAS_PUBLIC EAS_RESULT JET_Process (EAS_DATA_HANDLE easHandle)
                     break;
 
                 case JET_STATE_OPEN:
-                    if (prepareNextSegment)
+                    if (prepareNextSegment || startNextSegment)
                     {
                         result = JET_PrepareSegment(easHandle, index);
                         if (result != EAS_SUCCESS)
+                        {
+                            /* go on with the next segment, if there is one */
+                            JET_CloseSegment(easHandle, index);
+                            if (index == easHandle->jetHandle->playSegment)
+                                easHandle->jetHandle->playSegment = (EAS_U8) JET_NextSegment(index);
                             return result;
+                        }
                         prepareNextSegment = EAS_FALSE;
                     }
+                    if (startNextSegment)
+                    {
+                        result = JET_StartPlayback(easHandle, index);
+                        if (result != EAS_SUCCESS)
+                            return result;
+                        startNextSegment = EAS_FALSE;
+                        prepareNextSegment = EAS_TRUE;
+                    }
                     break;
 
                 case JET_STATE_PAUSED:
-- 
2.43.0


From 66811072c83b7a4607b1b7bdd52544e33ca319e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 72/82] fix: JET application events tell their track

---
 arm-wt-22k/lib_src/jet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 95e75cc..b11ad2d 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -1102,6 +1102,7 @@ void JET_Event (EAS_DATA_HANDLE easHandle, EAS_U32 segTrack, EAS_U8 channel, EAS
     {
 
         event |= easHandle->jetHandle->segQueue[(segTrack & JET_EVENT_SEG_MASK) >> JET_EVENT_SEG_SHIFT].userID << JET_EVENT_SEG_SHIFT;
+        event |= segTrack & JET_EVENT_TRACK_MASK;
 #ifdef DEBUG_JET
         JET_DumpEvent("JET_Event[app]", event);
 #endif
-- 
2.43.0


From eb91984780614d88b9c1691b9ea15dd2f87182ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 73/82] revert the changes of the renderer in example/

---
 example/sonivoxrender.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/example/sonivoxrender.c b/example/sonivoxrender.c
index 65c164a..285839f 100644
--- a/example/sonivoxrender.c
+++ b/example/sonivoxrender.c
@@ -27,7 +27,7 @@
 
 const char *dls_path = NULL;
 EAS_I32 reverb_type = -1;
-EAS_I32 reverb_wet = -1; /* not given: as the preset says */
+EAS_I32 reverb_wet = 0;
 EAS_DATA_HANDLE mEASDataHandle = NULL;
 
 int Read(void *handle, void *buf, int offset, int size) {
@@ -101,6 +101,13 @@ int initializeLibrary(void)
         }
     }
 
+    result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
+    if (result != EAS_SUCCESS) {
+        fprintf(stderr, "Failed to set reverb wet amount");
+        ok = EXIT_FAILURE;
+        goto cleanup;
+    }
+
     EAS_BOOL sw = EAS_TRUE;
     EAS_I32 preset = reverb_type - 1;
     if ( preset >= EAS_PARAM_REVERB_LARGE_HALL && preset <= EAS_PARAM_REVERB_ROOM ) {
@@ -112,15 +119,6 @@ int initializeLibrary(void)
             goto cleanup;
         }
     }
-    /* after the preset, which brings its own wet amount */
-    if (reverb_wet >= 0) {
-        result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
-        if (result != EAS_SUCCESS) {
-            fprintf(stderr, "Failed to set reverb wet amount");
-            ok = EXIT_FAILURE;
-            goto cleanup;
-        }
-    }
     result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, sw);
     if (result != EAS_SUCCESS) {
         fprintf(stderr, "Failed to set reverb bypass");
@@ -233,12 +231,8 @@ int renderFile(const char *fileName)
             break;
         }
 
-        size_t samples = mEASConfig->mixBufferSize * mEASConfig->numChannels;
-        if (fwrite(mAudioBuffer, sizeof(EAS_PCM), samples, stdout) != samples || fflush(stdout) != 0) {
-            fprintf(stderr, "Failed to write audio. error: %s\n", strerror(errno));
-            ok = EXIT_FAILURE;
-            break;
-        }
+        fwrite(mAudioBuffer, sizeof(EAS_PCM), mEASConfig->mixBufferSize * mEASConfig->numChannels, stdout);
+        fflush(stdout);
     }
 
 cleanup:
-- 
2.43.0


From 44f3b3806c46bbe571fe60c2972bf2f5213a4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 74/82] fix: a retargeted voice keeps its deferred mute

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 76ad10e..ec043fb 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1484,6 +1484,9 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
         pNextSynth->synthFlags |= SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING;
     }
 
+    /* was the new note already cut off by another note of its key group? */
+    pVoice->voiceFlags |= flags & VOICE_FLAG_DEFER_MUTE;
+
     return EAS_TRUE;
 }
 
-- 
2.43.0


From d129585e854f12d5baefd862943735a17aa6f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:47 +0000
Subject: [PATCH 75/82] fix: muting of an SP-MIDI song follows the maximum
 polyphony

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index ec043fb..ac25504 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3441,6 +3441,10 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     if ((polyphonyCount == 0) || (polyphonyCount > MAX_SYNTH_VOICES))
     {
         pSynth->maxPolyphony = 0;
+
+        /* if SP-MIDI mode, update the channel muting */
+        if (pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON)
+            VMMIPUpdateChannelMuting(pVoiceMgr, pSynth);
         return EAS_SUCCESS;
     }
 
-- 
2.43.0


From dc8988c4a0b6ed069f7244d6909c8d42aa35946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 76/82] fix: SP-MIDI muting goes by the smaller of both
 polyphony limits

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index ac25504..9e4a28d 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -766,8 +766,8 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMUpdateMIPTable\n"); */ }
 #endif
 
-    /* determine max polyphony */
-    if (pSynth->maxPolyphony)
+    /* determine max polyphony, the minimum of virtual synth and actual synth */
+    if (pSynth->maxPolyphony && (pSynth->maxPolyphony < pVoiceMgr->maxPolyphony))
         maxPolyphony = pSynth->maxPolyphony;
     else
         maxPolyphony = pVoiceMgr->maxPolyphony;
-- 
2.43.0


From 20d0329e28309bb2f62f85576d3b750e87f9426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:43 +0000
Subject: [PATCH 77/82] fix: a bank whose last region does not apply here is
 accepted

---
 arm-wt-22k/lib_src/eas_mdls.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 7289add..ac0f673 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1702,14 +1702,6 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "DLS region count exceeded cRegions value in insh, extra region ignored\n"); */ }
                 break;
             }
-            /* if second pass, ensure regionCount is less than numDLSRegions */
-            if (pDLSData->pDLS)
-            {
-                if (pDLSData->regionCount >= pDLSData->pDLS->numDLSRegions)
-                {
-                    return EAS_ERROR_DATA_INCONSISTENCY;
-                }
-            }
             if ((result = Parse_rgn(pDLSData, chunkPos + 12, size - 4, artIndex)) != EAS_SUCCESS)
                 return result;
             regionCount++;
@@ -1853,6 +1845,11 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     /* if second pass, process region header */
     if (pDLSData->pDLS)
     {
+        /* ensure regionCount is less than numDLSRegions */
+        if (pDLSData->regionCount >= pDLSData->pDLS->numDLSRegions)
+        {
+            return EAS_ERROR_DATA_INCONSISTENCY;
+        }
 
         /* if local data was found convert it */
         if (art.values[PARAM_MODIFIED] == EAS_TRUE)
-- 
2.43.0


From 7d3270b4e542bf647d61bf54b5b7eec9328dac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 78/82] fix: condition chunks are worked out in 32 bits

---
 arm-wt-22k/lib_src/eas_mdls.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index ac0f673..b14998e 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2417,6 +2417,9 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
                 default:
                     break;
             }
+
+            /* values have 32 bits */
+            x = (uint32_t) x;
         }
 
         else if (opcode == DLS_CDL_NOT)
-- 
2.43.0


From 76b2650868ec03476068a8e288f5ad624651529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 79/82] fix: locating is not cut short by the parsing work
 limit

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a8a9aa0..d7c6dcd 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1402,8 +1402,8 @@ static EAS_RESULT EAS_ParseEvents (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
             }
         }
 
-        /* check for max workload exceeded */
-        if (VMCheckWorkload(pEASData->pVoiceMgr))
+        /* check for max workload exceeded, only rendering can catch up later */
+        if ((parseMode == eParserModePlay) && VMCheckWorkload(pEASData->pVoiceMgr))
         {
             /* stop even though we may not have parsed
              * all the events in this frame. The parser will try to
-- 
2.43.0


From 08cb523ee2e34d4b1d5c06ba6089139dedf5861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 80/82] fix: the header search sees a match that starts at the
 mismatching byte

---
 arm-wt-22k/lib_src/eas_public.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index d7c6dcd..4c10631 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2709,7 +2709,8 @@ EAS_RESULT EAS_SearchFile (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle, con
             }
         }
         else
-            index = 0;
+            /* this may be the first byte of the string */
+            index = (c == searchString[0]) ? 1 : 0;
     }
     return EAS_SUCCESS;
 }
-- 
2.43.0


From db318e22070af3d4dc0b292f1309271f63e6e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:58 +0000
Subject: [PATCH 81/82] fix: voice stealing does not depend on how many notes
 were played before

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 9e4a28d..fd2adf5 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1774,6 +1774,10 @@ void VMStartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_DETAIL, "VMStartVoice: Synth=%d\n", pSynth->vSynthNum); */ }
 #endif
 
+        /* note ages only matter among the voices in use: begin anew when there are none */
+        if (pVoiceMgr->activeVoices == 0)
+            pVoiceMgr->age = 0;
+
         /* bump voice counts */
         pVoiceMgr->activeVoices++;
         pSynth->numActiveVoices++;
-- 
2.43.0


From b8fd1a795ff239c929b07d29e0f9fb3e90597593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:13 +0000
Subject: [PATCH 82/82] fix: an envelope without a decay time goes to its
 sustain level at once

---
 arm-wt-22k/lib_src/eas_dlssynth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_dlssynth.c b/arm-wt-22k/lib_src/eas_dlssynth.c
index cefc118..b59e4b8 100644
--- a/arm-wt-22k/lib_src/eas_dlssynth.c
+++ b/arm-wt-22k/lib_src/eas_dlssynth.c
@@ -551,7 +551,7 @@ static void DLS_UpdateEnvelope (S_SYNTH_VOICE *pVoice, S_SYNTH_CHANNEL *pChannel
                 return;
             }
 
-//          *pValue = pEnvParams->sustainLevel;
+            *pValue = pEnvParams->sustainLevel;
             /*lint -e{825} falls through to next case */
 
         case eEnvelopeStateDecay:
-- 
2.43.0

