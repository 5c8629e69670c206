From 83cdf333c6922924e8e49abcc6888b87478b5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 01/70] fix: reset the phase fraction when a voice starts

A reused voice kept the fractional sample position of the note it played
before, so the samples of a note depended on the history of the voice.
---
 arm-wt-22k/lib_src/eas_dlssynth.c | 1 +
 arm-wt-22k/lib_src/eas_wtsynth.c  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_dlssynth.c b/arm-wt-22k/lib_src/eas_dlssynth.c
index a07262c..cefc118 100644
--- a/arm-wt-22k/lib_src/eas_dlssynth.c
+++ b/arm-wt-22k/lib_src/eas_dlssynth.c
@@ -345,6 +345,7 @@ EAS_RESULT DLS_StartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNTH_VOIC
     pWTVoice->filter.z2 = 0;
 
     /* initialize the oscillator */
+    pWTVoice->phaseFrac = 0;
     pWTVoice->phaseAccum = (EAS_U32) pSynth->pDLS->pDLSSamples + pSynth->pDLS->pDLSSampleOffsets[pDLSRegion->wtRegion.waveIndex];
     if (pDLSRegion->wtRegion.region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED)
     {
diff --git a/arm-wt-22k/lib_src/eas_wtsynth.c b/arm-wt-22k/lib_src/eas_wtsynth.c
index ea1fe78..ba5e68e 100644
--- a/arm-wt-22k/lib_src/eas_wtsynth.c
+++ b/arm-wt-22k/lib_src/eas_wtsynth.c
@@ -382,6 +382,9 @@ static EAS_RESULT WT_StartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNT
     pWTVoice->filter.z2 = 0;
 #endif
 
+    /* start exactly at the first sample, whatever played on this voice before */
+    pWTVoice->phaseFrac = 0;
+
     /* if this wave is to be generated using noise generator */
     if (pRegion->region.keyGroupAndFlags & REGION_FLAG_USE_WAVE_GENERATOR)
     {
-- 
2.43.0


From 3f7969e8f2014a15bf5b708f8d5b9f4387f0174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 02/70] fix: do not prepare a song again after its header
 failed to parse

A second EAS_Prepare on such a stream leaked the first synthesizer and
dereferenced the file handle that the first attempt had moved away.
---
 arm-wt-22k/lib_src/eas_smf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 4f8db9d..35f5ffb 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -194,7 +194,11 @@ EAS_RESULT SMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* parse the file header and setup the individual stream parsers */
     if ((result = SMF_ParseHeader(pEASData->hwInstData, pSMFData)) != EAS_SUCCESS)
+    {
+        /* the stream is only partially set up, it can only be closed now */
+        pSMFData->state = EAS_STATE_ERROR;
         return result;
+    }
 
     /* ready to play */
     pSMFData->state = EAS_STATE_READY;
-- 
2.43.0


From 8b5a2f9574cf3f93ac01819a73422a51a1014e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 03/70] fix: do not move the file position when the host read
 callback fails

---
 arm-wt-22k/host_src/eas_hostmm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arm-wt-22k/host_src/eas_hostmm.c b/arm-wt-22k/host_src/eas_hostmm.c
index 606f9fb..a58d2b0 100644
--- a/arm-wt-22k/host_src/eas_hostmm.c
+++ b/arm-wt-22k/host_src/eas_hostmm.c
@@ -297,6 +297,11 @@ EAS_RESULT EAS_HWReadFile (EAS_HW_DATA_HANDLE hwInstData, EAS_FILE_HANDLE file,
     /* copy the data to the requested location, and advance the pointer */
     if (count) {
         count = file->readAt(file->handle, pBuffer, file->filePos, count);
+        if (count < 0)
+        {
+            *pBytesRead = 0;
+            return EAS_ERROR_FILE_READ_FAILED;
+        }
     }
     file->filePos += count;
     *pBytesRead = count;
-- 
2.43.0


From d72832712cbb3aa7e7fe268e4b43509b9aacf823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 04/70] fix: sign-extend the DLS sample gain where EAS_I32 is
 wider than 32 bits

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 1595b60..2b94f2b 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1119,8 +1119,10 @@ static EAS_RESULT Parse_wsmp (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WS
         return result;
 
     /* get gain */
-    if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &p->gain, EAS_FALSE)) != EAS_SUCCESS)
+    if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
         return result;
+    /* the stored value is a signed 32-bit number, EAS_I32 may be wider */
+    p->gain = (EAS_I32) (int32_t) ltemp;
     if (p->gain > 0)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "Positive gain [%ld] in DLS wsmp ignored, set to 0dB\n", p->gain); */ }
-- 
2.43.0


From 2c960a144a59675520ef178921f34105a2af604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 05/70] fix: copy the loop start sample behind the loop end of
 16-bit DLS waves

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 2b94f2b..a81ff89 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1371,16 +1371,12 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     /* for looped samples, copy the last sample to the end */
     if (pWsmp->loopLength)
     {
-        if( (pDLSData->wavePoolOffset + pWsmp->loopLength) >= pDLSData->wavePoolSize )
-        {
-            return EAS_SUCCESS;
-        }
         if (sampleLen < sizeof(EAS_SAMPLE)
             || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - sizeof(EAS_SAMPLE)) {
             return EAS_FAILURE;
         }
 
-        pSample[(pWsmp->loopStart + pWsmp->loopLength)>>1] = pSample[(pWsmp->loopStart)>>1];
+        pSample[pWsmp->loopStart + pWsmp->loopLength] = pSample[pWsmp->loopStart];
     }
 
     return EAS_SUCCESS;
-- 
2.43.0


From 9ea5c1106771b06653bd3c03a0e88383021fb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 06/70] fix: wrap a looped wave at its loop end instead of one
 sample before its loop start

---
 arm-wt-22k/lib_src/eas_wtengine.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_wtengine.c b/arm-wt-22k/lib_src/eas_wtengine.c
index dc8d864..0401d11 100644
--- a/arm-wt-22k/lib_src/eas_wtengine.c
+++ b/arm-wt-22k/lib_src/eas_wtengine.c
@@ -189,6 +189,7 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     EAS_I32 phaseFrac;
     EAS_I32 acc0;
     const EAS_SAMPLE *pSamples;
+    const EAS_SAMPLE *loopStart;
     const EAS_SAMPLE *loopEnd;
     EAS_I32 samp1;
     EAS_I32 samp2;
@@ -207,6 +208,7 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     }
     pOutputBuffer = pWTIntFrame->pAudioBuffer;
 
+    loopStart = (const EAS_SAMPLE*) pWTVoice->loopStart;
     loopEnd = (const EAS_SAMPLE*) pWTVoice->loopEnd + 1;
     pSamples = (const EAS_SAMPLE*) pWTVoice->phaseAccum;
     /*lint -e{713} truncation is OK */
@@ -218,10 +220,10 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     /*lint -e{701} <avoid multiply for performance>*/
     samp1 = pSamples[0] << 8;
     /*lint -e{701} <avoid multiply for performance>*/
-    samp2 = pSamples[1] << 8;
+    samp2 = ((&pSamples[1] == loopEnd) ? loopStart[0] : pSamples[1]) << 8;
 #else
     samp1 = pSamples[0];
-    samp2 = pSamples[1];
+    samp2 = (&pSamples[1] == loopEnd) ? loopStart[0] : pSamples[1];
 #endif
 
     while (numSamples--) {
@@ -249,10 +251,9 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
             pSamples +=  nextSamplePhaseInc;
             phaseFrac = phaseFrac & PHASE_FRAC_MASK;
 
-            /* decrementing pSamples by entire buffer length until second pSample is within */
-            /* loopEnd                                                                      */
-            while (&pSamples[1] >= loopEnd) {
-                pSamples -= (loopEnd - (const EAS_SAMPLE*)pWTVoice->loopStart);
+            /* wrap around to stay within the loop */
+            if (pSamples >= loopEnd) {
+                pSamples = loopStart + ((pSamples - loopStart) % (loopEnd - loopStart));
             }
 
             /* fetch new samples */
@@ -260,10 +261,10 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
             /*lint -e{701} <avoid multiply for performance>*/
             samp1 = pSamples[0] << 8;
             /*lint -e{701} <avoid multiply for performance>*/
-            samp2 = pSamples[1] << 8;
+            samp2 = ((&pSamples[1] == loopEnd) ? loopStart[0] : pSamples[1]) << 8;
 #else
             samp1 = pSamples[0];
-            samp2 = pSamples[1];
+            samp2 = (&pSamples[1] == loopEnd) ? loopStart[0] : pSamples[1];
 #endif
         }
     }
-- 
2.43.0


From 1a1a363ff772b2b2f325b906bdd2fa31ec9101ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 07/70] fix: stop reading a DLS list at its end instead of four
 bytes behind it

---
 arm-wt-22k/lib_src/eas_mdls.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index a81ff89..eae8ff6 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -942,7 +942,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     pos = chunkPos;
-    endChunk = pos + size;
+    endChunk = pos + size - 4;  /* the list size includes the form type */
     while (pos < endChunk)
     {
         chunkPos = pos;
@@ -1481,7 +1481,7 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     lrgnPos = lrgnSize = lartPos = lartSize = lar2Pos = lar2Size = inshPos = artIndex = 0;
 
     /* read to end of chunk */
-    endChunk = pos + size;
+    endChunk = pos + size - 4;  /* the list size includes the form type */
     while (pos < endChunk)
     {
         chunkPos = pos;
@@ -1662,7 +1662,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     regionCount = 0;
-    endChunk = pos + size;
+    endChunk = pos + size - 4;  /* the list size includes the form type */
     while (pos < endChunk)
     {
         chunkPos = pos;
@@ -1741,7 +1741,7 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     regionIndex = (EAS_U16) pDLSData->regionCount;
 
     /* read to end of chunk */
-    endChunk = pos + size;
+    endChunk = pos + size - 4;  /* the list size includes the form type */
     while (pos < endChunk)
     {
         chunkPos = pos;
@@ -1997,7 +1997,7 @@ static EAS_RESULT Parse_lart (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     art1Pos = art2Pos = 0;
 
     /* read to end of chunk */
-    endChunk = pos + size;
+    endChunk = pos + size - 4;  /* the list size includes the form type */
     while (pos < endChunk)
     {
         chunkPos = pos;
-- 
2.43.0


From 020b18eb28ebe4120a58a4b948e0f099d6eb6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 08/70] fix: evaluate a DLS conditional chunk up to its end
 only

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index eae8ff6..5e98dce 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2330,9 +2330,10 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
     stackPtr = -1;
     *pValue = 0;
     x = 0;
-    while (size)
+    while (size >= (EAS_I32) sizeof(opcode))
     {
         /* read the opcode */
+        size -= (EAS_I32) sizeof(opcode);
         if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &opcode, EAS_FALSE)) != EAS_SUCCESS)
             return result;
 
@@ -2404,12 +2405,14 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
 
         else if (opcode == DLS_CDL_CONST)
         {
+            size -= 4;
             if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &x, EAS_FALSE)) != EAS_SUCCESS)
                 return result;
         }
 
         else if (opcode == DLS_CDL_QUERY)
         {
+            size -= 16;
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
             QueryGUID(&dlsid, &x);
@@ -2417,6 +2420,7 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
 
         else if (opcode == DLS_CDL_QUERYSUPPORTED)
         {
+            size -= 16;
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
             x = QueryGUID(&dlsid, &y);
-- 
2.43.0


From 989f70d960543b9c54ef4c762243ad7575aebc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 09/70] fix: clear the padding of a DLS ID before it is
 compared

---
 arm-wt-22k/lib_src/eas_mdls.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 5e98dce..44e79e0 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2295,6 +2295,9 @@ static EAS_RESULT ReadDLSID (SDLS_SYNTHESIZER_DATA *pDLSData, DLSID *pDLSID)
     EAS_RESULT result;
     EAS_I32 n;
 
+    /* IDs are compared as a whole, clear any padding */
+    EAS_HWMemSet(pDLSID, 0, sizeof(DLSID));
+
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data1, EAS_FALSE)) != EAS_SUCCESS)
         return result;
     if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data2, EAS_FALSE)) != EAS_SUCCESS)
-- 
2.43.0


From 00c28d8159face70d1dbf0525128ee0287c111c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 10/70] fix: always mark the last region of a DLS instrument

---
 arm-wt-22k/lib_src/eas_mdls.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 44e79e0..5bdefee 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1655,6 +1655,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     EAS_I32 chunkPos;
     EAS_I32 endChunk;
     EAS_U16 regionCount;
+    EAS_U32 firstRegion;
 
     /* seek to start of chunk */
     if ((result = EAS_HWFileSeek(pDLSData->hwInstData, pDLSData->fileHandle, pos)) != EAS_SUCCESS)
@@ -1662,6 +1663,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     regionCount = 0;
+    firstRegion = pDLSData->regionCount;
     endChunk = pos + size - 4;  /* the list size includes the form type */
     while (pos < endChunk)
     {
@@ -1676,7 +1678,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             if (regionCount == numRegions)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "DLS region count exceeded cRegions value in insh, extra region ignored\n"); */ }
-                return EAS_SUCCESS;
+                break;
             }
             /* if second pass, ensure regionCount is less than numDLSRegions */
             if (pDLSData->pDLS)
@@ -1692,8 +1694,8 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         }
     }
 
-    /* set a flag in the last region */
-    if ((pDLSData->pDLS != NULL) && (regionCount > 0))
+    /* set a flag in the last region, there is none if all were conditional and skipped */
+    if ((pDLSData->pDLS != NULL) && (pDLSData->regionCount > firstRegion))
         pDLSData->pDLS->pDLSRegions[pDLSData->regionCount - 1].wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION;
 
     return EAS_SUCCESS;
-- 
2.43.0


From d0f65dfd48f4790bad796887c23d14a494c25a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 11/70] fix: skip DLS instruments without regions and count
 only the parts that are used

---
 arm-wt-22k/lib_src/eas_mdls.c | 53 ++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 5bdefee..4b72ef4 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1424,15 +1424,6 @@ static EAS_RESULT Parse_lins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         if (temp != CHUNK_INS)
             continue;
 
-        /* if second pass, ensure instCount is less than numDLSPrograms */
-        if (pDLSData->pDLS)
-        {
-            if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
-            {
-                return EAS_ERROR_DATA_INCONSISTENCY;
-            }
-        }
-
         if ((result = Parse_ins(pDLSData, chunkPos + 12, size)) != EAS_SUCCESS)
             return result;
     }
@@ -1472,6 +1463,7 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     S_DLS_ART_VALUES art;
     S_PROGRAM *pProgram;
     EAS_U16 artIndex;
+    EAS_U32 firstRegion;
 
     /* seek to start of chunk */
     if ((result = EAS_HWFileSeek(pDLSData->hwInstData, pDLSData->fileHandle, pos)) != EAS_SUCCESS)
@@ -1555,21 +1547,41 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     {
 
         if (art.values[PARAM_MODIFIED])
+        {
+            /* ensure artIndex is less than numDLSArticulations */
+            if (artIndex >= pDLSData->pDLS->numDLSArticulations)
+                return EAS_ERROR_DATA_INCONSISTENCY;
+
             Convert_art(pDLSData, &art, artIndex);
+        }
+    }
+
+    /* parse the region data */
+    firstRegion = pDLSData->regionCount;
+    if ((result = Parse_lrgn(pDLSData, lrgnPos, lrgnSize, artIndex, regionCount)) != EAS_SUCCESS)
+        return result;
+
+    /* an instrument without any region has nothing to play */
+    if (pDLSData->regionCount == firstRegion)
+        return EAS_SUCCESS;
+
+    /* convert data on second pass */
+    if (pDLSData->pDLS)
+    {
+
+        /* ensure instCount is less than numDLSPrograms */
+        if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
+            return EAS_ERROR_DATA_INCONSISTENCY;
 
         /* setup pointers */
         pProgram = &pDLSData->pDLS->pDLSPrograms[pDLSData->instCount];
 
         /* initialize instrument */
         pProgram->locale = locale;
-        pProgram->regionIndex = (EAS_U16) pDLSData->regionCount | FLAG_RGN_IDX_DLS_SYNTH;
+        pProgram->regionIndex = (EAS_U16) firstRegion | FLAG_RGN_IDX_DLS_SYNTH;
 
     }
 
-    /* parse the region data */
-    if ((result = Parse_lrgn(pDLSData, lrgnPos, lrgnSize, artIndex, regionCount)) != EAS_SUCCESS)
-        return result;
-
     /* bump instrument count */
     pDLSData->instCount++;
     return EAS_SUCCESS;
@@ -1680,14 +1692,6 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "DLS region count exceeded cRegions value in insh, extra region ignored\n"); */ }
                 break;
             }
-            /* if second pass, ensure regionCount is less than numDLSRegions */
-            if (pDLSData->pDLS)
-            {
-                if (pDLSData->regionCount >= pDLSData->pDLS->numDLSRegions)
-                {
-                    return EAS_ERROR_DATA_INCONSISTENCY;
-                }
-            }
             if ((result = Parse_rgn(pDLSData, chunkPos + 12, size, artIndex)) != EAS_SUCCESS)
                 return result;
             regionCount++;
@@ -1831,6 +1835,11 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     /* if second pass, process region header */
     if (pDLSData->pDLS)
     {
+        /* ensure regionCount is less than numDLSRegions */
+        if (pDLSData->regionCount >= pDLSData->pDLS->numDLSRegions)
+        {
+            return EAS_ERROR_DATA_INCONSISTENCY;
+        }
 
         /* if local data was found convert it */
         if (art.values[PARAM_MODIFIED] == EAS_TRUE)
-- 
2.43.0


From 1d4f427a67156bffc7e6112331fdb98fb43a1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 12/70] fix: reject DLS waves with a sample rate of zero

---
 arm-wt-22k/lib_src/eas_mdls.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 4b72ef4..afa92ee 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1221,6 +1221,8 @@ static EAS_RESULT Parse_fmt (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WSM
     /* get sample rate */
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &p->sampleRate, EAS_FALSE)) != EAS_SUCCESS)
         return result;
+    if (p->sampleRate == 0)
+        return EAS_ERROR_UNRECOGNIZED_FORMAT;
 
     /* bytes/sec */
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
-- 
2.43.0


From a924b9f6fc53313c1eef59772d7a70aa1b731797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 13/70] fix: keep large DLS key groups out of the region flags

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index afa92ee..a4f9567 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1969,8 +1969,8 @@ static EAS_RESULT Parse_rgnh (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_DL
     pRgn->wtRegion.region.rangeLow = (EAS_U8) lowKey;
     pRgn->wtRegion.region.rangeHigh = (EAS_U8) highKey;
 
-    /*lint -e{734} keyGroup will always be from 0-15 */
-    pRgn->wtRegion.region.keyGroupAndFlags = keyGroup << 8;
+    /* keyGroup is limited to 0-15, other bits must not reach the flags */
+    pRgn->wtRegion.region.keyGroupAndFlags = (EAS_U16) ((keyGroup & 0x0f) << 8);
     pRgn->velLow = (EAS_U8) lowVel;
     pRgn->velHigh = (EAS_U8) highVel;
     if (optionFlags & F_RGN_OPTION_SELFNONEXCLUSIVE)
-- 
2.43.0


From 5d820a369b58c8d075b63a62099f3cf9c21ddd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 14/70] fix: close the duplicated file handle when the DLS wave
 pool fails to parse

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index a4f9567..4324563 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -877,7 +877,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* get the offset to the wave and make sure it is within the wtbl chunk */
         if ((result = EAS_HWGetDWord(pDLSData->hwInstData, tempFile, &temp, EAS_FALSE)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
         if (temp > (EAS_U32) wtblSize)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Ptbl offset exceeds size of wtbl\n"); */ }
@@ -887,7 +890,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* parse the wave */
         if ((result = Parse_wave(pDLSData, wtblPos +(EAS_I32)  temp, waveIndex)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
     }
 
     /* close the temporary handle and return */
-- 
2.43.0


From f7d38b167b718d8f09ba4532b7022c27b436ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 15/70] fix: look up the sustained channel within its own
 stream

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 847ce6c..d8c4b83 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1201,6 +1201,7 @@ void VMReleaseAllDeferredNoteOffs (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
 void VMCatchNotesForSustainPedal (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
 {
     EAS_INT voiceNum;
+    S_SYNTH_CHANNEL *pChannel;
 
 #ifdef _DEBUG_VM
     if (channel >= NUM_SYNTH_CHANNELS)
@@ -1212,6 +1213,7 @@ void VMCatchNotesForSustainPedal (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U
 #endif
 
     pVoiceMgr->workload += WORKLOAD_AMOUNT_SMALL_INCREMENT;
+    pChannel = &pSynth->channels[channel];
     channel = VSynthToChannel(pSynth, channel);
 
     /* find all the voices assigned to this channel */
@@ -1220,7 +1222,7 @@ void VMCatchNotesForSustainPedal (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U
         if (channel == pVoiceMgr->voices[voiceNum].channel)
         {
             if (eVoiceStateRelease == pVoiceMgr->voices[voiceNum].voiceState)
-                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
+                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], pChannel, GetAdjustedVoiceNum(voiceNum));
         }
     }
 }
-- 
2.43.0


From f7861c15f881979344e80a4fff3001c75062187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 16/70] fix: count a stolen voice for the stream that is
 waiting for it

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 69 +++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index d8c4b83..9cb4782 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -53,6 +53,9 @@
 /* pointer to base sound library */
 extern S_EAS easSoundLib;
 
+/* local prototypes */
+static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum);
+
 #ifdef TEST_HARNESS
 extern S_EAS easTestLib;
 EAS_SNDLIB_HANDLE VMGetLibHandle(EAS_INT libNum)
@@ -447,6 +450,21 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     /* force voices to off state - may cause audio artifacts */
     if (force)
     {
+        EAS_INT voiceNum;
+
+        /* stolen voices may be shared with another synth, which keeps its part */
+        for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
+        {
+            S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[voiceNum];
+
+            if (pVoice->voiceState != eVoiceStateStolen)
+                continue;
+            if (GET_VSYNTH(pVoice->nextChannel) == pSynth->vSynthNum)
+                VMMuteVoice(pVoiceMgr, voiceNum);
+            else if (GET_VSYNTH(pVoice->channel) == pSynth->vSynthNum)
+                VMRetargetStolenVoice(pVoiceMgr, voiceNum);
+        }
+
         pVoiceMgr->activeVoices -= pSynth->numActiveVoices;
         pSynth->numActiveVoices = 0;
         VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
@@ -603,6 +621,19 @@ void VMInitializeAllVoices (S_VOICE_MGR *pVoiceMgr, EAS_INT vSynthNum)
     }
 }
 
+/*----------------------------------------------------------------------------
+ * VMReturnStolenVoice()
+ *----------------------------------------------------------------------------
+ * The note waiting for a stolen voice is dropped, the voice counts as a voice
+ * of the synth that is still sounding on it.
+ *----------------------------------------------------------------------------
+*/
+static void VMReturnStolenVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH_VOICE *pVoice)
+{
+    pVoiceMgr->pSynth[GET_VSYNTH(pVoice->nextChannel)]->numActiveVoices--;
+    pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)]->numActiveVoices++;
+}
+
 /*----------------------------------------------------------------------------
  * VMMuteVoice()
  *----------------------------------------------------------------------------
@@ -621,6 +652,8 @@ void VMMuteVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
 
     /* one less voice in pool */
     DecVoicePoolCount(pVoiceMgr, pVoice);
+    if (pVoice->voiceState == eVoiceStateStolen)
+        VMReturnStolenVoice(pVoiceMgr, pVoice);
 
     pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)];
     GetSynthPtr(voiceNum)->pfMuteVoice(pVoiceMgr, pSynth, pVoice, GetAdjustedVoiceNum(voiceNum));
@@ -646,7 +679,10 @@ void VMReleaseVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 voiceNum)
 
     /* stolen voices should just be muted */
     if (pVoice->voiceState == eVoiceStateStolen)
+    {
         VMMuteVoice(pVoiceMgr, voiceNum);
+        return;
+    }
 
     /* release this voice */
     GetSynthPtr(voiceNum)->pfReleaseVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], GetAdjustedVoiceNum(voiceNum));
@@ -770,7 +806,10 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
         {
             /* mute stolen voices scheduled to play on this channel */
             if (pVoiceMgr->voices[i].voiceState == eVoiceStateStolen)
+            {
+                VMReturnStolenVoice(pVoiceMgr, &pVoiceMgr->voices[i]);
                 pVoiceMgr->voices[i].voiceState = eVoiceStateMuting;
+            }
 
             /* release voices that aren't already muting */
             else if (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting)
@@ -1273,10 +1312,16 @@ void VMUpdateAllNotesAge (S_VOICE_MGR *pVoiceMgr, EAS_U16 age)
 static void VMStolenVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 voiceNum, EAS_U8 channel, EAS_U8 note, EAS_U8 velocity, EAS_U16 regionIndex)
 {
     S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[voiceNum];
+    EAS_U8 oldChannel;
 
     /* one less voice in old pool */
     DecVoicePoolCount(pVoiceMgr, pVoice);
 
+    /* from now on the voice counts for the synth that stole it */
+    oldChannel = (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
+    pVoiceMgr->pSynth[GET_VSYNTH(oldChannel)]->numActiveVoices--;
+    pSynth->numActiveVoices++;
+
     /* mute the sound that is currently playing */
     GetSynthPtr(voiceNum)->pfMuteVoice(pVoiceMgr, pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)], &pVoiceMgr->voices[voiceNum], GetAdjustedVoiceNum(voiceNum));
     pVoice->voiceState = eVoiceStateStolen;
@@ -1368,14 +1413,12 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
     EAS_U8 flags;
     S_SYNTH_CHANNEL *pMIDIChannel;
     S_SYNTH_VOICE *pVoice;
-    S_SYNTH *pSynth;
     S_SYNTH *pNextSynth;
 
     /* establish some pointers */
     pVoice = &pVoiceMgr->voices[voiceNum];
-    pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)];
-    pMIDIChannel = &pSynth->channels[pVoice->channel & 15];
     pNextSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->nextChannel)];
+    pMIDIChannel = &pNextSynth->channels[pVoice->nextChannel & 15];
 
 #ifdef _DEBUG_VM
 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMRetargetStolenVoice: retargeting stolen voice %d on channel %d\n",
@@ -1386,26 +1429,15 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
 #endif
 
     /* make sure new channel hasn't been muted by SP-MIDI since the voice was stolen */
-    if ((pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
+    if ((pNextSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
         (pMIDIChannel->channelFlags & CHANNEL_FLAG_MUTE))
     {
-        VMFreeVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum]);
+        VMFreeVoice(pVoiceMgr, pNextSynth, &pVoiceMgr->voices[voiceNum]);
         return EAS_FALSE;
     }
 
-    /* if assigned to a new synth, correct the active voice count */
-    if (pVoice->channel != pVoice->nextChannel)
-    {
-#ifdef _DEBUG_VM
-        { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMRetargetStolenVoice: Note assigned to different virtual synth, adjusting numActiveVoices\n"); */ }
-#endif
-        pSynth->numActiveVoices--;
-        pNextSynth->numActiveVoices++;
-    }
-
     /* assign new channel number, and increase channel voice count */
     pVoice->channel = pVoice->nextChannel;
-    pMIDIChannel = &pNextSynth->channels[pVoice->channel & 15];
 
     /* assign other data */
     pVoice->note = pVoice->nextNote;
@@ -3783,6 +3815,9 @@ void VMMIDIShutdown (S_EAS_DATA *pEASData, S_SYNTH *pSynth)
 
     vSynthNum = pSynth->vSynthNum;
 
+    /* stop all voices while the instruments are still there */
+    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+
     /* cleanup DLS load */
 #ifdef DLS_SYNTHESIZER
     /*lint -e{550} result used only in debugging code */
@@ -3795,8 +3830,6 @@ void VMMIDIShutdown (S_EAS_DATA *pEASData, S_SYNTH *pSynth)
     }
 #endif
 
-    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
-
     /* check Configuration Module for static memory allocation */
     if (!pEASData->staticMemoryModel)
         EAS_HWFree(pEASData->hwInstData, pSynth);
-- 
2.43.0


From 90b3ae5fa309ed0b09dc8e85d88a10c6ed4a11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 17/70] fix: keep the voice counts right when all notes of a
 channel are turned off

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 9cb4782..166a36e 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1044,8 +1044,7 @@ void VMAllNotesOff (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
                 ((pVoice->voiceState == eVoiceStateStolen) && (channel == pVoice->nextChannel)))
             {
                 /* this voice is assigned to the requested channel */
-                GetSynthPtr(voiceNum)->pfMuteVoice(pVoiceMgr, pSynth, pVoice, GetAdjustedVoiceNum(voiceNum));
-                pVoice->voiceState = eVoiceStateMuting;
+                VMMuteVoice(pVoiceMgr, voiceNum);
             }
         }
     }
-- 
2.43.0


From 75e34168c70a1465d67d14142de94810fd90ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 18/70] fix: stop deferred notes of their own stream only

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 166a36e..397ea8f 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1081,6 +1081,12 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     {
         if (pVoiceMgr->voices[voiceNum].voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF)
         {
+            /* ignore voices on other synths */
+            channel = (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen) ?
+                pVoiceMgr->voices[voiceNum].nextChannel : pVoiceMgr->voices[voiceNum].channel;
+            if (GET_VSYNTH(channel) != pSynth->vSynthNum)
+                continue;
+
             /* check if this voice was stolen */
             if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen)
             {
-- 
2.43.0


From e9513e79b15da13f04cb601fb2a42e8d57ad7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 19/70] fix: do not lose a note-off deferred to the next frame
 when the pedal goes down

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 397ea8f..7ca7aa9 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1139,9 +1139,7 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
 
                 /* check if sustain pedal is on */
                 if (pSynth->channels[channel].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
-                {
-                    GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
-                }
+                    pVoiceMgr->voices[voiceNum].voiceFlags |= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;
 
                 /* release this voice */
                 else
-- 
2.43.0


From 78c3a1c48ca6a7a183432e2558b53e95a99434b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 20/70] fix: reset the channels when a reset arrives, not when
 the song falls silent later

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 7ca7aa9..0fafa7b 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -472,8 +472,7 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     else
         VMMuteAllVoices(pVoiceMgr, pSynth);
 
-    /* don't reset if voices are still playing */
-    if (pSynth->numActiveVoices == 0)
+    /* voices that are still muting do not depend on the channels any more */
     {
         EAS_INT i;
 
@@ -494,10 +493,6 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
         /* clear reset flag */
         pSynth->synthFlags &= ~SYNTH_FLAG_RESET_IS_REQUESTED;
     }
-
-    /* handle reset after voices are muted */
-    else
-        pSynth->synthFlags |= SYNTH_FLAG_RESET_IS_REQUESTED;
 }
 
 /*----------------------------------------------------------------------------
-- 
2.43.0


From e0625dc7da97838b7b731362c05e582ea1766ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 21/70] fix: mute the voices of the stream whose polyphony is
 reduced

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 0fafa7b..74b26e1 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3392,12 +3392,15 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     activeVoices = 0;
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
-        /* this synth? */
-        if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) != pSynth->vSynthNum)
-            continue;
+        EAS_U8 channel;
 
         /* is voice active? */
-        if ((pVoiceMgr->voices[i].voiceState != eVoiceStateFree) && (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting))
+        if ((pVoiceMgr->voices[i].voiceState == eVoiceStateFree) || (pVoiceMgr->voices[i].voiceState == eVoiceStateMuting))
+            continue;
+
+        /* this synth? */
+        channel = (pVoiceMgr->voices[i].voiceState == eVoiceStateStolen) ? pVoiceMgr->voices[i].nextChannel : pVoiceMgr->voices[i].channel;
+        if (GET_VSYNTH(channel) == pSynth->vSynthNum)
             activeVoices++;
     }
 
@@ -3407,6 +3410,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         S_SYNTH_VOICE *pVoice;
         EAS_I32 currentPriority, bestPriority;
         EAS_INT bestCandidate;
+        EAS_U8 channel;
 
         /* find the lowest priority voice */
         bestPriority = bestCandidate = -1;
@@ -3414,8 +3418,13 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         {
             pVoice = &pVoiceMgr->voices[i];
 
+            /* ignore free and muting voices */
+            if ((pVoice->voiceState == eVoiceStateFree) || (pVoice->voiceState == eVoiceStateMuting))
+                continue;
+
             /* this synth? */
-            if (GET_VSYNTH(pVoice->nextChannel) != pSynth->vSynthNum)
+            channel = (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
+            if (GET_VSYNTH(channel) != pSynth->vSynthNum)
                 continue;
 
             /* if voice is stolen or just started, reduce the likelihood it will be stolen */
@@ -3425,7 +3434,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                 currentPriority = 128 - pVoice->nextVelocity;
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
             else
             {
@@ -3438,7 +3447,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                     ((EAS_I32) pVoice->gain >> (12 - NOTE_GAIN_STEAL_WEIGHT));
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
             /* is this the best choice so far? */
-- 
2.43.0


From e5625a8a2959ddf61f30e575211dea821272a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 22/70] fix: release sustained notes when reset all controllers
 lifts the pedal

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 74b26e1..46b001e 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2367,6 +2367,8 @@ void VMControlChange (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, E
         pChannel->expression = DEFAULT_EXPRESSION;
 
         /* turn the sustain pedal off as default/reset */
+        if (pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
+            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, channel);
         pChannel->channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;
         pChannel->pitchBend = DEFAULT_PITCH_BEND;
 
-- 
2.43.0


From b4f2a5dac81a3cb70bcd321e18aa8a524a8ad04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 23/70] fix: keep a stream within its polyphony when it steals
 voices

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 46b001e..af02ac0 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1586,6 +1586,10 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
         if (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateStolen)
         {
 
+            /* ignore voices that are muting already */
+            if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateMuting)
+                continue;
+
             /* same channel and note ? */
             if ((channel == pVoiceMgr->voices[voiceNum].channel) && (note == pVoiceMgr->voices[voiceNum].note))
             {
@@ -2052,6 +2056,24 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
     EAS_U8 currNote;
     EAS_I32 bestPriority;
     EAS_I32 currentPriority;
+    EAS_INT maxSynthPoly;
+    EAS_INT voicesInUse;
+    EAS_INT synthVoicesInUse;
+
+    /* count the voices that are not muting already */
+    voicesInUse = synthVoicesInUse = 0;
+    for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
+    {
+        pCurrVoice = &pVoiceMgr->voices[voiceNum];
+        if ((pCurrVoice->voiceState == eVoiceStateFree) || (pCurrVoice->voiceState == eVoiceStateMuting))
+            continue;
+
+        voicesInUse++;
+        currChannel = (pCurrVoice->voiceState == eVoiceStateStolen) ? pCurrVoice->nextChannel : pCurrVoice->channel;
+        if (GET_VSYNTH(currChannel) == pSynth->vSynthNum)
+            synthVoicesInUse++;
+    }
+    maxSynthPoly = (pSynth->maxPolyphony == 0) ? MAX_SYNTH_VOICES : pSynth->maxPolyphony;
 
     /* determine which voice to steal */
     bestPriority = 0;
@@ -2082,6 +2104,15 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
         /* ignore voices that are higher priority */
         if (pSynth->priority > pCurrSynth->priority)
             continue;
+
+        /* a stream that uses all its voices must take one of its own */
+        if ((synthVoicesInUse >= maxSynthPoly) &&
+            ((pCurrSynth != pSynth) || (pCurrVoice->voiceState == eVoiceStateMuting)))
+            continue;
+
+        /* if all voices are in use, taking one that is muting would add another one */
+        if ((voicesInUse >= pVoiceMgr->maxPolyphony) && (pCurrVoice->voiceState == eVoiceStateMuting))
+            continue;
 #ifdef _DEBUG_VM
 //      { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMStealVoice: New priority = %d exceeds old priority = %d\n", pSynth->priority, pCurrSynth->priority); */ }
 #endif
-- 
2.43.0


From 978520fb0a264fd040f9f303b7b293e880cb78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 24/70] fix: evaluate DLS conditional expressions in 32 bits

---
 arm-wt-22k/lib_src/eas_mdls.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 4324563..c7a2c3d 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2416,6 +2416,9 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
                 default:
                     break;
             }
+
+            /* operands and results are 32 bits wide, whatever the width of EAS_U32 */
+            x &= 0xffffffff;
         }
 
         else if (opcode == DLS_CDL_NOT)
-- 
2.43.0


From 242df9ec75610e029f87bb84076fc1f79e72faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 25/70] fix: refuse stream parameters on live MIDI streams,
 which have no parser

---
 arm-wt-22k/lib_src/eas_public.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a0b183c..eab032a 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -102,7 +102,10 @@ EAS_RESULT EAS_SetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
 {
     S_FILE_PARSER_INTERFACE *pParserModule;
 
+    /* live MIDI streams have no parser */
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if (pParserModule == NULL)
+        return EAS_ERROR_FEATURE_NOT_AVAILABLE;
     if (pParserModule->pfSetData)
         return (*pParserModule->pfSetData)(pEASData, pStream->handle, param, value);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
@@ -124,7 +127,10 @@ EAS_RESULT EAS_GetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
 {
     S_FILE_PARSER_INTERFACE *pParserModule;
 
+    /* live MIDI streams have no parser */
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if (pParserModule == NULL)
+        return EAS_ERROR_FEATURE_NOT_AVAILABLE;
     if (pParserModule->pfGetData)
         return (*pParserModule->pfGetData)(pEASData, pStream->handle, param, pValue);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
@@ -145,7 +151,10 @@ EAS_BOOL EAS_StreamReady (S_EAS_DATA *pEASData, EAS_HANDLE pStream)
     S_FILE_PARSER_INTERFACE *pParserModule;
     EAS_STATE state;
 
+    /* live MIDI streams have no parser */
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if (pParserModule == NULL)
+        return EAS_FALSE;
     if (pParserModule->pfState(pEASData, pStream->handle, &state) != EAS_SUCCESS)
         return EAS_FALSE;
     return (state < EAS_STATE_OPEN);
-- 
2.43.0


From 417413314a495da6b5ccba1366a99de727d9ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 26/70] fix: check that there is a synthesizer to share before
 a MIDI stream is opened on it

---
 arm-wt-22k/lib_src/eas_public.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index eab032a..ee61af5 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1575,8 +1575,13 @@ EAS_PUBLIC EAS_RESULT EAS_OpenMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE *
     {
         EAS_I32 value;
         result = EAS_GetStreamParameter(pEASData, streamHandle, PARSER_DATA_SYNTH_HANDLE, &value);
-        pMIDIStream->pSynth = (S_SYNTH*) value;
-        VMIncRefCount(pMIDIStream->pSynth);
+        if ((result == EAS_SUCCESS) && (value == 0))
+            result = EAS_ERROR_NOT_VALID_IN_THIS_STATE;
+        if (result == EAS_SUCCESS)
+        {
+            pMIDIStream->pSynth = (S_SYNTH*) value;
+            VMIncRefCount(pMIDIStream->pSynth);
+        }
     }
     if (result != EAS_SUCCESS)
     {
-- 
2.43.0


From 6ecfd0124d7a7bb73cae57322437bf81a63d01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 27/70] fix: refuse to write to or close a song file as a live
 MIDI stream

---
 arm-wt-22k/lib_src/eas_public.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index ee61af5..d1bf6a2 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1620,6 +1620,10 @@ EAS_PUBLIC EAS_RESULT EAS_WriteMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE
     S_INTERACTIVE_MIDI *pMIDIStream;
     EAS_RESULT result;
 
+    /* not a live MIDI stream */
+    if (pStream->pParserModule != NULL)
+        return EAS_ERROR_FEATURE_NOT_AVAILABLE;
+
     pMIDIStream = (S_INTERACTIVE_MIDI*) pStream->handle;
 
     if (count <= 0)
@@ -1655,6 +1659,10 @@ EAS_PUBLIC EAS_RESULT EAS_CloseMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE
 {
     S_INTERACTIVE_MIDI *pMIDIStream;
 
+    /* not a live MIDI stream */
+    if (pStream->pParserModule != NULL)
+        return EAS_ERROR_FEATURE_NOT_AVAILABLE;
+
     pMIDIStream = (S_INTERACTIVE_MIDI*) pStream->handle;
 
     /* close synth */
-- 
2.43.0


From 9df3bc1549ff5f86e435ad033f057ab180d89be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 28/70] fix: close the live MIDI streams when the engine is
 shut down

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index d1bf6a2..925a465 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -499,6 +499,10 @@ EAS_PUBLIC EAS_RESULT EAS_Shutdown (EAS_DATA_HANDLE pEASData)
                 reportResult = result;
             }
         }
+
+        /* live MIDI streams have no parser */
+        else if (pEASData->streams[i].handle)
+            (void) EAS_CloseMIDIStream(pEASData, &pEASData->streams[i]);
     }
 
     /* shutdown PCM engine */
-- 
2.43.0


From 43bb14ce8c233e39e81d5ce1c7b36b1523839f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 29/70] fix: release everything when the engine fails to
 initialize

---
 arm-wt-22k/lib_src/eas_public.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 925a465..4c0d8fe 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -393,6 +393,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if (!pEASData)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Failed to allocate EAS library memory\n"); */ }
+        EAS_HWShutdown(pHWInstData);
         return EAS_ERROR_MALLOC_FAILED;
     }
 
@@ -425,12 +426,16 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
 
     /* initailize the voice manager & synthesizer */
     if ((result = VMInitialize(pEASData)) != EAS_SUCCESS)
+    {
+        EAS_Shutdown(pEASData);
         return result;
+    }
 
     /* initialize mix engine */
     if ((result = EAS_MixEngineInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Error %ld starting up mix engine\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
@@ -443,6 +448,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
             if ((result = (*pEASData->effectsModules[module].effect->pfInit)(pEASData, &pEASData->effectsModules[module].effectData)) != EAS_SUCCESS)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Initialization of effects module %d returned %d\n", module, result); */ }
+                EAS_Shutdown(pEASData);
                 return result;
             }
         }
@@ -452,6 +458,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if ((result = EAS_PEInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "EAS_PEInit failed with error code %ld\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
-- 
2.43.0


From 9686e8e2eae5b9bee9fe12fc20515adaf16a69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 30/70] fix: refuse negative effect module numbers

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 4c0d8fe..05d4c81 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2297,7 +2297,7 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
 EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 *pValue)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
@@ -2332,7 +2332,7 @@ EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module
 EAS_PUBLIC EAS_RESULT EAS_SetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 value)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
-- 
2.43.0


From d3d69d8fcfbf2d0f937660a915d07b8415dff781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 31/70] fix: find the song header behind a repeated first
 letter

---
 arm-wt-22k/lib_src/eas_public.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 05d4c81..3d21153 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2663,7 +2663,8 @@ EAS_RESULT EAS_SearchFile (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle, con
             }
         }
         else
-            index = 0;
+            /* the mismatch may be the start of another match */
+            index = (c == searchString[0]) ? 1 : 0;
     }
     return EAS_SUCCESS;
 }
-- 
2.43.0


From d1262af7aa07c7bc81f909f979ccb5d66675e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 32/70] fix: check the song allocation before it is cleared

---
 arm-wt-22k/lib_src/eas_smf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 35f5ffb..978b70d 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -141,10 +141,10 @@ EAS_RESULT SMF_CheckFileType (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle,
     else
     {
         pSMFData = EAS_HWMalloc(pEASData->hwInstData, sizeof(S_SMF_DATA));
-        EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
     }
     if (!pSMFData)
         return EAS_ERROR_MALLOC_FAILED;
+    EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
 
     /* initialize some critical data */
     pSMFData->fileHandle = fileHandle;
-- 
2.43.0


From 1d3ef7c54925262beecf1af59dd0084090d76952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 33/70] fix: play song events beyond 134 million ticks

---
 arm-wt-22k/lib_src/eas_smf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 978b70d..c73e328 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -339,7 +339,7 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     }
 
     /* find next event in all streams */
-    temp = 0x7ffffff;
+    temp = 0x7fffffff;
     pSMFData->nextStream = NULL;
     for (i = 0; i < pSMFData->numStreams; i++)
     {
-- 
2.43.0


From 66370e7e3a749275ead53b0912ef48595cb04ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 34/70] fix: restore tempo and first event time when a song is
 reset

---
 arm-wt-22k/lib_src/eas_smf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index c73e328..1c7a466 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -495,6 +495,10 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     /* reset time to zero */
     pSMFData->time = 0;
 
+    /* reset the timebase to 120 bpm, the song will set its own tempo again */
+    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+    pSMFData->flags &= ~(SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR);
+
     /* reset the synth */
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
 
@@ -524,6 +528,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
         }
     }
 
+    /* update the time of the next event */
+    if (pSMFData->nextStream)
+        SMF_UpdateTime(pSMFData, pSMFData->nextStream->ticks);
 
     pSMFData->state = EAS_STATE_READY;
     return EAS_SUCCESS;
-- 
2.43.0


From 4c7498958c5b36433acacce01a09f081028af927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 35/70] fix: do not write metadata into an empty buffer

---
 arm-wt-22k/lib_src/eas_smf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 1c7a466..2b879b7 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -930,7 +930,8 @@ static EAS_RESULT SMF_ParseMetaEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData
         else if (c == SMF_META_LYRIC)
             metaType = EAS_METADATA_LYRIC;
 
-        if (metaType != EAS_METADATA_UNKNOWN)
+        /* there must be room for the terminator at least */
+        if ((metaType != EAS_METADATA_UNKNOWN) && (pSMFData->metadata.bufferSize > 0))
         {
             readLen = pSMFData->metadata.bufferSize - 1;
             if ((EAS_I32) len < readLen)
-- 
2.43.0


From b39f3bc7d9a52ca520d8a1c149ea8f801f8d4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 36/70] fix: stay paused when a paused song is located, and
 forget served pause and resume requests

---
 arm-wt-22k/lib_src/eas_public.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 3d21153..6841e06 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -927,6 +927,10 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
     {
         /* clear the locate flag */
         pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_LOCATE;
+#ifndef JET_INTERFACE
+        /* without JET, pause and resume were carried out when they were requested */
+        pEASData->streams[streamNum].streamFlags &= ~(STREAM_FLAGS_PAUSE | STREAM_FLAGS_RESUME);
+#endif
 
         if (pEASData->streams[streamNum].pParserModule)
         {
@@ -2106,6 +2110,19 @@ EAS_PUBLIC EAS_RESULT EAS_Locate (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream,
     if ((result = EAS_ParseEvents(pEASData, pStream, requestedTime << 8, eParserModeLocate)) != EAS_SUCCESS)
         return result;
 
+    /* a resume request was carried out by the reset, a paused parser has to be paused again */
+    pStream->streamFlags &= ~STREAM_FLAGS_RESUME;
+    if (pStream->streamFlags & STREAM_FLAGS_PAUSE)
+    {
+        if ((result = (*pParserModule->pfState)(pEASData, pStream->handle, &state)) != EAS_SUCCESS)
+            return result;
+        if ((state <= EAS_STATE_PLAY) && (pParserModule->pfPause != NULL))
+            return pParserModule->pfPause(pEASData, pStream->handle);
+
+        /* located beyond the end, there is nothing left to pause */
+        pStream->streamFlags &= ~STREAM_FLAGS_PAUSE;
+    }
+
     return EAS_SUCCESS;
 }
 
-- 
2.43.0


From 1bc6a05448b8308b49b6865a2a171ad59d2f9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 37/70] fix: release the DLS collections replaced by or loaded
 for a stream

---
 arm-wt-22k/lib_src/eas_public.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 6841e06..5a9b386 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -192,7 +192,14 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #ifdef DLS_SYNTHESIZER
         case PARSER_DATA_DLS_COLLECTION:
             {
-                EAS_RESULT result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
+                EAS_RESULT result;
+
+                /* stop all voices while the old collection is still there, and release it */
+                VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+                DLSCleanup(pEASData->hwInstData, pSynth->pDLS);
+                pSynth->pDLS = NULL;
+
+                result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
                 if (result == EAS_SUCCESS)
                 {
                     DLSAddRef((S_DLS*) value);
@@ -2523,8 +2530,13 @@ EAS_PUBLIC EAS_RESULT EAS_LoadDLSCollection (EAS_DATA_HANDLE pEASData, EAS_HANDL
 
         /* if a stream pStream is specified, point it to the DLS collection */
         if (pStream)
+        {
             result = EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_DLS_COLLECTION, (EAS_I32) pDLS);
 
+            /* the synthesizer has its own reference now */
+            DLSCleanup(pEASData->hwInstData, pDLS);
+        }
+
         /* global DLS load */
         else
             result = VMSetGlobalDLSLib(pEASData, pDLS);
-- 
2.43.0


From 701f84485981decacaf0f2d93173a81493bc93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 38/70] fix: parse the first frame after a metadata scan

---
 arm-wt-22k/lib_src/eas_public.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 5a9b386..4c4be4c 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1440,6 +1440,9 @@ EAS_PUBLIC EAS_RESULT EAS_ParseMetaData (EAS_DATA_HANDLE pEASData, EAS_HANDLE pS
     if ((result = EAS_ParseEvents(pEASData, pStream, 0x7fffffff, eParserModeMetaData)) != EAS_SUCCESS)
         return result;
 
+    /* the events of the first frame have not been parsed yet */
+    pStream->streamFlags &= ~STREAM_FLAGS_PARSED;
+
     /* get the parser time */
     if ((result = EAS_GetLocation(pEASData, pStream, playLength)) != EAS_SUCCESS)
         return result;
-- 
2.43.0


From 5b419ab3468ba1565858abb0fb64e2a55b5b7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 39/70] fix: do not steal free voices to limit the voices per
 key

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index af02ac0..e37aca7 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1586,8 +1586,9 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
         if (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateStolen)
         {
 
-            /* ignore voices that are muting already */
-            if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateMuting)
+            /* ignore voices that are muting already and voices that are free */
+            if ((pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateMuting) ||
+                (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateFree))
                 continue;
 
             /* same channel and note ? */
-- 
2.43.0


From 97b518838ffe3d96934c9b034847f97b2cd89a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 40/70] fix: keep all bits of the registered parameter MSB

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index e37aca7..74369ce 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2512,7 +2512,7 @@ EAS_RESULT VMUpdateRPNStateMachine (S_SYNTH *pSynth, EAS_U8 channel, EAS_U8 cont
         break;
     case MIDI_CONTROLLER_SELECT_RPN_LSB:
         pChannel->registeredParam =
-            (pChannel->registeredParam & 0x7F00) | value;
+            (pChannel->registeredParam & 0x3F80) | value;
         break;
     case MIDI_CONTROLLER_ENTER_DATA_MSB:
         switch (pChannel->registeredParam)
-- 
2.43.0


From ba73722b178a5485eb975d9b6a463fe3b30ced78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 41/70] fix: start notes at the new volume after a master
 volume change

---
 arm-wt-22k/lib_src/eas_wtsynth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_wtsynth.c b/arm-wt-22k/lib_src/eas_wtsynth.c
index ba5e68e..913d4d1 100644
--- a/arm-wt-22k/lib_src/eas_wtsynth.c
+++ b/arm-wt-22k/lib_src/eas_wtsynth.c
@@ -332,7 +332,8 @@ static EAS_RESULT WT_StartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNT
     pChannel = &pSynth->channels[pVoice->channel & 15];
 
     /* update static channel parameters */
-    if (pChannel->channelFlags & CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS)
+    if ((pChannel->channelFlags & CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS) ||
+        (pSynth->synthFlags & SYNTH_FLAG_UPDATE_ALL_CHANNEL_PARAMETERS))
         WT_UpdateChannel(pVoiceMgr, pSynth, pVoice->channel & 15);
 
 #ifdef DLS_SYNTHESIZER
-- 
2.43.0


From 6566bbe99153b57dc7221a1647817be79ccfed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 42/70] fix: steal older voices rather than newer ones

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 74369ce..c4b18a9 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2127,7 +2127,7 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
         {
             /* compute the priority of this voice, higher means better for stealing */
             /* use not age */
-            currentPriority = (EAS_I32) pCurrVoice->age << NOTE_AGE_STEAL_WEIGHT;
+            currentPriority = (EAS_I32) (EAS_U16) (pVoiceMgr->age - pCurrVoice->age) << NOTE_AGE_STEAL_WEIGHT;
 
             /* include note gain -higher gain is lower steal value */
             /*lint -e{704} use shift for performance */
@@ -3297,7 +3297,7 @@ EAS_RESULT VMSetSynthPolyphony (S_VOICE_MGR *pVoiceMgr, EAS_I32 synth, EAS_I32 p
             else
             {
                 /* include age */
-                currentPriority = (EAS_I32) pVoice->age << NOTE_AGE_STEAL_WEIGHT;
+                currentPriority = (EAS_I32) (EAS_U16) (pVoiceMgr->age - pVoice->age) << NOTE_AGE_STEAL_WEIGHT;
 
                 /* include note gain -higher gain is lower steal value */
                 /*lint -e{704} use shift for performance */
@@ -3473,7 +3473,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
             else
             {
                 /* include age */
-                currentPriority = (EAS_I32) pVoice->age << NOTE_AGE_STEAL_WEIGHT;
+                currentPriority = (EAS_I32) (EAS_U16) (pVoiceMgr->age - pVoice->age) << NOTE_AGE_STEAL_WEIGHT;
 
                 /* include note gain -higher gain is lower steal value */
                 /*lint -e{704} use shift for performance */
-- 
2.43.0


From 5185fd9ab3b681c5342bcdd60c8cbdff1ccefc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 43/70] fix: play loops up to the end of a wave and keep the
 sample behind a loop

The sample behind the loop of a wave was overwritten with the first sample of
the loop, which is heard in regions with another loop, and region loops up to
the end of a wave without own loop were refused. The C interpolators don't
need the copy.
---
 arm-wt-22k/lib_src/eas_mdls.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index c7a2c3d..b212a63 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -400,6 +400,14 @@ static const EAS_INT bitDepth = 16;
 #endif
 
 static const EAS_U32 outputSampleRate = _OUTPUT_SAMPLE_RATE;
+
+/* the assembly interpolators need a copy of the first sample behind a loop */
+#if defined(NATIVE_EAS_KERNEL)
+#define DLS_LOOP_GUARD_SIZE sizeof(EAS_SAMPLE)
+#else
+#define DLS_LOOP_GUARD_SIZE 0
+#endif
+
 static const EAS_I32 dlsRateConvert = DLS_RATE_CONVERT;
 static const EAS_I32 dlsLFOFrequencyConvert = DLS_LFO_FREQUENCY_CONVERT;
 
@@ -1028,7 +1036,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
      * unlooped samples, we may use ADPCM. If so, we need only 1/4
      * the memory.
      *
-     * We also need to add one for looped samples to allow for
+     * We may also need to add one for looped samples to allow for
      * the first sample to be copied to the end of the loop.
      */
 
@@ -1042,7 +1050,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             /*lint -e{704} use shift for performance */
             size = dataSize >> 1;
         if (p->loopLength)
-            size++;
+            size += DLS_LOOP_GUARD_SIZE;
     }
 
     else
@@ -1053,7 +1061,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             /*lint -e{703} use shift for performance */
             size = dataSize << 1;
         if (p->loopLength)
-            size += 2;
+            size += DLS_LOOP_GUARD_SIZE;
     }
 
     /* for first pass, add size to wave pool size and return */
@@ -1326,13 +1334,15 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     /* for looped samples, copy the last sample to the end */
     if (pWsmp->loopLength)
     {
-        if (sampleLen < sizeof(EAS_SAMPLE)
-            || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - sizeof(EAS_SAMPLE))
+        if (sampleLen < DLS_LOOP_GUARD_SIZE
+            || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - DLS_LOOP_GUARD_SIZE)
         {
             return EAS_FAILURE;
         }
 
+#if defined(NATIVE_EAS_KERNEL)
         pSample[pWsmp->loopStart + pWsmp->loopLength] = pSample[pWsmp->loopStart];
+#endif
     }
 
     return EAS_SUCCESS;
@@ -1379,12 +1389,14 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     /* for looped samples, copy the last sample to the end */
     if (pWsmp->loopLength)
     {
-        if (sampleLen < sizeof(EAS_SAMPLE)
-            || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - sizeof(EAS_SAMPLE)) {
+        if (sampleLen < DLS_LOOP_GUARD_SIZE
+            || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - DLS_LOOP_GUARD_SIZE) {
             return EAS_FAILURE;
         }
 
+#if defined(NATIVE_EAS_KERNEL)
         pSample[pWsmp->loopStart + pWsmp->loopLength] = pSample[pWsmp->loopStart];
+#endif
     }
 
     return EAS_SUCCESS;
@@ -1882,8 +1894,8 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
         if (pWsmp->loopLength != 0)
         {
             EAS_U32 sampleLen = pDLSData->pDLS->pDLSSampleLen[waveIndex];
-            if (sampleLen < sizeof(EAS_SAMPLE)
-                || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - sizeof(EAS_SAMPLE))
+            if (sampleLen < DLS_LOOP_GUARD_SIZE
+                || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - DLS_LOOP_GUARD_SIZE)
             {
                 return EAS_FAILURE;
             }
-- 
2.43.0


From 19ee50f55cb0559f2ffcbeac7fd439ba8e0f5202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 44/70] fix: regions without a loop play a looped wave once

The sample parameters of a region replace those of its wave, but the loop of
the wave was kept if the region had none.
---
 arm-wt-22k/lib_src/eas_mdls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index b212a63..349bce3 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1186,6 +1186,12 @@ static EAS_RESULT Parse_wsmp (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WS
             return EAS_FAILURE;
         }
     }
+    else
+    {
+        /* region parameters replace those of the wave, including the loop */
+        p->loopStart = 0;
+        p->loopLength = 0;
+    }
 
     return EAS_SUCCESS;
 }
-- 
2.43.0


From 682cec6933741e8b4feab3c3e1c2165b45e702d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 45/70] fix: ignore an incomplete 16-bit sample at the end of a
 wave

It made the following waves of the pool start at odd addresses.
---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 349bce3..a23394a 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1030,6 +1030,10 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     if ((result = Parse_fmt(pDLSData, fmtPos, p)) != EAS_SUCCESS)
         return result;
 
+    /* ignore an incomplete sample at the end */
+    if (p->bitsPerSample == 16)
+        dataSize &= ~1;
+
     /* calculate the size of the wavetable needed. We need only half
      * the memory for 16-bit samples when in 8-bit mode, and we need
      * double the memory for 8-bit samples in 16-bit mode. For
-- 
2.43.0


From 9b7b6857aa7431aa7ac55dbfa4580082b12f0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 46/70] fix: do not reset the workload when a render is refused

---
 arm-wt-22k/lib_src/eas_public.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 4c4be4c..0466849 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -891,9 +891,8 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
     EAS_STATE parserState;
     EAS_INT streamNum;
 
-    /* assume no samples generated and reset workload */
+    /* assume no samples generated */
     *pNumGenerated = 0;
-    VMInitWorkload(pEASData->pVoiceMgr);
 
     /* no support for other buffer sizes yet */
     if (numRequested != BUFFER_SIZE_IN_MONO_SAMPLES)
@@ -903,6 +902,9 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
         return EAS_BUFFER_SIZE_MISMATCH;
     }
 
+    /* reset workload */
+    VMInitWorkload(pEASData->pVoiceMgr);
+
 #ifdef _METRICS_ENABLED
     /* start performance counter */
     if (pEASData->pMetricsData)
-- 
2.43.0


From 73e5d08720b0cfd391127be3f6fc00b31e559b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 47/70] fix: go to the error state when a song cannot be reset

---
 arm-wt-22k/lib_src/eas_smf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 2b879b7..67e3623 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -492,6 +492,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     pSMFData = (S_SMF_DATA*) pInstData;
 
+    /* assume that an error occurred */
+    pSMFData->state = EAS_STATE_ERROR;
+
     /* reset time to zero */
     pSMFData->time = 0;
 
-- 
2.43.0


From 9c814d00009e2a530b206460ef38c719dfb9f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 48/70] fix: a song without a next event goes to the error
 state instead of failing every render

---
 arm-wt-22k/lib_src/eas_smf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 67e3623..42b2550 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -289,6 +289,9 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     if (pSMFData->state >= EAS_STATE_OPEN)
         return EAS_SUCCESS;
 
+    /* assume that an error occurred */
+    pSMFData->state = EAS_STATE_ERROR;
+
     if (!pSMFData->nextStream) {
         return EAS_ERROR_FILE_FORMAT;
     }
@@ -297,9 +300,6 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     /* get current ticks */
     ticks = pSMFData->nextStream->ticks;
 
-    /* assume that an error occurred */
-    pSMFData->state = EAS_STATE_ERROR;
-
 #ifdef JET_INTERFACE
     /* if JET has track muted, set parser mode to mute */
     if (pSMFData->nextStream->midiStream.jetData & MIDI_FLAGS_JET_MUTE)
-- 
2.43.0


From 667bdb8ccfc1c31c0fd209d3bc522519348b769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 49/70] fix: keep the length of ticks longer than 64 ms

Slow tempos with few ticks per quarter note (or fewer than 8 ticks per quarter
note at the default tempo) do not fit into 16 bits and were played too fast.
---
 arm-wt-22k/lib_src/eas_miditypes.h |  2 +-
 arm-wt-22k/lib_src/eas_smf.c       | 12 ++++++------
 arm-wt-22k/lib_src/eas_smfdata.h   |  2 ++
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_miditypes.h b/arm-wt-22k/lib_src/eas_miditypes.h
index 015f08b..5728f03 100644
--- a/arm-wt-22k/lib_src/eas_miditypes.h
+++ b/arm-wt-22k/lib_src/eas_miditypes.h
@@ -106,7 +106,7 @@ typedef struct s_smf_data_tag
     EAS_I32             fileOffset;         /* for embedded files */
     EAS_I32             time;               /* current time in milliseconds/256 */
     EAS_U16             numStreams;         /* actual number of streams */
-    EAS_U16             tickConv;           /* current MIDI tick to msec conversion */
+    EAS_U32             tickConv;           /* current MIDI tick to msec conversion */
     EAS_U16             ppqn;               /* ticks per quarter note */
     EAS_U8              state;              /* current state EAS_STATE_XXXX */
     EAS_U8              flags;              /* flags - see definitions below */
diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 42b2550..c07cf83 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -499,7 +499,7 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     pSMFData->time = 0;
 
     /* reset the timebase to 120 bpm, the song will set its own tempo again */
-    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+    pSMFData->tickConv = (EAS_U32) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
     pSMFData->flags &= ~(SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR);
 
     /* reset the synth */
@@ -893,17 +893,17 @@ static EAS_RESULT SMF_ParseMetaEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData
             temp = (temp << 8) | c;
         }
         {
-            // pSMFData->tickConv = (EAS_U16) (((temp * 1024) / pSMFData->ppqn + 500) / 1000);
+            // pSMFData->tickConv = (EAS_U32) (((temp * 1024) / pSMFData->ppqn + 500) / 1000);
             uint64_t temp64;
             if (__builtin_mul_overflow(temp, 1024u, &temp64) ||
                     pSMFData->ppqn == 0 ||
                     (temp64 /= pSMFData->ppqn, false) ||
                     __builtin_add_overflow(temp64, 500, &temp64) ||
                     (temp64 /= 1000, false) ||
-                    temp64 > 65535) {
-                pSMFData->tickConv = 65535;
+                    temp64 > SMF_MAX_TICK_CONV) {
+                pSMFData->tickConv = SMF_MAX_TICK_CONV;
             } else {
-                pSMFData->tickConv = (EAS_U16) temp64;
+                pSMFData->tickConv = (EAS_U32) temp64;
             }
         }
         pSMFData->flags |= SMF_FLAGS_HAS_TEMPO;
@@ -1145,7 +1145,7 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING,"No support for SMPTE code timebase\n"); */ }
     else
         pSMFData->ppqn = (division & 0x7fff);
-    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+    pSMFData->tickConv = (EAS_U32) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
 
     /* dynamic memory allocation, allocate memory for streams */
     if (pSMFData->streams == NULL)
diff --git a/arm-wt-22k/lib_src/eas_smfdata.h b/arm-wt-22k/lib_src/eas_smfdata.h
index 8f08839..5bc8381 100644
--- a/arm-wt-22k/lib_src/eas_smfdata.h
+++ b/arm-wt-22k/lib_src/eas_smfdata.h
@@ -58,6 +58,8 @@
 
 /* default timebase (120BPM) */
 #define SMF_DEFAULT_TIMEBASE        500000L
+/* longest tick: one tick per quarter note at the slowest tempo, in msec/1024 */
+#define SMF_MAX_TICK_CONV           17179868L
 
 /* value for pSMFStream->ticks to signify end of track */
 #define SMF_END_OF_TRACK            0xffffffff
-- 
2.43.0


From 096ce7830ed6dd3324af862a4e196622cd20b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 50/70] fix: forget a pause requested before a metadata scan

The scan leaves the song ready at its beginning, but the pause was still
remembered: a resume was accepted and a locate paused the song again.
---
 arm-wt-22k/lib_src/eas_public.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 0466849..c0b7936 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1442,8 +1442,10 @@ EAS_PUBLIC EAS_RESULT EAS_ParseMetaData (EAS_DATA_HANDLE pEASData, EAS_HANDLE pS
     if ((result = EAS_ParseEvents(pEASData, pStream, 0x7fffffff, eParserModeMetaData)) != EAS_SUCCESS)
         return result;
 
-    /* the events of the first frame have not been parsed yet */
-    pStream->streamFlags &= ~STREAM_FLAGS_PARSED;
+    /* the events of the first frame have not been parsed yet, and a song back
+     * at its beginning is neither paused nor resumed
+     */
+    pStream->streamFlags &= ~(STREAM_FLAGS_PARSED | STREAM_FLAGS_PAUSE | STREAM_FLAGS_RESUME);
 
     /* get the parser time */
     if ((result = EAS_GetLocation(pEASData, pStream, playLength)) != EAS_SUCCESS)
-- 
2.43.0


From 3824278efadc3bbf366ace7a1b6f18331e2768d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 51/70] fix: apply reverb presets when they are set, keep
 settings made before the first block

---
 arm-wt-22k/lib_src/eas_reverb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_reverb.c b/arm-wt-22k/lib_src/eas_reverb.c
index cd5befe..989afdd 100644
--- a/arm-wt-22k/lib_src/eas_reverb.c
+++ b/arm-wt-22k/lib_src/eas_reverb.c
@@ -170,7 +170,7 @@ static EAS_RESULT ReverbInit(EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
 
     pReverbData->m_nNextRoom = 1;
 
-    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom + 1; // force update on first iteration
+    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom;
 
     pReverbData->m_nWet = REVERB_DEFAULT_WET;
 
@@ -877,6 +877,9 @@ static EAS_RESULT ReverbSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_REVERB_CHAMBER && value!=EAS_PARAM_REVERB_ROOM)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextRoom = (EAS_I16)value;
+            /* apply it now, so that parameters set afterwards are not overwritten by the next block */
+            if (p->m_nNextRoom != p->m_nCurrentRoom)
+                ReverbUpdateRoom(p);
             break;
         case EAS_PARAM_REVERB_WET:
             if(value>EAS_REVERB_WET_MAX || value<EAS_REVERB_WET_MIN)
-- 
2.43.0


From 0bca8fb092edc4900b2bc19978f8208bce0875f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 52/70] fix: keep chorus rate and depth as set, apply chorus
 presets when they are set

---
 arm-wt-22k/lib_src/eas_chorus.c | 61 ++++++++++++++-------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_chorus.c b/arm-wt-22k/lib_src/eas_chorus.c
index 4a2c8d0..4a0dbd9 100644
--- a/arm-wt-22k/lib_src/eas_chorus.c
+++ b/arm-wt-22k/lib_src/eas_chorus.c
@@ -114,23 +114,6 @@ static EAS_RESULT ChorusInit (EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
     pChorusData->m_nRate =      EAS_CHORUS_RATE_DEFAULT;
     pChorusData->m_nDepth =     EAS_CHORUS_DEPTH_DEFAULT;
 
-    //chorus rate and depth need some massaging from preset value (which is sample rate independent)
-
-    //convert rate from steps of .05 Hz to value which can be used as phase increment,
-    //with current CHORUS_SHAPE_SIZE and rate limits, this fits into 16 bits
-    //want to compute ((shapeSize * 65536) * (storedRate/20))/sampleRate;
-    //computing it as below allows rate steps to be evenly spaced
-    //uses 32 bit divide, but only once when new value is selected
-    pChorusData->m_nRate = (EAS_I16)
-        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-
-    //convert depth from steps of .05 ms, to samples, with 16 bit whole part, discard fraction
-    //want to compute ((depth * sampleRate)/20000)
-    //use the following approximation since 105/32 is roughly 65536/20000
-    /*lint -e{704} use shift for performance */
-    pChorusData->m_nDepth = (EAS_I16)
-        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
-
     pChorusData->m_nLevel = pChorusData->m_nLevel;
 
     //zero delay memory for chorus
@@ -163,13 +146,6 @@ static EAS_RESULT ChorusInit (EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
     pChorusData->m_nRate =  pPreset->m_nRate;
     pChorusData->m_nDepth = pPreset->m_nDepth;
 
-    pChorusData->m_nRate = (EAS_I16)
-        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-
-    /*lint -e{704} use shift for performance */
-    pChorusData->m_nDepth = (EAS_I16)
-        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
-
     *pInstData = pChorusData;
 
     return EAS_SUCCESS;
@@ -265,6 +241,9 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
     EAS_PCM *pIn;
     EAS_PCM *pOut;
 
+    EAS_I16 phaseIncrement;
+    EAS_I16 depth;
+
     S_CHORUS_OBJECT *pChorusData;
 
     pChorusData = (S_CHORUS_OBJECT*) pInstData;
@@ -282,6 +261,22 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
         ChorusUpdate(pChorusData);
     }
 
+    //chorus rate and depth need some massaging from their settings (which are sample rate independent)
+
+    //convert rate from steps of .05 Hz to value which can be used as phase increment,
+    //with current CHORUS_SHAPE_SIZE and rate limits, this fits into 16 bits
+    //want to compute ((shapeSize * 65536) * (storedRate/20))/sampleRate;
+    //computing it as below allows rate steps to be evenly spaced
+    phaseIncrement = (EAS_I16)
+        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
+
+    //convert depth from steps of .05 ms, to samples, with 16 bit whole part, discard fraction
+    //want to compute ((depth * sampleRate)/20000)
+    //use the following approximation since 105/32 is roughly 65536/20000
+    /*lint -e{704} use shift for performance */
+    depth = (EAS_I16)
+        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
+
     for (nChannelNumber = 0; nChannelNumber < NUM_OUTPUT_CHANNELS; nChannelNumber++)
     {
 
@@ -305,7 +300,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
                 //scale chorus depth by lfo value to get relative fractional sample index
                 //index is expressed as 32 bit number with 16 bit fractional part
                 /*lint -e{703} use shift for performance */
-                positionOffsetL = pChorusData->m_nDepth * (((EAS_I32)lfoValueLeft) << 1);
+                positionOffsetL = depth * (((EAS_I32)lfoValueLeft) << 1);
 
                 //add fixed chorus delay to get actual fractional sample index
                 positionOffsetL += ((EAS_I32)pChorusData->chorusTapPosition) << 16;
@@ -327,7 +322,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
                     pChorusData->chorusIndexL = 0;
 
                 //increment fractional lfo phase, and make it wrap as needed
-                pChorusData->lfoLPhase += pChorusData->m_nRate;
+                pChorusData->lfoLPhase += phaseIncrement;
                 while (pChorusData->lfoLPhase >= (CHORUS_SHAPE_SIZE<<16))
                 {
                     pChorusData->lfoLPhase -= (CHORUS_SHAPE_SIZE<<16);
@@ -351,7 +346,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
                 //scale chorus depth by lfo value to get relative fractional sample index
                 //index is expressed as 32 bit number with 16 bit fractional part
                 /*lint -e{703} use shift for performance */
-                positionOffsetR = pChorusData->m_nDepth * (((EAS_I32)lfoValueRight) << 1);
+                positionOffsetR = depth * (((EAS_I32)lfoValueRight) << 1);
 
                 //add fixed chorus delay to get actual fractional sample index
                 positionOffsetR += ((EAS_I32)pChorusData->chorusTapPosition) << 16;
@@ -372,7 +367,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
                     pChorusData->chorusIndexR = 0;
 
                 //increment fractional lfo phase, and make it wrap as needed
-                pChorusData->lfoRPhase += pChorusData->m_nRate;
+                pChorusData->lfoRPhase += phaseIncrement;
                 while (pChorusData->lfoRPhase >= (CHORUS_SHAPE_SIZE<<16))
                 {
                     pChorusData->lfoRPhase -= (CHORUS_SHAPE_SIZE<<16);
@@ -491,6 +486,9 @@ static EAS_RESULT ChorusSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_CHORUS_PRESET3 && value!=EAS_PARAM_CHORUS_PRESET4)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextChorus = (EAS_I8)value;
+            /* apply it now, so that parameters set afterwards are not overwritten by the next block */
+            if (p->m_nNextChorus != p->m_nCurrentChorus)
+                ChorusUpdate(p);
             break;
         case EAS_PARAM_CHORUS_RATE:
             if(value<EAS_CHORUS_RATE_MIN || value>EAS_CHORUS_RATE_MAX)
@@ -590,13 +588,6 @@ static EAS_RESULT ChorusUpdate(S_CHORUS_OBJECT *pChorusData)
     pChorusData->m_nRate =  pPreset->m_nRate;
     pChorusData->m_nDepth = pPreset->m_nDepth;
 
-    pChorusData->m_nRate = (EAS_I16)
-        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-
-    /*lint -e{704} use shift for performance */
-    pChorusData->m_nDepth = (EAS_I16)
-        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
-
     pChorusData->m_nCurrentChorus = pChorusData->m_nNextChorus;
 
     return EAS_SUCCESS;
-- 
2.43.0


From 6773faa1810ec050fc6d49841da8ddaa0a15611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 53/70] fix: refuse stream priorities outside 1 to 15

---
 arm-wt-22k/lib_src/eas_public.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index c0b7936..7f8af6c 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1882,6 +1882,8 @@ EAS_PUBLIC EAS_RESULT EAS_SetPriority (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStr
 {
     if (!EAS_StreamReady(pEASData, pStream))
         return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
+    if ((priority < 1) || (priority > 15))
+        return EAS_ERROR_PARAMETER_RANGE;
     return EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_PRIORITY, priority);
 }
 
-- 
2.43.0


From d8e46d5bfba44d1547a9a73b6628a1dac8a111eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 54/70] fix: do not lose the reverb wet amount given to
 sonivoxrender

---
 example/sonivoxrender.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/example/sonivoxrender.c b/example/sonivoxrender.c
index 285839f..510faab 100644
--- a/example/sonivoxrender.c
+++ b/example/sonivoxrender.c
@@ -27,7 +27,7 @@
 
 const char *dls_path = NULL;
 EAS_I32 reverb_type = -1;
-EAS_I32 reverb_wet = 0;
+EAS_I32 reverb_wet = -1;
 EAS_DATA_HANDLE mEASDataHandle = NULL;
 
 int Read(void *handle, void *buf, int offset, int size) {
@@ -101,13 +101,6 @@ int initializeLibrary(void)
         }
     }
 
-    result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
-    if (result != EAS_SUCCESS) {
-        fprintf(stderr, "Failed to set reverb wet amount");
-        ok = EXIT_FAILURE;
-        goto cleanup;
-    }
-
     EAS_BOOL sw = EAS_TRUE;
     EAS_I32 preset = reverb_type - 1;
     if ( preset >= EAS_PARAM_REVERB_LARGE_HALL && preset <= EAS_PARAM_REVERB_ROOM ) {
@@ -119,6 +112,15 @@ int initializeLibrary(void)
             goto cleanup;
         }
     }
+    /* the preset sets the wet amount as well, so the one asked for comes after it */
+    if (reverb_wet >= 0) {
+        result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
+        if (result != EAS_SUCCESS) {
+            fprintf(stderr, "Failed to set reverb wet amount");
+            ok = EXIT_FAILURE;
+            goto cleanup;
+        }
+    }
     result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, sw);
     if (result != EAS_SUCCESS) {
         fprintf(stderr, "Failed to set reverb bypass");
-- 
2.43.0


From 1e330eaca681414f11c89b0fd6e3afbe5db64aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 55/70] fix: do not cut a locate or metadata scan short at the
 workload limit

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 7f8af6c..5c2f266 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1368,8 +1368,8 @@ static EAS_RESULT EAS_ParseEvents (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
             }
         }
 
-        /* check for max workload exceeded */
-        if (VMCheckWorkload(pEASData->pVoiceMgr))
+        /* check for max workload exceeded, a locate or scan has to be completed at once */
+        if ((parseMode == eParserModePlay) && VMCheckWorkload(pEASData->pVoiceMgr))
         {
             /* stop even though we may not have parsed
              * all the events in this frame. The parser will try to
-- 
2.43.0


From 003c00fed001e13097d4fee60d822b502b882edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 56/70] Revert "fix: do not lose the reverb wet amount given to
 sonivoxrender"

The example program is left as it was; the defect is recorded as a known finding.
---
 example/sonivoxrender.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/example/sonivoxrender.c b/example/sonivoxrender.c
index 510faab..285839f 100644
--- a/example/sonivoxrender.c
+++ b/example/sonivoxrender.c
@@ -27,7 +27,7 @@
 
 const char *dls_path = NULL;
 EAS_I32 reverb_type = -1;
-EAS_I32 reverb_wet = -1;
+EAS_I32 reverb_wet = 0;
 EAS_DATA_HANDLE mEASDataHandle = NULL;
 
 int Read(void *handle, void *buf, int offset, int size) {
@@ -101,6 +101,13 @@ int initializeLibrary(void)
         }
     }
 
+    result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
+    if (result != EAS_SUCCESS) {
+        fprintf(stderr, "Failed to set reverb wet amount");
+        ok = EXIT_FAILURE;
+        goto cleanup;
+    }
+
     EAS_BOOL sw = EAS_TRUE;
     EAS_I32 preset = reverb_type - 1;
     if ( preset >= EAS_PARAM_REVERB_LARGE_HALL && preset <= EAS_PARAM_REVERB_ROOM ) {
@@ -112,15 +119,6 @@ int initializeLibrary(void)
             goto cleanup;
         }
     }
-    /* the preset sets the wet amount as well, so the one asked for comes after it */
-    if (reverb_wet >= 0) {
-        result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
-        if (result != EAS_SUCCESS) {
-            fprintf(stderr, "Failed to set reverb wet amount");
-            ok = EXIT_FAILURE;
-            goto cleanup;
-        }
-    }
     result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, sw);
     if (result != EAS_SUCCESS) {
         fprintf(stderr, "Failed to set reverb bypass");
-- 
2.43.0


From f3a54cc34b923d1efb4f42b053868af7606a143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 57/70] fix: let a DLS envelope without decay time reach its
 sustain level

---
 arm-wt-22k/lib_src/eas_dlssynth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_dlssynth.c b/arm-wt-22k/lib_src/eas_dlssynth.c
index cefc118..f1726cc 100644
--- a/arm-wt-22k/lib_src/eas_dlssynth.c
+++ b/arm-wt-22k/lib_src/eas_dlssynth.c
@@ -551,7 +551,8 @@ static void DLS_UpdateEnvelope (S_SYNTH_VOICE *pVoice, S_SYNTH_CHANNEL *pChannel
                 return;
             }
 
-//          *pValue = pEnvParams->sustainLevel;
+            /* no decay time, go to the sustain level at once */
+            *pValue = pEnvParams->sustainLevel;
             /*lint -e{825} falls through to next case */
 
         case eEnvelopeStateDecay:
-- 
2.43.0


From ab4f0f6230e91ec12419412df662bb4183b12ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 58/70] fix: build the voice pools of scalable polyphony from
 the listed channels only

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index c4b18a9..8787a0a 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -851,7 +851,8 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
         priority[i] = -1;
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
     {
-        if (pSynth->channels[i].pool != DEFAULT_SP_MIDI_PRIORITY)
+        /* channels that are not in the MIP message have no priority */
+        if (pSynth->channels[i].mip != 0)
             priority[pSynth->channels[i].pool] = i;
     }
 
@@ -860,9 +861,9 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     currentPool = -1;
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
     {
-        /* stop when we run out of channels */
+        /* skip entries without a channel */
         if (priority[i] == -1)
-            break;
+            continue;
 
         pChannel = &pSynth->channels[priority[i]];
 
@@ -876,6 +877,7 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
         else
         {
             currentPool++;
+            pChannel->pool = (EAS_U8) currentPool;
             pSynth->poolAlloc[currentPool] = (EAS_U8) (pChannel->mip - currentMIP);
             currentMIP = pChannel->mip;
         }
-- 
2.43.0


From 4ac459caa7a97b54b17db4b7118e9a0f1495bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 59/70] fix: play all channels again when scalable polyphony
 ends

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 8787a0a..d2cde74 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -704,6 +704,14 @@ void VMInitMIPTable (S_SYNTH *pSynth)
     {
         pSynth->channels[i].pool = 0;
         pSynth->channels[i].mip = 0;
+        pSynth->channels[i].channelFlags &= ~CHANNEL_FLAG_MUTE;
+    }
+
+    /* all channels share the first voice pool */
+    for (i = 1; i < NUM_SYNTH_CHANNELS; i++)
+    {
+        pSynth->poolCount[0] = (EAS_U8) (pSynth->poolCount[0] + pSynth->poolCount[i]);
+        pSynth->poolCount[i] = 0;
     }
 }
 
-- 
2.43.0


From 24f4e6aa40ab8360d8d39df073c710c3d2e00e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 60/70] fix: keep the entries of an unfinished scalable
 polyphony message apart

---
 arm-wt-22k/lib_src/eas_synth.h    | 1 +
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_synth.h b/arm-wt-22k/lib_src/eas_synth.h
index 6274b7d..845009f 100644
--- a/arm-wt-22k/lib_src/eas_synth.h
+++ b/arm-wt-22k/lib_src/eas_synth.h
@@ -228,6 +228,7 @@ typedef struct s_synth_channel_tag
 
     EAS_U8      pool;               /* SPMIDI channel voice pool */
     EAS_U8      mip;                /* SPMIDI MIP setting */
+    EAS_U8      mipPriority;        /* SPMIDI priority, from the MIP message */
 
 #ifdef  _REVERB
     EAS_U8      reverbSend;         /* CC91 */
diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index d2cde74..85e80c6 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -732,7 +732,7 @@ void VMSetMIPEntry (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS
     /* save data for use by MIP message processing */
     if (priority < NUM_SYNTH_CHANNELS)
     {
-        pSynth->channels[channel].pool = priority;
+        pSynth->channels[channel].mipPriority = priority;
         pSynth->channels[channel].mip = mip;
     }
 }
@@ -861,7 +861,7 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     {
         /* channels that are not in the MIP message have no priority */
         if (pSynth->channels[i].mip != 0)
-            priority[pSynth->channels[i].pool] = i;
+            priority[pSynth->channels[i].mipPriority] = i;
     }
 
     /* process channels in priority order */
-- 
2.43.0


From ff0dda8ca930393535394f4c83ffe59ce8d83b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 61/70] fix: mute scalable polyphony channels by the polyphony
 in force

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 85e80c6..d0de650 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -757,8 +757,8 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMUpdateMIPTable\n"); */ }
 #endif
 
-    /* determine max polyphony */
-    if (pSynth->maxPolyphony)
+    /* max polyphony is minimum of virtual synth and actual synth */
+    if ((pSynth->maxPolyphony != 0) && (pSynth->maxPolyphony < pVoiceMgr->maxPolyphony))
         maxPolyphony = pSynth->maxPolyphony;
     else
         maxPolyphony = pVoiceMgr->maxPolyphony;
@@ -3412,6 +3412,10 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     if ((polyphonyCount == 0) || (polyphonyCount > MAX_SYNTH_VOICES))
     {
         pSynth->maxPolyphony = 0;
+
+        /* if SP-MIDI mode, update the channel muting */
+        if (pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON)
+            VMMIPUpdateChannelMuting(pVoiceMgr, pSynth);
         return EAS_SUCCESS;
     }
 
-- 
2.43.0


From a10da339bbeab127a5a35792b1f9ff24d30921fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 62/70] fix: end scalable polyphony when a stream is reset

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index d0de650..6d3509e 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -481,6 +481,7 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
 #endif
 
         VMInitializeAllChannels(pVoiceMgr, pSynth);
+        VMInitMIPTable(pSynth);
         for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
             pSynth->poolCount[i] = 0;
 
-- 
2.43.0


From 7403f43ccf248a5ecb2a7194ca58aeae1bdb94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 63/70] fix: compare note ages modulo their 16-bit range

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 6d3509e..b9b85fc 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1296,7 +1296,7 @@ void VMUpdateAllNotesAge (S_VOICE_MGR *pVoiceMgr, EAS_U16 age)
 
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
-        if (age - pVoiceMgr->voices[i].age > 0)
+        if ((EAS_I16) (age - pVoiceMgr->voices[i].age) > 0)
             pVoiceMgr->voices[i].age++;
      }
 }
-- 
2.43.0


From abd8932f603e7ac0848e4804806434fbd975bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:13 +0000
Subject: [PATCH 64/70] fix: noise generator uses the top 14 bits of a 32-bit
 state

---
 arm-wt-22k/lib_src/eas_wtengine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_wtengine.c b/arm-wt-22k/lib_src/eas_wtengine.c
index 0401d11..5eb59b7 100644
--- a/arm-wt-22k/lib_src/eas_wtengine.c
+++ b/arm-wt-22k/lib_src/eas_wtengine.c
@@ -492,9 +492,9 @@ void WT_VoiceFilter (S_FILTER_CONTROL *pFilter, S_WT_INT_FRAME *pWTIntFrame)
 
     /* get last two samples generated */
     /*lint -e{704} <avoid divide for performance>*/
-    tmp0 = (EAS_I32) (pWTVoice->phaseAccum) >> 18;
+    tmp0 = (int32_t) (pWTVoice->phaseAccum) >> 18;
     /*lint -e{704} <avoid divide for performance>*/
-    tmp1 = (EAS_I32) (pWTVoice->loopEnd) >> 18;
+    tmp1 = (int32_t) (pWTVoice->loopEnd) >> 18;
 
     /* generate a buffer of noise */
     while (numSamples--) {
@@ -508,7 +508,7 @@ void WT_VoiceFilter (S_FILTER_CONTROL *pFilter, S_WT_INT_FRAME *pWTIntFrame)
             tmp0 = tmp1;
             pWTVoice->phaseAccum = pWTVoice->loopEnd;
             pWTVoice->loopEnd = (5 * pWTVoice->loopEnd + 1);
-            tmp1 = (EAS_I32) (pWTVoice->loopEnd) >> 18;
+            tmp1 = (int32_t) (pWTVoice->loopEnd) >> 18;
             pWTVoice->phaseFrac = GET_PHASE_FRAC_PART(pWTVoice->phaseFrac);
         }
 
-- 
2.43.0


From ba579b84f7be07506024e05a3bf3d67ac64d22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 65/70] fix: limit the gain of a voice with tremolo to full
 scale

---
 arm-wt-22k/lib_src/eas_wtsynth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_wtsynth.c b/arm-wt-22k/lib_src/eas_wtsynth.c
index 913d4d1..e6c8f1f 100644
--- a/arm-wt-22k/lib_src/eas_wtsynth.c
+++ b/arm-wt-22k/lib_src/eas_wtsynth.c
@@ -810,7 +810,11 @@ static EAS_I32 WT_UpdateGain (S_SYNTH_VOICE *pVoice, S_WT_VOICE *pWTVoice, const
     temp = MULT_EG1_EG1(temp, lfoGain);
 
     /* calculate the voice's gain */
-    temp = (EAS_I16)MULT_EG1_EG1(temp, pWTVoice->eg1Value);
+    temp = MULT_EG1_EG1(temp, pWTVoice->eg1Value);
+
+    /* the LFO may ask for more than full scale */
+    if (temp > SYNTH_FULL_SCALE_EG1_GAIN)
+        temp = SYNTH_FULL_SCALE_EG1_GAIN;
 
     return temp;
 }
-- 
2.43.0


From b888743e0950c8d5825c42e6f135823a5f0c2cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 66/70] fix: look the instruments up again when a song gets
 another sound library

---
 arm-wt-22k/lib_src/eas_public.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 5c2f266..c84a5d2 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -210,7 +210,16 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #endif
 
         case PARSER_DATA_EAS_LIBRARY:
-            return VMSetEASLib(pSynth, (EAS_SNDLIB_HANDLE) value);
+            {
+                EAS_RESULT result;
+
+                result = VMSetEASLib(pSynth, (EAS_SNDLIB_HANDLE) value);
+
+                /* voices and channels refer to regions of the old library */
+                if (result == EAS_SUCCESS)
+                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+                return result;
+            }
 
         case PARSER_DATA_POLYPHONY:
             return VMSetPolyphony(pEASData->pVoiceMgr, pSynth, value);
-- 
2.43.0


From 0b07616e09eaa36c395c97df58dfe15685d6dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:16 +0000
Subject: [PATCH 67/70] fix: play nothing without a sound library

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index b9b85fc..75c6c2e 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1870,6 +1870,10 @@ void VMStartNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_U
 
     /* braces here for #if clause */
     {
+        /* nothing to play without a sound library */
+        if (pSynth->pEAS == NULL)
+            return;
+
         /* EAS voice */
         for (;;)
         {
-- 
2.43.0


From 98d13a8c5b61e7856daf3ecfcef8736eea3102d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:12 +0000
Subject: [PATCH 68/70] fix: look for the setup bar anew in every pass

The flags that say whether GM system on and the first note have come stayed
set after a repeat or a seek, so that the setup bar was only skipped in the
first pass.
---
 arm-wt-22k/lib_src/eas_midi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 8cb043a..4116981 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -93,6 +93,7 @@ void EAS_InitMIDIStream (S_MIDI_STREAM *pMIDIStream)
     pMIDIStream->pending = EAS_FALSE;
     pMIDIStream->runningStatus = 0;
     pMIDIStream->status = 0;
+    pMIDIStream->flags = 0;
 }
 
 /*----------------------------------------------------------------------------
-- 
2.43.0


From bddec1f0f0d14d79dc5e269e43aef956cae0ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:12 +0000
Subject: [PATCH 69/70] fix: recognise a setup bar when the length of a song is
 measured

Exclusives and notes were not looked at then, so that the reported length of
a song included the setup bar which playback skips.
---
 arm-wt-22k/lib_src/eas_midi.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 4116981..0885a8d 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -128,8 +128,6 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
             /* deal with SysEx */
             if ((c == 0xf7) || (c == 0xf0))
             {
-                if (parserMode == eParserModeMetaData)
-                    return EAS_SUCCESS;
                 return ProcessSysExMessage(pEASData, pSynth, pMIDIStream, c, parserMode);
             }
 
@@ -149,7 +147,12 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
         pMIDIStream->byte3 = EAS_FALSE;
         pMIDIStream->pending = EAS_FALSE;
         if (parserMode == eParserModeMetaData)
+        {
+            /* the first note ends a setup bar */
+            if (((pMIDIStream->status & 0xf0) == 0x90) && c)
+                pMIDIStream->flags |= MIDI_FLAG_FIRST_NOTE;
             return EAS_SUCCESS;
+        }
         return ProcessMIDIMessage(pEASData, pSynth, pMIDIStream, parserMode);
     }
 
@@ -191,8 +194,6 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
         /* SysEx message? */
         if (pMIDIStream->status == 0xF0)
         {
-            if (parserMode == eParserModeMetaData)
-                return EAS_SUCCESS;
             return ProcessSysExMessage(pEASData, pSynth, pMIDIStream, c, parserMode);
         }
 
@@ -403,9 +404,9 @@ static EAS_RESULT ProcessSysExMessage (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_
             if ((c == 1) || (c == 3))
             {
                 /* GM 1 or GM2 On, reset synth */
+                pMIDIStream->flags |= MIDI_FLAG_GM_ON;
                 if (parserMode != eParserModeMetaData)
                 {
-                    pMIDIStream->flags |= MIDI_FLAG_GM_ON;
                     VMReset(pEASData->pVoiceMgr, pSynth, EAS_FALSE);
                     VMInitMIPTable(pSynth);
                 }
-- 
2.43.0


From 77abd88818908f9eba6a5983111bfd2660a9fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:12 +0000
Subject: [PATCH 70/70] fix: skip no setup bar after the first note

When a note had come at time 0 ahead of the last of tempo, time signature and
GM system on, the time up to the next event of its track was dropped.
---
 arm-wt-22k/lib_src/eas_smf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index c07cf83..2a533bd 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -1023,6 +1023,7 @@ static EAS_RESULT SMF_ParseSysEx (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_
 static EAS_RESULT SMF_ParseEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_SMF_STREAM *pSMFStream, EAS_INT parserMode)
 {
     EAS_RESULT result;
+    EAS_I32 i;
     EAS_U8 c;
 
     /* get the event type */
@@ -1069,7 +1070,16 @@ static EAS_RESULT SMF_ParseEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_
                 pSMFData->flags &= ~SMF_FLAGS_CHASE_MODE;
         }
         else if ((pSMFData->flags & SMF_FLAGS_SETUP_BAR) == SMF_FLAGS_SETUP_BAR)
-            pSMFData->flags = (pSMFData->flags & ~SMF_FLAGS_SETUP_BAR) | SMF_FLAGS_CHASE_MODE;
+        {
+            pSMFData->flags &= ~SMF_FLAGS_SETUP_BAR;
+
+            /* there is nothing to skip if a note has been played already */
+            for (i = 0; i < pSMFData->numStreams; i++)
+                if (pSMFData->streams[i].midiStream.flags & MIDI_FLAG_FIRST_NOTE)
+                    break;
+            if (i == pSMFData->numStreams)
+                pSMFData->flags |= SMF_FLAGS_CHASE_MODE;
+        }
     }
 
     return EAS_SUCCESS;
-- 
2.43.0

