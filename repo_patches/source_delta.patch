From c49c4b0435a25f0b46220ed3cf5cdf3e941a1e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:57 +0000
Subject: [PATCH 01/32] verif hooks: NANOLOG_VERIF_* size overrides (off by
 default)

---
 runtime/Config.h    | 9 +++++++++
 runtime/TimeTrace.h | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/runtime/Config.h b/runtime/Config.h
index 3ee6d87..c172e99 100644
--- a/runtime/Config.h
+++ b/runtime/Config.h
@@ -33,12 +33,21 @@ namespace NanoLogConfig {
     // Determines the byte size of the per-thread StagingBuffer that decouples
     // the producer logging thread from the consumer background compression
     // thread. This value should be large enough to handle bursts of activity.
+#ifdef NANOLOG_VERIF_STAGING_BUFFER_SIZE
+    static const uint32_t STAGING_BUFFER_SIZE =
+                                        NANOLOG_VERIF_STAGING_BUFFER_SIZE;
+#else
     static const uint32_t STAGING_BUFFER_SIZE = 1<<20;
+#endif
 
     // Determines the size of the output buffer used to store compressed log
     // messages. It should be at least 8MB large to amortize disk seeks and
     // shall not be smaller than STAGING_BUFFER_SIZE.
+#ifdef NANOLOG_VERIF_OUTPUT_BUFFER_SIZE
+    static const uint32_t OUTPUT_BUFFER_SIZE = NANOLOG_VERIF_OUTPUT_BUFFER_SIZE;
+#else
     static const uint32_t OUTPUT_BUFFER_SIZE = 1<<26;
+#endif
 
     // This invariant must be true so that we can output at least one full
     // StagingBuffer per output buffer.
diff --git a/runtime/TimeTrace.h b/runtime/TimeTrace.h
index 42d9409..1674a08 100644
--- a/runtime/TimeTrace.h
+++ b/runtime/TimeTrace.h
@@ -154,7 +154,11 @@ class TimeTrace {
 
       protected:
         // Determines the number of events we can retain as an exponent of 2
+#ifdef NANOLOG_VERIF_TIMETRACE_EXP
+        static const uint8_t BUFFER_SIZE_EXP = NANOLOG_VERIF_TIMETRACE_EXP;
+#else
         static const uint8_t BUFFER_SIZE_EXP = 13;
+#endif
 
         // Total number of events that we can retain any given time.
         static const uint32_t BUFFER_SIZE = 1 << BUFFER_SIZE_EXP;
-- 
2.43.0


From 964edd69dc445275c08a474f420ee629602f4f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:46 +0000
Subject: [PATCH 02/32] fix: do not end a compression pass early when a dead
 buffer is deleted

When the buffer at which a pass started was deleted, the end-of-pass test
matched immediately and the remaining buffers were not scanned. A sync() (and
thus process exit) needs two passes over all buffers, so messages of live
threads could be left unpersisted.
---
 runtime/RuntimeLogger.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 56b7c0f..610fc52 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -484,12 +484,22 @@ RuntimeLogger::compressionThreadMain() {
                             break;
                         }
 
+                        // If the pass started at the deleted buffer, then none
+                        // of the remaining ones have been checked yet; restart
+                        // the pass at the buffer that took its place.
+                        if (lastStagingBufferChecked == i) {
+                            if (i == threadBuffers.size()) {
+                                i = 0;
+                                wrapAround = true;
+                            }
+                            lastStagingBufferChecked = i;
+                            continue;
+                        }
+
                         // Back up the indexes so that we ensure we wont skip
-                        // a buffer in our pass (and it's okay to redo one)
-                        if (lastStagingBufferChecked >= i &&
-                            lastStagingBufferChecked > 0) {
+                        // a buffer in our pass
+                        if (lastStagingBufferChecked > i)
                             --lastStagingBufferChecked;
-                        }
                         --i;
                     }
                 }
-- 
2.43.0


From ff8632b4569faa678b950137b4e7dacb6ab0d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:46 +0000
Subject: [PATCH 03/32] fix: sync() must not return on a spurious wake-up

The wait had no predicate, so a spurious wake-up of the condition variable
returned from sync() before anything was persisted.
---
 runtime/RuntimeLogger.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 610fc52..9cd7ac3 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -735,7 +735,9 @@ RuntimeLogger::sync() {
     std::unique_lock<std::mutex> lock(nanoLogSingleton.condMutex);
     nanoLogSingleton.syncStatus = SYNC_REQUESTED;
     nanoLogSingleton.workAdded.notify_all();
-    nanoLogSingleton.hintSyncCompleted.wait(lock);
+    nanoLogSingleton.hintSyncCompleted.wait(lock, [] {
+        return nanoLogSingleton.syncStatus == SYNC_COMPLETED;
+    });
 }
 
 /**
-- 
2.43.0


From 6e98f9dad082e886ae817047f8fe77b90553ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:20 +0000
Subject: [PATCH 04/32] fix: ordered decompression must print all pending
 messages before the next execution's dictionary

---
 runtime/Log.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d941041..4844044 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1864,12 +1864,16 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 case EntryType::CHECKPOINT:
                     // New logical start to the logs detected, at this point
                     // we should make sure we've printed all the buffered logs
-                    // before continuing to parse the next logical start.
-                    if (!stages[0].empty()) {
-                        mustDepleteAllStages = true;
-                        break;
+                    // (in any stage, since the first one may have been emptied
+                    // early) before continuing to parse the next logical start.
+                    for (auto &stage : stages) {
+                        if (!stage.empty())
+                            mustDepleteAllStages = true;
                     }
 
+                    if (mustDepleteAllStages)
+                        break;
+
                     // We're safe, all the stages are empty
                     good = readDictionary(inputFd, true);
 
-- 
2.43.0


From 98cf5b2c6924372367dffe3f1dd3e8d25c47fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:39 +0000
Subject: [PATCH 05/32] fix: a full output buffer must not produce extra
 new-pass markers

Ordered decompression relies on the markers to bound how far messages can be
out of order; when the output buffer filled up, the pass was marked as wrapped
although it resumed at the same buffer, and a marker already emitted with an
empty extent was repeated.
---
 runtime/RuntimeLogger.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 9cd7ac3..d9aa5d6 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -439,6 +439,7 @@ RuntimeLogger::compressionThreadMain() {
                         long bytesToEncode = std::min(
                                 NanoLogConfig::RELEASE_THRESHOLD,
                                 remaining);
+                        size_t encodedBefore = encoder.getEncodedBytes();
 #ifdef PREPROCESSOR_NANOLOG
                         long bytesRead = encoder.encodeLogMsgs(
                                 peekPosition + (peekBytes - remaining),
@@ -460,6 +461,11 @@ RuntimeLogger::compressionThreadMain() {
                         if (bytesRead == 0) {
                             lastStagingBufferChecked = i;
                             outputBufferFull = true;
+
+                            // An empty extent may still have been encoded; it
+                            // carries the new pass marker, so don't repeat it
+                            if (encoder.getEncodedBytes() > encodedBefore)
+                                wrapAround = false;
                             break;
                         }
 
@@ -471,6 +477,12 @@ RuntimeLogger::compressionThreadMain() {
                     }
                     cyclesCompressing += PerfUtils::Cycles::rdtsc() - start;
                     lock.lock();
+
+                    // The pass resumes at this very buffer after the output,
+                    // so it must not be counted as passed (a new pass marker
+                    // here would be one too many)
+                    if (outputBufferFull)
+                        break;
                 } else {
                     // If there's no work, check if we're supposed to delete
                     // the stagingBuffer
-- 
2.43.0


From c61746cd5c85a26af391402c95aebbaf4e29aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:46 +0000
Subject: [PATCH 06/32] fix: print negative dynamic widths and precisions as
 printf does

---
 runtime/Log.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 4844044..6c2df2f 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -16,6 +16,7 @@
 #include <algorithm>
 
 #include <bits/algorithmfwd.h>
+#include <limits>
 #include <regex>
 #include <vector>
 
@@ -31,6 +32,10 @@ namespace NanoLogInternal {
 static const char* logLevelNames[] = {"(none)", "ERROR", "WARNING",
                                        "NOTICE", "DEBUG"};
 
+// Indicates that a printf-specifier takes no dynamic width/precision argument.
+// (Any other value, including negative ones, may be passed in by the user).
+static const int NO_DYNAMIC_ARGUMENT = std::numeric_limits<int>::min();
+
 /**
  * Insert a checkpoint into an output buffer. This operation is fairly
  * expensive so it is typically performed once per new log file.
@@ -1249,9 +1254,9 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
  * \param arg
  *      Argument to pass in with the format string
  * \param width
- *      Width parameter of a printf-specifier, a value of -1 specifies none
+ *      Width parameter of a printf-specifier (NO_DYNAMIC_ARGUMENT if none)
  * \param precision
- *      precision parameter of a printf-specifier, a value of -1 specifies none
+ *      precision parameter of a printf-specifier (NO_DYNAMIC_ARGUMENT if none)
  */
 template<typename T>
 static inline void
@@ -1259,8 +1264,8 @@ printSingleArg(FILE *outputFd,
                NanoLogInternal::Log::LogMessage &logArguments,
                const char* formatString,
                T arg,
-               int width = -1,
-               int precision = -1)
+               int width = NO_DYNAMIC_ARGUMENT,
+               int precision = NO_DYNAMIC_ARGUMENT)
 {
     logArguments.push(arg);
 
@@ -1271,11 +1276,14 @@ printSingleArg(FILE *outputFd,
 #pragma GCC diagnostic ignored "-Wformat-security"
 #pragma GCC diagnostic ignored "-Wformat-nonliteral"
 
-    if (width < 0 && precision < 0) {
+    // Negative values are legal (left justification/no precision)
+    bool hasWidth = (width != NO_DYNAMIC_ARGUMENT);
+    bool hasPrecision = (precision != NO_DYNAMIC_ARGUMENT);
+    if (!hasWidth && !hasPrecision) {
         fprintf(outputFd, formatString, arg);
-    } else if (width >= 0 && precision < 0)
+    } else if (hasWidth && !hasPrecision)
         fprintf(outputFd, formatString, width, arg);
-    else if (width >= 0 && precision >= 0)
+    else if (hasWidth && hasPrecision)
         fprintf(outputFd, formatString, width, precision, arg);
     else
         fprintf(outputFd, formatString, precision, arg);
@@ -1436,11 +1444,11 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         for (int i = 0; i < metadata->numPrintFragments; ++i) {
             const wchar_t *wstrArg;
 
-            int width = -1;
+            int width = NO_DYNAMIC_ARGUMENT;
             if (pf->hasDynamicWidth)
                 width = nb.getNext<int>();
 
-            int precision = -1;
+            int precision = NO_DYNAMIC_ARGUMENT;
             if (pf->hasDynamicPrecision)
                 precision = nb.getNext<int>();
 
-- 
2.43.0


From 8839e7063977d3621c600c1f81d6c6bc9a1e30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 07/32] fix: accept a printf precision without digits ('%.f')
 in decoded formats

---
 runtime/Log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 6c2df2f..bdb1fe1 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -852,7 +852,7 @@ Log::Decoder::createMicroCode(char **microCode,
     std::regex regex("^%"
                      "([-+ #0]+)?" // Flags (Position 1)
                      "([\\d]+|\\*)?" // Width (Position 2)
-                     "(\\.(\\d+|\\*))?"// Precision (Position 4; 3 includes '.')
+                     "(\\.(\\d*|\\*))?"// Precision (Position 4; 3 includes '.')
                      "(hh|h|l|ll|j|z|Z|t|L)?" // Length (Position 5)
                      "([diuoxXfFeEgGaAcspn])"// Specifier (Position 6)
                      );
-- 
2.43.0


From 41cbaca1d2be262a457af8065d6015521f93b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 08/32] fix: a backslash in a format string must not hide the
 conversion after it from the decoder

---
 runtime/Log.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index bdb1fe1..daf3d13 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -871,12 +871,6 @@ Log::Decoder::createMicroCode(char **microCode,
     while (i < formatStringLength) {
         char c = formatString[i];
 
-        // Skip the next character if there's an escape
-        if (c == '\\') {
-            i += 2;
-            continue;
-        }
-
         if (c != '%') {
             ++i;
             consecutivePercents = 0;
-- 
2.43.0


From 5af54bec966a1509bf08441a11fb8874fa40b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 09/32] fix: do not read wide strings through misaligned
 pointers when decoding

---
 runtime/Log.cc | 43 +++++++++++++------------------------------
 runtime/Log.h  |  6 ++++++
 2 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index daf3d13..bd69e11 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1160,6 +1160,7 @@ Log::Decoder::BufferFragment::BufferFragment()
     , hasMoreLogs(false)
     , nextLogId(-1)
     , nextLogTimestamp(0)
+    , wideStrings()
 {
 }
 
@@ -1412,6 +1413,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         const char *logLevel = logLevelNames[metadata->logLevel];
 
         logArgs.reset(metadata, nextLogId, nextLogTimestamp);
+        wideStrings.clear();
 
         // Output the context
         if (outputFd) {
@@ -1614,41 +1616,22 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
 
                 case const_wchar_t_ptr_t:
 
-                    /**
-                     * I've occasionally encountered the following assertion:
-                     * __wcsrtombs: Assertion `data.__outbuf[-1] == '\0'' failed
-                     *
-                     * I don't know why this occurs, but it appears to be caused
-                     * by a wcslen() call deep inside printf returning the wrong
-                     * value when called on the dynamic buffer. I've found
-                     * that copying the data into a stack buffer first fixes
-                     * the problem (not implemented here).
-                     *
-                     * I don't know why this is the case and I'm inclined to
-                     * believe it's a problem with the library because I've...
-                     *  (1) verified byte by byte that the copied wchar_t
-                     *      strings and the surrounding bytes are exactly the
-                     *      same in the dynamic and stack allocated buffers.
-                     *  (2) copied the wcslen code from the glib sources into
-                     *      to this file and calling it on the dynamic buffer
-                     *      works, but the public wcslen() API still returns an
-                     *      incorrect value.
-                     *  (3) verified that no corruption occurs in the buffers
-                     *      before and after the wcslen() returns the wrong val
-                     *
-                     * If wide character support becomes important and this
-                     * assertion keeps erroring out, I would work around it
-                     * by copying the wide string into a stack buffer before
-                     * passing it to printf.
-                     */
-                    wstrArg = reinterpret_cast<const wchar_t *>(nextStringArg);
+                    // The string can start at any byte, but wide strings must be
+                    // aligned for use with the standard library.
+                    wideStrings.emplace_back();
+                    do {
+                        wchar_t next;
+                        std::memcpy(&next, nextStringArg, sizeof(wchar_t));
+                        nextStringArg += sizeof(wchar_t);
+                        wideStrings.back().push_back(next);
+                    } while (wideStrings.back().back() != L'\0');
+
+                    wstrArg = wideStrings.back().data();
                     printSingleArg(outputFd,
                                    logArgs,
                                    pf->formatFragment,
                                    wstrArg,
                                    width, precision);
-                    // +1 for NULL
-                    nextStringArg += (wcslen(wstrArg) + 1) * sizeof(wchar_t);
                     break;
 
                 case MAX_FORMAT_TYPE:
diff --git a/runtime/Log.h b/runtime/Log.h
index abf2873..478b0a5 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -908,7 +908,13 @@ namespace Log {
             uint32_t nextLogId;
             uint64_t nextLogTimestamp;
 
+            // Aligned copies of the wide strings in the log message that was
+            // last decompressed (in storage, they can start at any byte).
+            std::vector<std::vector<wchar_t>> wideStrings;
+
             BufferFragment();
+            BufferFragment(const BufferFragment&) = delete;
+            BufferFragment& operator=(const BufferFragment&) = delete;
             void reset();
             bool hasNext();
             bool readBufferExtent(FILE *fd, bool *wrapAround=nullptr);
-- 
2.43.0


From 6e237016a6daae70f5ab12daff33139208f85733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 10/32] fix: a string argument with a precision must not be
 read beyond it

---
 runtime/NanoLogCpp17.h | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index ffb063e..a396e2c 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -609,20 +609,21 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = strlen(str);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
-
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that such a string need not be
+    // NULL terminated, so it must not be read beyond that length.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = strnlen(str, static_cast<uint32_t>(fmtType));
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
-    // the previous parameter as the precision and truncate as necessary.
+    // the previous parameter as the precision and truncate as necessary
+    // (negative precisions are taken as if there were none).
     else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-                stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+                static_cast<int64_t>(previousPrecision) >= 0)
+        stringBytes = strnlen(str, previousPrecision);
+    else
+        stringBytes = strlen(str);
 
     return stringBytes + sizeof(uint32_t);
 }
@@ -639,20 +640,21 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = wcslen(wstr);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
-
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that such a string need not be
+    // NULL terminated, so it must not be read beyond that length.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = wcsnlen(wstr, static_cast<uint32_t>(fmtType));
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
-    // the previous parameter as the precision and truncate as necessary.
+    // the previous parameter as the precision and truncate as necessary
+    // (negative precisions are taken as if there were none).
     else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-             stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+                static_cast<int64_t>(previousPrecision) >= 0)
+        stringBytes = wcsnlen(wstr, previousPrecision);
+    else
+        stringBytes = wcslen(wstr);
 
     stringBytes *= sizeof(wchar_t);
     return stringBytes + sizeof(uint32_t);
-- 
2.43.0


From 2a6f293feca53acfa1e2e13cc7a6f24006159fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 11/32] fix: record signed/unsigned char strings passed to %s

---
 runtime/NanoLogCpp17.h | 55 +++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index a396e2c..dfbafed 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -341,6 +341,21 @@ getNumNibblesNeeded(const char (&fmt)[N])
     return numNibbles;
 }
 
+/**
+ * Tells whether an argument of type T can be printed as a string (i.e. %s or
+ * %ls, depending on the format string).
+ */
+template<typename T>
+struct isStringPointer : std::integral_constant<bool,
+            std::is_same<T, const wchar_t*>::value
+            || std::is_same<T, const char*>::value
+            || std::is_same<T, const signed char*>::value
+            || std::is_same<T, const unsigned char*>::value
+            || std::is_same<T, wchar_t*>::value
+            || std::is_same<T, char*>::value
+            || std::is_same<T, signed char*>::value
+            || std::is_same<T, unsigned char*>::value> {};
+
 /**
  * Stores a single printf argument into a buffer and bumps the buffer pointer.
  *
@@ -367,11 +382,7 @@ getNumNibblesNeeded(const char (&fmt)[N])
  */
 template<typename T>
 inline
-typename std::enable_if<!std::is_same<T, const wchar_t*>::value
-                        && !std::is_same<T, const char*>::value
-                        && !std::is_same<T, wchar_t*>::value
-                        && !std::is_same<T, char*>::value
-                        , void>::type
+typename std::enable_if<!isStringPointer<T>::value, void>::type
 store_argument(char **storage,
                T arg,
                ParamType paramType,
@@ -389,11 +400,7 @@ store_argument(char **storage,
 // string specialization of the above
 template<typename T>
 inline
-typename std::enable_if<std::is_same<T, const wchar_t*>::value
-                        || std::is_same<T, const char*>::value
-                        || std::is_same<T, wchar_t*>::value
-                        || std::is_same<T, char*>::value
-                        , void>::type
+typename std::enable_if<isStringPointer<T>::value, void>::type
 store_argument(char **storage,
                T arg,
                const ParamType paramType,
@@ -550,10 +557,7 @@ as_uint64_t(T t) {
  */
 template<typename T>
 inline
-typename std::enable_if<!std::is_same<T, const wchar_t*>::value
-                        && !std::is_same<T, const char*>::value
-                        && !std::is_same<T, wchar_t*>::value
-                        && !std::is_same<T, char*>::value
+typename std::enable_if<!isStringPointer<T>::value
                         && !std::is_same<T, const void*>::value
                         && !std::is_same<T, void*>::value
                         , size_t>::type
@@ -660,6 +664,29 @@ getArgSize(const ParamType fmtType,
     return stringBytes + sizeof(uint32_t);
 }
 
+/**
+ * (un)signed char string specializations of the above.
+ */
+inline size_t
+getArgSize(const ParamType fmtType,
+            uint64_t &previousPrecision,
+            size_t &stringBytes,
+            const unsigned char* str)
+{
+    return getArgSize(fmtType, previousPrecision, stringBytes,
+                      reinterpret_cast<const char*>(str));
+}
+
+inline size_t
+getArgSize(const ParamType fmtType,
+            uint64_t &previousPrecision,
+            size_t &stringBytes,
+            const signed char* str)
+{
+    return getArgSize(fmtType, previousPrecision, stringBytes,
+                      reinterpret_cast<const char*>(str));
+}
+
 /**
  * Given a variable number of printf arguments and type information deduced
  * from the original format string, compute the amount of space needed to
-- 
2.43.0


From c7c3f6c38333c330d3fcdde9e07bdd194324d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 12/32] fix: drop the previous execution's dictionary before
 reading the next one

---
 runtime/Log.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index bd69e11..b923de8 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -656,6 +656,12 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
+    if (flushOldDictionary) {
+        endOfRawMetadata = rawMetadata;
+        fmtId2metadata.clear();
+        fmtId2fmtString.clear();
+    }
+
     size_t bytesRead = fread(endOfRawMetadata, 1, checkpoint.newMetadataBytes,
                              fd);
     if (bytesRead != checkpoint.newMetadataBytes) {
@@ -663,12 +669,6 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
-    if (flushOldDictionary) {
-        endOfRawMetadata = rawMetadata;
-        fmtId2metadata.clear();
-        fmtId2fmtString.clear();
-    }
-
     // Build an index of format id to metadata
     const char *start = endOfRawMetadata;
     const char *newEnd = endOfRawMetadata + bytesRead;
-- 
2.43.0


From 77a11fe2139ea7972b1dfb9295e5bccf80244746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:10 +0000
Subject: [PATCH 13/32] fix: re-opening a decoder must discard the messages and
 the descriptor of the previous file

---
 runtime/Log.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index b923de8..657e115 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1083,6 +1083,11 @@ Log::Decoder::readDictionaryFragment(FILE *fd) {
  */
 bool
 Log::Decoder::open(const char *filename) {
+    // Forget about any file that was opened previously
+    if (inputFd)
+        fclose(inputFd);
+
+    bufferFragment->reset();
     inputFd = fopen(filename, "rb");
     good = false;
 
-- 
2.43.0


From 2bcba66b40948911fb68e09c5ae76db196eba45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:10 +0000
Subject: [PATCH 14/32] fix: reject a file that does not start with a
 checkpoint instead of aborting

---
 runtime/Log.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtime/Log.h b/runtime/Log.h
index 478b0a5..aaad58b 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -608,8 +608,7 @@ namespace Log {
         if (!numRead)
             return false;
 
-        assert(cp.entryType == EntryType::CHECKPOINT);
-        return true;
+        return cp.entryType == EntryType::CHECKPOINT;
     }
 
     /**
-- 
2.43.0


From b6dc779f5f3c4a5f17623edb82b35d9f2c8fea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:10 +0000
Subject: [PATCH 15/32] fix: carry into the next second when rounding the
 printed nanoseconds

---
 runtime/Log.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 657e115..92f5107 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -16,6 +16,7 @@
 #include <algorithm>
 
 #include <bits/algorithmfwd.h>
+#include <cmath>
 #include <limits>
 #include <regex>
 #include <vector>
@@ -1369,6 +1370,13 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
             nanos += 1.0e9;
         }
 
+        // Rounding to whole nanoseconds may carry over to the next second.
+        nanos = std::rint(nanos);
+        if (nanos >= 1.0e9) {
+            wholeSeconds++;
+            nanos -= 1.0e9;
+        }
+
         std::time_t absTime = wholeSeconds + checkpoint.unixTime;
         std::tm *tm = localtime(&absTime);
         strftime(timeString, sizeof(timeString), "%Y-%m-%d %H:%M:%S", tm);
-- 
2.43.0


From 191ba66741194a2e3c1f34717cb8fbaaf99d649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:27 +0000
Subject: [PATCH 16/32] fix: time traces must count their active readers

---
 runtime/TimeTrace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/TimeTrace.cc b/runtime/TimeTrace.cc
index 4e8fa97..9293469 100644
--- a/runtime/TimeTrace.cc
+++ b/runtime/TimeTrace.cc
@@ -215,7 +215,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
 {
     bool printedAnything = false;
     for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(1);
+        buffers->at(i)->activeReaders.fetch_add(1);
     }
 
     // Initialize file for writing
@@ -331,7 +331,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
     }
 
     for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(-1);
+        buffers->at(i)->activeReaders.fetch_add(-1);
     }
     if (output && output != stdout)
         fclose(output);
-- 
2.43.0


From d0a84280bd7df1534067c1deb38e285536115fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:36 +0000
Subject: [PATCH 17/32] fix: a record() in progress must not hide a thread's
 events from a time trace

---
 runtime/TimeTrace.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/TimeTrace.cc b/runtime/TimeTrace.cc
index 9293469..aab5e11 100644
--- a/runtime/TimeTrace.cc
+++ b/runtime/TimeTrace.cc
@@ -226,13 +226,19 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
     // Holds the index of the next event to consider from each trace.
     std::vector<int> current;
 
+    // Holds the index just past the last event to consider from each trace.
+    // The nextIndex of a buffer can't be used for this purpose, since a call
+    // to record() that started before we did may still advance it.
+    std::vector<int> end;
+
     // Find the first (oldest) event in each trace. This will be events[0]
     // if we never completely filled the buffer, otherwise events[nextIndex+1].
     // This means we don't print the entry at nextIndex; this is convenient
     // because it simplifies boundary conditions in the code below.
     for (uint32_t i = 0; i < buffers->size(); i++) {
         TimeTrace::Buffer* buffer = buffers->at(i);
-        int index = (buffer->nextIndex + 1) % Buffer::BUFFER_SIZE;
+        end.push_back(buffer->nextIndex);
+        int index = (end.back() + 1) % Buffer::BUFFER_SIZE;
         if (buffer->events[index].format != NULL) {
             current.push_back(index);
         } else {
@@ -260,7 +266,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
         TimeTrace::Buffer* buffer = buffers->at(i);
         while ((buffer->events[current[i]].format != NULL) &&
                 (buffer->events[current[i]].timestamp < startTime) &&
-                (current[i] != buffer->nextIndex)) {
+                (current[i] != end[i])) {
             current[i] = (current[i] + 1) % Buffer::BUFFER_SIZE;
         }
     }
@@ -278,7 +284,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
         for (uint32_t i = 0; i < buffers->size(); i++) {
             buffer = buffers->at(i);
             event = &buffer->events[current[i]];
-            if ((current[i] != buffer->nextIndex) && (event->format != NULL)
+            if ((current[i] != end[i]) && (event->format != NULL)
                     && (event->timestamp < earliestTime)) {
                 currentBuffer = static_cast<int>(i);
                 earliestTime = event->timestamp;
-- 
2.43.0


From 2355ba0258490f5c9a785573f0c0d9ef241b157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:20 +0000
Subject: [PATCH 18/32] fix: an escaped backslash at the end of a format string
 must not hide its closing quote

extractCString() treated the second backslash of "...\\\\" as the start of
another escape, so the preprocessor rejected the (valid) statement.
---
 preprocessor/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index ff03dba..7a1a4c2 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -121,7 +121,7 @@ def extractCString(source):
         isInQuotes = not isInQuotes
       elif isInQuotes:
         returnString += c
-        prevWasEscape = c == "\\"
+        prevWasEscape = c == "\\" and not prevWasEscape
       else:
         if not (c.isspace()):
           return None
-- 
2.43.0


From c21c6e35d95cf1e39979ee76977c47828c3fdc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:20 +0000
Subject: [PATCH 19/32] fix: an identifier such as NNANO_LOG is not a log
 statement

The scan did not remember an 'N' that turned out not to start NANO_LOG as the
previous character, so a longer identifier with an N before the name matched.
---
 preprocessor/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 7a1a4c2..27a3479 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -419,16 +419,19 @@ def processFile(inputFile, mapOutputFilename):
                 break
 
             if not found:
+              lastChar = c
               continue
 
             # Valid identifier characters are [a-zA-Z_][a-zA-Z0-9_]*
             if lastChar.isalnum() or lastChar == '_':
+              lastChar = c
               continue
 
             # Check that it's a function invocation via the existence of (
             filePosAfter = FilePosition(lineIndex, charOffset + len(LOG_FUNCTION))
             mChar, mPos = peekNextMeaningfulChar(lines, filePosAfter)
             if mChar != "(":
+              lastChar = c
               continue
 
             # Okay at this point we are pretty sure we have a genuine
-- 
2.43.0


From a3fc357953ffd2578ff2c8bae2787977692f29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:46 +0000
Subject: [PATCH 20/32] fix: understand character literals and raw strings when
 looking for log statements

A quotation mark in a character literal ('"') made the preprocessor miss the
log statements after it on the line (their messages were silently lost) or look
for the end of an argument in the wrong place, parentheses and commas in
character literals ended arguments, and the contents of raw strings were
taken for code.
---
 preprocessor/parser.py | 92 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 13 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 27a3479..f511ddc 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -131,6 +131,51 @@ def extractCString(source):
 
   return returnString
 
+# Given the position of a quotation mark outside of any string or character
+# literal, find the end of the literal that it starts.
+#
+# \param lines
+#         all lines of the file
+#
+# \param pos
+#         FilePosition of the (single or double) quotation mark
+#
+# \param line
+#         contents of the line at pos
+#
+# \return
+#         FilePosition of the closing quotation mark; None if there's none. A
+#         single quotation mark that separates digits (i.e. 1'000) is returned
+#         as is, since it does not start a literal.
+#
+def findEndOfLiteral(lines, pos, line):
+  quote = line[pos.offset]
+
+  # Raw strings span lines, know no escapes, and end in )delimiter"
+  if quote == "\"" and re.search("(?:^|\\W)(?:u8|u|U|L)?R$", line[:pos.offset]):
+    openParen = line.find("(", pos.offset)
+    terminator = ")" + line[pos.offset + 1:openParen] + "\""
+    offset = line.find(terminator, openParen)
+    lineNum = pos.lineNum
+    while offset == -1:
+      lineNum = lineNum + 1
+      if lineNum == len(lines):
+        return None
+      offset = lines[lineNum].find(terminator)
+    return FilePosition(lineNum, offset + len(terminator) - 1)
+
+  if quote == "'" and re.search("(?:^|[^\\w.'])\\.?\\d[\\w.']*$",
+                                line[:pos.offset]):
+    return pos
+
+  prevWasEscape = False
+  for offset in range(pos.offset + 1, len(line)):
+    if line[offset] == quote and not prevWasEscape:
+      return FilePosition(pos.lineNum, offset)
+    prevWasEscape = line[offset] == "\\" and not prevWasEscape
+
+  return None
+
 # Attempt to extract a single argument in a C++ function invocation given
 # the argument's start position (immediately after left parenthesis or comma)
 # within a file.
@@ -154,7 +199,7 @@ def parseArgumentStartingAt(lines, startPos):
   parenDepth = 0
   curlyDepth = 0
   bracketDepth = 0
-  inQuotes = False
+  literalEnd = None
   argSrcStr = ""
 
   offset = startPos.offset
@@ -166,19 +211,27 @@ def parseArgumentStartingAt(lines, startPos):
       c = line[i]
       argSrcStr = argSrcStr + c
 
+      # Nothing inside a string or character literal ends an argument
+      if literalEnd:
+        if literalEnd == (lineNum, i):
+          literalEnd = None
+        continue
+
       # If it's an escape, we don't care what comes after it
       if c == "\\" or prevWasEscape:
         prevWasEscape = not prevWasEscape
         continue
 
-      # Start counting depths
-      if c == "\"":
-        inQuotes = not inQuotes
-
       # Don't count curlies and parenthesis when in quotes
-      if inQuotes:
+      if c == "\"" or c == "'":
+        literalEnd = findEndOfLiteral(lines, FilePosition(lineNum, i), line)
+        if not literalEnd and c == "\"":
+          return None
+        if literalEnd == (lineNum, i):
+          literalEnd = None
         continue
 
+      # Start counting depths
       if c == "{":
         curlyDepth = curlyDepth + 1
       elif c == "}":
@@ -331,6 +384,10 @@ def processFile(inputFile, mapOutputFilename):
 
       lastChar = '\0'
 
+      # End of the string or character literal being scanned, if any. Only raw
+      # strings end on a later line than they started.
+      literalEnd = None
+
       # Logical location in a file based on GNU Preprocessor directives
       ppFileName = inputFile
       ppLineNum = 0
@@ -358,7 +415,7 @@ def processFile(inputFile, mapOutputFilename):
 
         # Parse special preprocessor directives that follows the format
         # '# lineNumber "filename" flags'
-        if line[0] == "#":
+        if line[0] == "#" and not literalEnd:
           directive = directiveRegex.match(line)
           if directive:
               # -1 since the line num describes the line after it, not the
@@ -385,28 +442,37 @@ def processFile(inputFile, mapOutputFilename):
         # by the C/C++ preprocessor so all the comments have been stripped and
         # all #define's have been resolved.
         prevWasEscape = False
-        inQuotes = False
         charOffset = -1
 
-        # Optimization: Make sure line has LOG_FUNCTION before doing more work
-        if LOG_FUNCTION not in line:
+        # Optimization: Make sure line has LOG_FUNCTION (or a raw string, which
+        # may contain it on a later line) before doing more work
+        if LOG_FUNCTION not in line and "R\"" not in line and not literalEnd:
           continue
 
         while charOffset < len(line) - 1:
           charOffset = charOffset + 1
           c = line[charOffset]
 
+          if literalEnd:
+            if literalEnd == (lineIndex, charOffset):
+              literalEnd = None
+            lastChar = c
+            continue
+
           # If escape, we don't really care about the next char
           if c == "\\" or prevWasEscape:
             prevWasEscape = not prevWasEscape
             lastChar = c
             continue
 
-          if c == "\"":
-            inQuotes = not inQuotes
+          if c == "\"" or c == "'":
+            literalEnd = findEndOfLiteral(lines,
+                                FilePosition(lineIndex, charOffset), line)
+            if literalEnd == (lineIndex, charOffset):
+              literalEnd = None
 
           # If we match the first character, cheat a little and scan forward
-          if c == LOG_FUNCTION[0] and not inQuotes:
+          if c == LOG_FUNCTION[0]:
             # Check if we've found the log function via the following heuristics
             #  (a) the next n-1 characters spell out the rest of LOG_FUNCTION
             #  (b) the previous character was not an alpha numeric (i.e. not
-- 
2.43.0


From 4525bccad34cf799a33750f6bacd4b6162d3b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:11 +0000
Subject: [PATCH 21/32] fix: keep line numbers right when the arguments of a
 log statement contain line markers

g++ -E puts line markers around system macros (NULL, EOF, INT_MAX, ...). Counting
them as source lines shifted the recorded location of every later log statement
up to the next marker.
---
 preprocessor/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index f511ddc..1d7e52e 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -574,8 +574,15 @@ def processFile(inputFile, mapOutputFilename):
             scLineNum, scOffset = logStatement['semiColonPos']
             scLine = lines[scLineNum]
 
-            # Extrapolate the symbolic line number
-            scPPLineNum = ppLineNum + (scLineNum - lineIndex)
+            # Extrapolate the symbolic line number, minding the directives that
+            # the GNU preprocessor may have put between the arguments
+            scPPLineNum = ppLineNum
+            for stmtLine in lines[lineIndex + 1:scLineNum + 1]:
+              directive = directiveRegex.match(stmtLine)
+              if directive:
+                scPPLineNum = int(float(directive.group(1))) - 1
+              else:
+                scPPLineNum = scPPLineNum + 1
 
             # Split the line
             scHeadLine = scLine[:scOffset + 1] + "\r\n"
-- 
2.43.0


From 2468ed2c405f137cc0bd383db458c699be40c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 22/32] fix: accept format strings that use the PRI* macros of
 <cinttypes>

The line markers that g++ -E puts around macros of system headers made the
preprocessor reject the statement as one without a literal format string.
---
 preprocessor/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 1d7e52e..fc9f5ae 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -116,6 +116,11 @@ def extractCString(source):
   prevWasEscape = False
 
   for line in source.splitlines(True):
+    # Skip line markers left by the GNU preprocessor around system macros
+    # (i.e. "%" PRId64)
+    if not isInQuotes and re.match("# \\d+ \"", line):
+      continue
+
     for c in line:
       if c == "\"" and not prevWasEscape:
         isInQuotes = not isInQuotes
-- 
2.43.0


From 8f98b775991448c611db675539b8763a103730ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:22 +0000
Subject: [PATCH 23/32] fix: different log statements on one line must not
 share an id

The id mangles only the format string (ambiguously) and the location, so
statements on the same line that differ in severity, or in a format string such
as "a b" and "a32b", were logged as the first of them.
---
 preprocessor/FunctionGenerator.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 45e8892..36522a4 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -159,7 +159,17 @@ class FunctionGenerator(object):
         for filename in inputFiles:
             with open(filename, 'r') as iFile:
                 loaded_json = json.load(iFile)
-                mergedCode.update(loaded_json["logId2Code"])
+
+            for logId, code in loaded_json["logId2Code"].items():
+                # Statements in different compilation units can only share an
+                # id (and thus code) if they are the same statement
+                other = mergedCode.setdefault(logId, code)
+                for key in ("fmtString", "filename", "logLevel"):
+                    if other.get(key) != code.get(key):
+                        raise ValueError("Conflicting NANO_LOG statements at "
+                            "%s:%s in %s and %s" % (code["filename"],
+                            code["linenum"], other["compilationUnit"],
+                            code["compilationUnit"]))
 
         # Output the C++ code. It may be a bit hard to read admist the static
         # C++ code, but all the code immediately before/after a triple quote
@@ -343,12 +353,22 @@ size_t numLogIds = {count};
     def generateLogFunctions(self, logLevel, fmtString,
                                     compilationName, filename, linenum):
 
-        logId = generateLogIdStr(fmtString, filename, linenum)
+        logLevel = logLevel.strip()
+        baseLogId = generateLogIdStr(fmtString, filename, linenum)
+        logId = baseLogId
 
         # If we've already generated code for this invocation, don't do it again
-        if self.logId2Code.get(logId):
+        numConflicts = 0
+        while self.logId2Code.get(logId):
             code = self.logId2Code.get(logId)
-            return (code.get('recordFnDecl'), code.get('recordFnName'))
+            if code["fmtString"] == fmtString and code["filename"] == filename \
+                    and code["logLevel"] == logLevel:
+                return (code.get('recordFnDecl'), code.get('recordFnName'))
+
+            # A different log statement on the same line that mangles to the
+            # same id, it needs an id of its own
+            numConflicts += 1
+            logId = "%s%d__" % (baseLogId, numConflicts)
 
         # Get a preprocessed list of the format specifiers in a format string
         fmtSpecifiers = splitAndParseTypesInFmtString(fmtString)
-- 
2.43.0


From eb52016de7111a8303ac85de613c3b1d7cf28814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:11 +0000
Subject: [PATCH 24/32] fix: record the length in bytes of a file name that is
 not ASCII

The generated dictionary gave it in characters, which made the decoder read the
entries after it at the wrong place.
---
 preprocessor/FunctionGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 36522a4..6acb378 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -671,7 +671,7 @@ inline void
            numPrintFragments=len(fmtSpecifiers),
            logLevel=logLevel,
            linenum=linenum,
-           filenameLength=len(filename) + 1,
+           filenameLength=len(filename.encode("utf-8")) + 1,
            filename=filename,
            fmtString=fmtString
            )
-- 
2.43.0


From b3f5dd4ea56700cc79d548c3696000ebaa81834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:46 +0000
Subject: [PATCH 25/32] fix: accept a printf precision without digits ('%.f')
 in the preprocessor

---
 preprocessor/FunctionGenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 6acb378..a9fb4cd 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -783,7 +783,7 @@ def splitAndParseTypesInFmtString(fmtString):
                 match = re.match("^%"
                                  "(?P<flags>[-+ #0]+)?"
                                  "(?P<width>[\\d]+|\\*)?"
-                                 "(\\.(?P<precision>\\d+|\\*))?"
+                                 "(\\.(?P<precision>\\*|\\d*))?"
                                  "(?P<length>hh|h|l|ll|j|z|Z|t|L)?"
                                  "(?P<specifier>[diuoxXfFeEgGaAcspn])",
                                  fmtString[charIndex:])
@@ -816,8 +816,9 @@ def splitAndParseTypesInFmtString(fmtString):
         length = fmt.group('length')
         specifier = fmt.group('specifier')
         precision = fmt.group("precision")
-        if precision and precision != '*':
-            precision = int(float(precision))
+        if precision is not None and precision != '*':
+            # A period without any digits means a precision of 0
+            precision = int(precision or 0)
         width = fmt.group('width')
         if width and width != '*':
             width = int(float(width))
-- 
2.43.0


From 724c89580ba5a4f9f211997a9ed40f298fcbc7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:46 +0000
Subject: [PATCH 26/32] fix: generate code that compiles for wide strings with
 a precision

wcsnlen_s() is not a function of the C library (on Linux); wcsnlen() is.
---
 preprocessor/FunctionGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index a9fb4cd..61eba50 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -438,10 +438,10 @@ size_t numLogIds = {count};
                     strlenToAdd += "(1 + wcslen(arg{0}))*sizeof(wchar_t);"\
                                         .format(argNum)
                 elif precision == '*':
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, arg{1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, arg{1}))*sizeof(wchar_t);"\
                                         .format(argNum,argNum - 1)
                 else:
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, {1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, {1}))*sizeof(wchar_t);"\
                                         .format(argNum, precision)
             else:
                 if not precision:
-- 
2.43.0


From 92a47f6cb472e3a1339d5c765337e016f566a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 27/32] fix: accept an empty format string in the preprocessor

---
 preprocessor/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index fc9f5ae..001aec1 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -528,7 +528,7 @@ def processFile(inputFile, mapOutputFilename):
                                 "#include-ing the NanoLog header!",
                                lines[lineIndex:lastLogStatementLine + 1])
 
-            if not fmtString:
+            if fmtString is None:
               raise ValueError("NANO_LOG statement expects a literal format "
                                "string for its second argument",
                                 lines[lineIndex:lastLogStatementLine + 1])
-- 
2.43.0


From 9817d6df6e8790a64acd4a66984b2d7458be1239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 28/32] fix: do not read wide strings through misaligned
 pointers in generated decompression functions

wcslen() on a pointer that is not aligned misses the terminator, which made the
aggregating decoder lose its place in the log.
---
 preprocessor/FunctionGenerator.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 61eba50..2ec4e4d 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -601,12 +601,23 @@ inline ssize_t
         for idx in stringArgsIdx:
             type = argList[idx]
 
-            strlenFn = "strlen" if not isWideString(type) else "wcslen"
+            if isWideString(type):
+                # The log does not align wide characters, so copy them out
+                readbackStringCode += \
+            """
+                std::wstring str{idx};
+                for (wchar_t c{idx}; std::memcpy(&c{idx}, *in, sizeof(wchar_t)),
+                                (*in) += sizeof(wchar_t), c{idx} != L'\\0';)
+                    str{idx} += c{idx};
+                {type} arg{idx} = str{idx}.c_str();
+            """.format(idx=idx, type=type)
+                continue
+
             readbackStringCode += \
             """
                 {type} arg{idx} = reinterpret_cast<{type}>(*in);
-                (*in) += ({strlenFn}(arg{idx}) + 1)*sizeof(*arg{idx}); // +1 for null terminator
-            """.format(idx=idx, type=type, strlenFn=strlenFn)
+                (*in) += (strlen(arg{idx}) + 1)*sizeof(*arg{idx}); // +1 for null terminator
+            """.format(idx=idx, type=type)
 
 
         decompressFnName = "decompressPrintArgs" + logId
-- 
2.43.0


From 5866e8aa044d5cb7d2cd81d69a59ea786d3c2fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 29/32] fix: generated code must not read a string argument
 beyond its precision

strlen() was used for a precision of 0, and the copy of a string with a precision
included the byte after it, which need not exist.
---
 preprocessor/FunctionGenerator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 2ec4e4d..c1c7e7a 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -416,6 +416,7 @@ size_t numLogIds = {count};
 
         # Create more usable strings for each list
         strlenDeclarations = []
+        stringCopyLen = {}
         argNum = 0
         for fmtSpecifier in fmtSpecifiers:
             precision = fmtSpecifier.precision
@@ -434,7 +435,7 @@ size_t numLogIds = {count};
 
             # The +1's below are for the NULL character
             if isWideString(fmtSpecifier.type):
-                if not precision:
+                if precision is None:
                     strlenToAdd += "(1 + wcslen(arg{0}))*sizeof(wchar_t);"\
                                         .format(argNum)
                 elif precision == '*':
@@ -444,7 +445,7 @@ size_t numLogIds = {count};
                     strlenToAdd += "(1 + wcsnlen(arg{0}, {1}))*sizeof(wchar_t);"\
                                         .format(argNum, precision)
             else:
-                if not precision:
+                if precision is None:
                     strlenToAdd += "1 + strlen(arg{0});".format(argNum)
                 elif precision == '*':
                     strlenToAdd += "1 + strnlen(arg{0}, arg{1});".format(argNum,
@@ -454,6 +455,11 @@ size_t numLogIds = {count};
                                                                      precision)
             strlenDeclarations.append(strlenToAdd)
 
+            # A string with a precision may not have a NULL character to copy
+            stringCopyLen[argNum] = "str{0}Len".format(argNum)
+            if precision is not None:
+                stringCopyLen[argNum] += " - sizeof(*arg{0})".format(argNum)
+
             argNum += 1
 
         # For these two partial sums, it must end in a '+' character. Also,
@@ -471,10 +477,10 @@ size_t numLogIds = {count};
         recordNonStringArgsCode = "".join(["\t%s(buffer, arg%d);\n" % \
                 (RECORD_PRIMITIVE_FN, idx) for idx in nonStringArgsIdx])
 
-        recordStringsArgsCode = ["memcpy(buffer, arg{0}, str{0}Len); "
+        recordStringsArgsCode = ["memcpy(buffer, arg{0}, {1}); "
                "buffer += str{0}Len;"
                "*(reinterpret_cast<std::remove_const<typename std::remove_pointer<decltype(arg{0})>::type>::type*>(buffer) - 1) = L'\\0';".format(
-                                               idx) for idx in stringArgsIdx]
+                              idx, stringCopyLen[idx]) for idx in stringArgsIdx]
 
         # Start Generating the record code
         recordCode = \
-- 
2.43.0


From 1e1b5791b9120f842c7780412846f03b9409636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:45 +0000
Subject: [PATCH 30/32] fix: ordered decompression keeps a thread's messages in
 order when their timestamps are equal

---
 runtime/Log.cc | 7 +++++++
 runtime/Log.h  | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 92f5107..52a73c7 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1166,6 +1166,7 @@ Log::Decoder::BufferFragment::BufferFragment()
     , hasMoreLogs(false)
     , nextLogId(-1)
     , nextLogTimestamp(0)
+    , readOrder(0)
     , wideStrings()
 {
 }
@@ -1798,6 +1799,11 @@ bool
 Log::Decoder::compareBufferFragments(const BufferFragment *a,
                                      const BufferFragment *b)
 {
+    // A thread's messages can be spread over several fragments; if they have
+    // the same timestamp, they have to be output in the order of the file.
+    if (a->getNextLogTimestamp() == b->getNextLogTimestamp())
+        return a->readOrder > b->readOrder;
+
     return a->getNextLogTimestamp() > b->getNextLogTimestamp();
 };
 
@@ -1852,6 +1858,7 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 {
                     BufferFragment *bf = allocateBufferFragment();
                     good = bf->readBufferExtent(inputFd, &newStage);
+                    bf->readOrder = numBufferFragmentsRead;
                     ++numBufferFragmentsRead;
 
                     if (good)
diff --git a/runtime/Log.h b/runtime/Log.h
index aaad58b..0ded01d 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -907,6 +907,11 @@ namespace Log {
             uint32_t nextLogId;
             uint64_t nextLogTimestamp;
 
+            // Position of this fragment in the log file relative to the other
+            // fragments. It decides which of two fragments comes first when
+            // their next log messages have the same timestamp.
+            uint64_t readOrder;
+
             // Aligned copies of the wide strings in the log message that was
             // last decompressed (in storage, they can start at any byte).
             std::vector<std::vector<wchar_t>> wideStrings;
-- 
2.43.0


From 35d1a755a3d5e9d1d00235c123726cdce24bb7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:29 +0000
Subject: [PATCH 31/32] verif hooks: NANOLOG_VERIF_FILE_PARAMS override (off by
 default)

---
 runtime/Config.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/Config.h b/runtime/Config.h
index c172e99..3b28718 100644
--- a/runtime/Config.h
+++ b/runtime/Config.h
@@ -25,7 +25,11 @@
 
 namespace NanoLogConfig {
     // Controls in what mode the compressed log file will be opened
+#ifdef NANOLOG_VERIF_FILE_PARAMS
+    static const int FILE_PARAMS = NANOLOG_VERIF_FILE_PARAMS;
+#else
     static const int FILE_PARAMS = O_APPEND|O_RDWR|O_CREAT|O_NOATIME|O_DSYNC;
+#endif
 
     // Location of the initial log file
     static const char DEFAULT_LOG_FILE[] = "./compressedLog";
-- 
2.43.0


From 0fb73abaed39a253614889f1b914323a497962b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 32/32] fix: pad the end of an output buffer, not its start,
 when direct IO is configured

---
 runtime/RuntimeLogger.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index d9aa5d6..6127ed6 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -622,7 +622,8 @@ RuntimeLogger::compressionThreadMain() {
             ssize_t bytesOver = bytesToWrite % 512;
 
             if (bytesOver != 0) {
-                memset(compressingBuffer, 0, 512 - bytesOver);
+                memset(compressingBuffer + bytesToWrite, 0,
+                       512 - bytesOver);
                 bytesToWrite = bytesToWrite + 512 - bytesOver;
                 padBytesWritten += (512 - bytesOver);
             }
-- 
2.43.0

