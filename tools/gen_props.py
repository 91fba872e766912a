import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    P.append(d)
HK="NANOLOG_VERIF_* size overrides in runtime/Config.h (small buffers so that wrap-around/full-buffer states are within reach)"
p("C01","Every log message is recovered exactly once, intact, in per-thread order",
 "For any number of threads logging concurrently with the background compressor, after the process ends normally the decompressed log contains every accepted message exactly once, with exactly the text and arguments it was logged with, attributed to its own call site. The messages of one thread appear in the order in which that thread logged them, and no message appears that was not logged.",
 ["schedules","histories","configurations"],"every interleaving of logging threads, background compressor and asynchronous disk completion, for every message mix that wraps or fills the staging and output buffers",
 "Unit tests stop the background thread and call single steps; the integration test samples one schedule with huge buffers, so wrap-around, full-buffer and in-flight-I/O interleavings are never reached.",
 ["runtime/RuntimeLogger.h","runtime/RuntimeLogger.cc","runtime/Log.cc","runtime/NanoLogCpp17.h"],
 [("per-thread single-producer/single-consumer staging ring","RuntimeLogger.h StagingBuffer; RuntimeLogger.cc reserveSpaceInternal/peek"),("double-buffered AIO output","RuntimeLogger.cc compressionThreadMain"),("consume only after encode","RuntimeLogger.cc compressionThreadMain, Log.cc encodeLogMsgs")],
 ["decompressed output of the log file"],
 [("producerPos/consumerPos/endOfRecordedSpace","ring positions shared without locks","RuntimeLogger.h StagingBuffer"),("threadBuffers/lastStagingBufferChecked","scan cursor over live buffers","RuntimeLogger.cc compressionThreadMain")],HK)
p("C02","sync() returns only after every earlier message is durable on disk",
 "When a call to sync() returns, every message whose logging call had completed before that sync() was invoked (in any thread) is in the log file on stable storage and is decodable from the bytes that are durable at that moment. This holds for concurrent sync() calls, for buffers in any state and for any timing of the asynchronous writes.",
 ["schedules","crash_points","histories"],"every interleaving of loggers, syncers, compressor and I/O completion; a crash at any instant after sync() returns",
 "Tests call sync() once in a quiet system and never look at what is durable at the return instant; the two-pass and waiting-on-I/O states depend on timing no test controls.",
 ["runtime/RuntimeLogger.cc","runtime/RuntimeLogger.h","runtime/Config.h"],
 [("sync state machine REQUESTED -> SECOND_PASS -> WAITING_ON_AIO -> COMPLETED","RuntimeLogger.cc sync(), compressionThreadMain"),("O_DSYNC output file","Config.h FILE_PARAMS")],
 ["bytes durable in the output file when sync() returns"],None,HK)
p("C03","Logging, sync, file switch and shutdown always make progress",
 "No reachable interleaving deadlocks or livelocks: a logging call blocked on a full buffer, any number of concurrent sync() calls, a log file switch and normal process exit all complete in finitely many steps under a fair scheduler, provided the disk completes its writes.",
 ["schedules","histories"],"every interleaving (fair continuation) of the operations incl. wake-ups that arrive before the wait, spurious wake-ups and timeouts",
 "A lost wake-up or a stuck state needs a specific interleaving; tests that happen to pass say nothing about the others, and the 1 microsecond polling hides most of them.",
 ["runtime/RuntimeLogger.cc"],[("condition variables workAdded/hintSyncCompleted with polling waits","RuntimeLogger.cc compressionThreadMain, sync()"),("output buffer full -> wait for AIO -> retry","RuntimeLogger.cc compressionThreadMain"),("producer spin on consumer position","RuntimeLogger.cc reserveSpaceInternal")],["termination of the operation"],None,HK)
p("C04","Normal process exit loses no message",
 "When a process ends by returning from main or calling exit(), all messages whose logging calls had completed before that (from live, exited and joined threads alike) are in the log file and decodable, even if sync() was never called. Shutdown itself terminates and touches no freed memory.",
 ["schedules","histories"],"every interleaving of exit with pending staging data, threads that just ended, and in-flight writes",
 "Tests call sync() explicitly before decoding; the static-destruction path is never driven under adverse schedules.",
 ["runtime/RuntimeLogger.cc"],[("destructor: sync, stop and join compressor, drain outstanding I/O","RuntimeLogger.cc ~RuntimeLogger, compressionThreadMain loop condition")],["decoded log file after process end"],None,HK)
p("C05","Switching the log file splits the log cleanly",
 "Messages logged before setLogFile() are in the old file and messages logged after it returns are in the new file (messages logged concurrently by other threads are in exactly one of them), each exactly once, and both files decode on their own, also when files are switched repeatedly, back to an earlier file, or with pending data or writes in flight. A failing setLogFile() throws and leaves logging to the current file unaffected.",
 ["schedules","histories","fault_sequences"],"every sequence of log/switch/sync/failing-switch operations and every interleaving with the compressor and concurrent loggers",
 "One test switches once in a quiet state; sequences with call sites first used before or after the switch, re-opened files and failing opens are not covered.",
 ["runtime/RuntimeLogger.cc","runtime/Log.cc"],[("sync + stop/join compressor + reopen + dictionary reset","RuntimeLogger.cc setLogFile_internal")],["decoded contents of each log file","exception from setLogFile"],None,HK)
p("C06","Thread exit: buffered messages survive, buffers are reclaimed safely",
 "Messages a thread logged just before it ended are never lost, its buffer is released only after it has been fully drained and never while it can still be used, and it does get released, so that memory stays bounded while threads come and go. Messages of different threads never carry the same thread identifier within one execution.",
 ["schedules","histories"],"every interleaving of thread creation, logging, thread exit and compressor scan passes, with buffers dying in every position of the scan",
 "One test kills one thread in a quiet system; removal during a scan with other buffers pending depends on index arithmetic and timing.",
 ["runtime/RuntimeLogger.h","runtime/RuntimeLogger.cc"],[("thread_local destroyer marks buffer; compressor deletes when drained","RuntimeLogger.h StagingBufferDestroyer, checkCanDelete; RuntimeLogger.cc compressionThreadMain"),("unique buffer ids","RuntimeLogger.h ensureStagingBufferAllocated")],["decoded log; heap use after free; live buffer count"],None,HK)
p("C07","Call sites get one unique identity and are never mixed up",
 "However many threads execute a call site for the first time at the same moment, the site gets exactly one identity, different sites get different ones, and every message is decoded with the file name, line, severity and format string of its own call site. The description of a call site always precedes its first message in the file, also when it does not fit in the current output buffer.",
 ["schedules","histories","configurations"],"every interleaving of concurrent first executions of call sites with the compressor, and every way dictionary data falls on output buffer boundaries",
 "Tests register from one thread; the race between first-time registration and compression is timing dependent.",
 ["runtime/RuntimeLogger.h","runtime/RuntimeLogger.cc","runtime/Log.cc","runtime/NanoLogCpp17.h"],[("registration under mutex with re-check","RuntimeLogger.h registerInvocationSite_internal"),("incremental dictionary fragments and shadow copy","RuntimeLogger.cc compressionThreadMain; Log.cc encodeNewDictionaryEntries")],["file:line, level and text of decoded messages"],None,HK)
p("C08","Decoded text equals printf output (C++17 NANO_LOG)",
 "For every format string and matching arguments accepted by NANO_LOG, the decoded message text is byte-for-byte what printf would have produced for the same format string and arguments at the time of the call. This includes all flags, widths, precisions (static or passed as arguments, also negative), length modifiers, strings, wide strings, pointers, literal percent signs and backslashes, and any number and mix of arguments.",
 ["inputs","programs"],"all format specifications of the printf grammar x boundary argument values, and all short combinations of specifications",
 "Tests sample a few dozen hand-picked formats; the product of flags, width, precision, length and conversion and its combinations is never enumerated.",
 ["runtime/NanoLogCpp17.h","runtime/Log.cc","runtime/Packer.h"],[("compile-time format analysis","NanoLogCpp17.h getParamInfo/analyzeFormatString/getNumNibblesNeeded"),("argument store and two-pass compression","NanoLogCpp17.h store_arguments/compress"),("decoder micro code and printing","Log.cc createMicroCode, decompressNextLogStatement")],["decoded message text"])
p("C09","A log call captures its arguments by value and reads only what printf reads",
 "A logging call records argument values (including string contents) as of the call: changing or freeing them afterwards never changes the log. It reads no byte of a string argument that printf would not read (in particular nothing beyond a given precision), stores no byte outside the space it reserved, and does not modify its arguments.",
 ["inputs","programs"],"all string lengths x static/dynamic precisions x narrow/wide strings x argument positions, at memory-protection granularity",
 "Tests use terminated strings in ordinary memory, so over-reads and late reads are invisible.",
 ["runtime/NanoLogCpp17.h"],[("argument sizing and copy","NanoLogCpp17.h getArgSize, store_argument, log")],["page faults on guard pages; decoded text"])
p("C10","Argument compaction is lossless for every value of every type",
 "For every supported argument type and every value of it, encoding followed by decoding returns the identical value (bit-identical for floating point), consumes exactly the bytes produced, and never produces more than the documented maximum. This holds for any sequence of values packed together.",
 ["inputs"],"all values of 8, 16 and 32 bit types, all boundary neighbourhoods of 64 bit, pointer and floating types; all short sequences of representative values",
 "Tests check a handful of values per type.",
 ["runtime/Packer.h"],[("pack/unpack and Nibbler","Packer.h")],["unpacked value, bytes consumed"])
p("C11","Finite output buffers never corrupt, drop or overrun",
 "For every output buffer size and every sequence of messages and call-site descriptions, encoding into that buffer never writes beyond its end, reports exactly how much input it consumed, and what it produced, concatenated over buffer swaps, decodes to exactly the consumed messages. Input that does not fit is left for the next buffer and is never half-written.",
 ["inputs","configurations","histories"],"all buffer sizes from the minimum up to past the largest message, x message mixes, x chunk boundaries, x swap points",
 "Tests use a few fixed buffer sizes.",
 ["runtime/Log.cc","runtime/Log.h"],[("space checks in encoder","Log.cc encodeLogMsgs, encodeBufferExtentStart, encodeNewDictionaryEntries, insertCheckpoint"),("swapBuffer","Log.cc")],["encoded bytes, return values, decoded messages"])
p("C12","Ordered decompression is complete and chronological",
 "Ordered decompression outputs every message of the log exactly once, keeps each thread's messages in order, and outputs messages in chronological order whenever the out-of-order distance in the file is within what the runtime produces (a message lands at most two passes after the pass in which later-stamped messages of other threads were written). Executions appended to one file are output one after the other, never interleaved.",
 ["histories","inputs"],"all arrangements of messages over buffer extents, threads, passes and executions up to a bound, including empty extents and equal timestamps across threads",
 "Tests check three hand-made arrangements.",
 ["runtime/Log.cc"],[("three-stage buffered merge","Log.cc decompressTo, compareBufferFragments")],["order of decompressor output"])
p("C13","A log cut off at any byte decodes to an exact prefix",
 "If the log file ends at any byte position (process or machine crash during a write), decoding terminates without crashing or hanging and returns exactly the messages of the buffer extents that are completely present, in the same form as decoding the whole file, and nothing else. Everything after the header of the first execution may be cut.",
 ["crash_points"],"every byte-prefix of log files produced by the real runtime, in every decoding mode",
 "Tests corrupt one header; no test truncates at every position.",
 ["runtime/Log.cc"],[("short-read checks","Log.cc readBufferExtent, readDictionary, readDictionaryFragment, decompressTo")],["decoder output and exit status"])
p("C14","Appending executions to one file preserves and separates them",
 "Starting a new execution (or re-selecting a file) on an existing log file leaves every existing byte unchanged and appends a self-contained log; decoding the file returns the messages of all executions in order, each decoded with the call-site descriptions and clock calibration of its own execution, even if the executions come from programs with different log statements.",
 ["histories","programs"],"all sequences of executions from a small set of programs, appended to one file, in every decoding mode",
 "The integration test appends the same program twice; differing dictionaries and reopened decoders are not covered.",
 ["runtime/Log.cc","runtime/RuntimeLogger.cc","runtime/Config.h"],[("append-mode output","Config.h FILE_PARAMS"),("checkpoint resets dictionary","Log.cc readDictionary, Encoder constructor")],["decoded text; bytes of the existing file"])
p("C15","Severity filtering is exact",
 "A message is recorded if and only if its severity is at least as severe as the level in force when its call executes; setting a level outside the valid range selects the nearest valid one, and getLogLevel() returns the level in force. The arguments of a recorded message are evaluated exactly once (with the C++17 macro those of a filtered message are not evaluated at all), and the decoded message shows the call's severity.",
 ["inputs","histories"],"all sequences of set-level (including out-of-range values) and log operations of every severity up to a bound",
 "Tests check two or three level/severity pairs.",
 ["runtime/NanoLogCpp17.h","runtime/RuntimeLogger.cc","runtime/NanoLog.h","preprocessor/FunctionGenerator.py"],[("level comparison in macro and generated code","NanoLogCpp17.h NANO_LOG; FunctionGenerator.py"),("clamping","RuntimeLogger.cc setLogLevel")],["decoded messages; argument side effects"])
p("C16","All decoding interfaces agree and decoders are reusable",
 "For any log file, iterating message by message, unordered decompression, ordered decompression and aggregation deliver the same set of messages with the same arguments; counts reported equal the number of messages delivered; typed argument access returns the logged values. A decoder that is re-opened on another file (after reading any part of the first) behaves like a fresh one.",
 ["histories","inputs"],"all sequences of open/next/decompress operations up to a bound on a set of log files with differing content",
 "Tests use each interface once on a fresh decoder.",
 ["runtime/Log.cc","runtime/Log.h","runtime/LogDecompressor.cc"],[("Decoder open/getNextLogStatement/decompressTo/decompressUnordered","Log.cc"),("LogMessage argument storage","Log.h")],["decoder outputs and return values"])
p("C17","The preprocessor rewrites exactly the log statements and nothing else",
 "Every well-formed NANO_LOG statement with a literal format string, however it is laid out and whatever surrounds it, is accepted, found with its exact severity, format string, arguments and source location, and replaced by a call with the same arguments; the meaning of everything else (strings, other code, line numbering) is preserved. Text that only looks like a log statement (in strings, raw strings, comments, longer identifiers) is left alone. A statement that cannot be handled (no literal format, unsupported conversion, missing semicolon or header) is rejected with an error, never silently dropped.",
 ["programs","inputs"],"all statement layouts built from a grammar of separators, nested parentheses, literals with special characters, comments, concatenated literals, line breaks and neighbouring code, up to a bound",
 "Tests sample hand-written layouts.",
 ["preprocessor/parser.py"],[("character-level parser","parser.py parseLogStatement, parseArgumentStartingAt, extractCString, processFile")],["behaviour of the rewritten program, generated metadata"])
p("C18","Preprocessor-generated code reproduces printf output",
 "For every format string accepted by the preprocessor and matching arguments, the decoded message is what printf would have produced, via the embedded dictionary and via the generated decompression functions alike, with the file, line and severity of the statement. Statements from several translation units are combined without mixing them up.",
 ["programs","inputs"],"all format specifications the preprocessor accepts x boundary values, and all short combinations; all combinations of statements over translation units",
 "Tests compare generated text for a few formats; compiled behaviour is sampled by one integration program.",
 ["preprocessor/FunctionGenerator.py","preprocessor/parser.py","runtime/Log.cc"],[("record/compress/decompress function generation","FunctionGenerator.py generateLogFunctions, outputCompilationFiles"),("generated dictionary","FunctionGenerator.py; GeneratedCode.h writeDictionary")],["decoded text"])
p("C19","Decoded timestamps are the wall-clock time of the call",
 "The printed time of a message is the wall-clock time of its call as implied by the clock calibration stored in the log: correct seconds, nine-digit fraction between 000000000 and 999999999, also for calls that happened before the calibration point, and monotone in the recorded time stamp within one execution. Recorded time stamps survive compression exactly, in any order.",
 ["inputs"],"all time stamp offsets around every boundary (sub-second, carry, negative, day, large) x clock frequencies; all sequences of deltas with every encoded size",
 "Tests check three fixed time stamps.",
 ["runtime/Log.cc","runtime/Log.h","runtime/Cycles.cc"],[("checkpoint-relative conversion","Log.cc decompressNextLogStatement"),("delta encoding","Log.h compressLogHeader/decompressLogHeader")],["printed time"])
p("C20","The staging queue delivers exactly the committed bytes in order",
 "Between one producer and one consumer, the staging queue delivers exactly the bytes committed, in order, each exactly once, for every sequence of reservation sizes, partial consumption and timing; a reservation is contiguous, lies inside the queue, and never overlaps bytes not yet consumed. A reservation that fits an empty queue eventually succeeds once the consumer drains it.",
 ["schedules","histories","configurations"],"all sequences of reserve/commit/peek/consume operations with all sizes for small capacities, and all interleavings of the individual memory accesses of producer and consumer",
 "Tests exercise one hand-picked wrap-around.",
 ["runtime/RuntimeLogger.h","runtime/RuntimeLogger.cc"],[("position checks that keep full and empty distinguishable","RuntimeLogger.cc reserveSpaceInternal, peek; RuntimeLogger.h finishReservation, consume")],["bytes delivered to the consumer"],None,HK)
p("C21","Time traces report the most recent events in time order",
 "The time trace reports the retained events of all threads (of each thread, at least its most recent ones up to the capacity less one slot per boundary), starting no earlier than every thread's retained history, each with its own message, arguments and relative time, in chronological order. Events completely recorded before printing starts are reported exactly even while other threads keep recording, recording never blocks, and recording works again once printing is over.",
 ["schedules","histories"],"all sequences of record/print/reset operations around the wrap-around point, and all interleavings of a recording thread with a printing thread",
 "No unit tests exist for the time trace module.",
 ["runtime/TimeTrace.cc","runtime/TimeTrace.h"],[("per-thread circular buffers, merge by time stamp, reader count","TimeTrace.cc printInternal, TimeTrace.h")],["returned trace text"])
with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
