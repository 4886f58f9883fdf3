import json, jsonschema, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T4="The four reliable tests exercise only the two-byte Bigram class of the bench tools; the transfer engine is not even compiled by them. "

p("C01","A transfer reported successful delivered an identical directory tree",
"When both ends of a transfer report success, every selected source file exists under the receiving directory at the same relative path with exactly the same length and bytes, and nothing else was created there. This holds for every mix of file sizes and names, number of ports, block size, buffer size, encryption, checksum, footer, direct-I/O, preallocation and disk-type settings. An undisturbed transfer of readable files does report success at both ends and terminates.",
["inputs","configurations","schedules"],"all source trees, option combinations and thread interleavings of sender and receiver",
T4+"The repository's own e2e scripts sample a few fixed configurations and one directory.",
["Sender.cpp","SenderThread.cpp","Receiver.cpp","ReceiverThread.cpp","util/FileWriter.cpp","util/FileCreator.cpp","util/DirectorySourceQueue.cpp","util/FileByteSource.cpp"],
[("block transfer loop","SenderThread.cpp SenderThread::sendOneByteSource"),("positioned writes of received blocks","ReceiverThread.cpp ReceiverThread::processFileCmd, util/FileWriter.cpp"),("end-of-transfer accounting","Receiver.cpp Receiver::finish, Sender.cpp Sender::finish")],
["destination directory after both sides finished","ErrorCode of both transfer reports"])

p("C02","Connection failures never turn into silently missing or wrong data",
"When any connections between the two ends are cut, reset, stalled or refused at any byte positions, in either direction, any number of times, then either the transfer still completes with an identical tree, or at least the affected side reports an error. A report of success by the sender or by the receiver is never accompanied by a missing, short or different file. With a surviving port and no further faults the transfer recovers and succeeds.",
["fault_sequences","schedules","inputs"],"all sequences of connection faults (position, direction, kind, port) over all transfers",
T4+"Cut positions relative to block, footer, checkpoint and DONE messages are a huge space no fixed test enumerates.",
["SenderThread.cpp","ReceiverThread.cpp","util/ThreadTransferHistory.cpp","util/ThreadsController.cpp","Protocol.cpp"],
[("per-thread history and checkpoint based retransmission","util/ThreadTransferHistory.cpp"),("local/global checkpoints","ReceiverThread.cpp ReceiverThread::sendLocalCheckpoint/sendGlobalCheckpoint"),("sender state machine","SenderThread.cpp"),("receiver state machine","ReceiverThread.cpp")],
["bytes relayed by a fault-injecting relay","destination tree","both reports"])

p("C03","Corrupted bytes on the wire are never accepted as file content",
"With authenticated encryption and any bits of the sender's stream flipped, dropped or repeated (headers, block data, footers, tags), or with block checksums and the same damage done to block data or footers, no block with damaged data is counted as received: the transfer either repairs itself by retransmission and ends with identical files, or an error is reported. Neither end reports success over a differing tree. Without damage no checksum or authentication error is ever raised.",
["fault_sequences","inputs","configurations"],"all corruptions of the byte stream at all positions and all data, checksum and encryption settings",
T4+"Detection must hold for each byte position of the stream and each message kind.",
["ReceiverThread.cpp","SenderThread.cpp","util/WdtSocket.cpp","util/EncryptionUtils.cpp","Protocol.cpp"],
[("crc32c per block checked in the footer","ReceiverThread.cpp ReceiverThread::processFileCmd"),("GCM tags verified before a block counts","util/WdtSocket.cpp, util/ThreadTransferHistory.cpp markVerified/markNotVerified and ReceiverThread.cpp markBlockVerified"),("footer encoding","Protocol.cpp encodeFooter/decodeFooter")],
["relay events","destination tree","receiver report"])

p("C04","Encryption round-trips, authenticates and never repeats an IV",
"Bytes encrypted with a key and decrypted with the same key, settings and order come back unchanged for every split into calls, in-place or not, every cipher mode, every tag interval and every IV renewal; a wrong key, IV, tag or modified ciphertext of an authenticated mode is reported. No two encryption sessions or IV renewals use the same IV, ciphertext carries no plaintext of the file data or its names, and key text round-trips through its printable form.",
["inputs","histories","configurations"],"all keys, plaintexts, chunkings, tag intervals and IV-change schedules",
T4+"The stream state (partial blocks, tag positions, IV change) depends on the call history.",
["util/EncryptionUtils.cpp","util/EncryptionUtils.h","util/WdtSocket.cpp"],
[("AES encryptor/decryptor","util/EncryptionUtils.cpp AESEncryptor/AESDecryptor"),("in-stream tags and IV changes","util/WdtSocket.cpp encryptAndWrite/readAndDecrypt/computeCurTagAndResetEncryptor"),("key and settings text form","util/EncryptionUtils.cpp EncryptionParams")],
["bytes captured on the wire","return values of encrypt/decrypt/finish"])

p("C05","Secrets never reach logs, URLs meant for logs, or the wire",
"The encryption secret of a transfer never appears in any log message, any log-safe rendering of a request or URL, or in clear in the bytes exchanged; it appears only in the URL deliberately printed for the peer. This holds for success, error and protocol-mismatch paths and at every verbosity level.",
["inputs","configurations","fault_sequences"],"all requests with secrets, log levels, and successful or failing transfers",
T4+"Absence from every log line on every path can only be observed over many executions.",
["WdtTransferRequest.cpp","Receiver.cpp","Sender.cpp","wdtCmdLine.cpp","util/EncryptionUtils.cpp","util/WdtSocket.cpp"],
[("log-safe string","WdtTransferRequest.cpp getLogSafeString/genWdtUrl*"),("EncryptionParams log-safe form","util/EncryptionUtils.cpp EncryptionParams::getLogSafeString")],
["stderr log of all processes","stdout URL","wire capture"])

p("C06","A resumed transfer is complete and trusts only data really on disk",
"With a transfer log, after the receiver or the sender is killed or the connection is lost at any point, any number of times, running the transfer again into the same directory ends with an identical tree. Data is treated as already received only if the file content on disk matches it: blocks are recorded only after their bytes were written and synced. Blocks recorded as received are not sent again by the next run.",
["crash_points","histories","schedules"],"all crash points of either process, all numbers of interrupted runs, all file trees",
T4+"No test kills a process; crash points are system-call positions of a multi-threaded receiver.",
["util/TransferLogManager.cpp","util/FileWriter.cpp","ReceiverThread.cpp","Receiver.cpp","util/DirectorySourceQueue.cpp","util/FileCreator.cpp"],
[("sync before the block record","util/FileWriter.cpp FileWriter::sync and ReceiverThread.cpp"),("log writing thread and parser","util/TransferLogManager.cpp"),("remaining-chunk computation","util/DirectorySourceQueue.cpp, WdtBase/Protocol FileChunksInfo")],
["system calls of the receiver (writes, syncs, log writes) recorded by an interposer","destination tree after each run","bytes sent in the resuming run"])

p("C07","Parsing a transfer log is safe and never claims data that is not there",
"For every byte content of a transfer log (truncated, corrupted, reordered, from another version or host) and every state of the directory, reading it back neither crashes nor corrupts memory. A log that is well formed yields exactly the chunks that its valid entries for the current session describe, and no chunk extending beyond a file's size on disk; a truncated last record is discarded and appending continues correctly; a corrupted, mismatching or inconsistent log makes resumption start over instead of trusting it. Compacting a log does not change what it describes.",
["inputs","histories","crash_points"],"all log contents and histories of writing, invalidating, compacting and re-reading",
T4+"The log's meaning depends on arbitrarily long histories of records.",
["util/TransferLogManager.cpp","util/TransferLogManager.h"],
[("record encoder/decoder","util/TransferLogManager.cpp LogEncoderDecoder"),("parser","util/TransferLogManager.cpp LogParser::parseLog"),("compaction","util/TransferLogManager.cpp TransferLogManager::compactLog")],
["parsed file chunk list compared with an independent model of the log format"])

p("C08","Directory discovery finds exactly the selected files",
"The set of files offered for transfer is exactly the regular files (and symlinked ones when following links is on) beneath the source directory that pass the include, exclude and prune patterns, or exactly those of an explicitly given list, each once with its true size and path relative to the root. Unreadable files or directories are reported as failed sources instead of being dropped silently. Symlink cycles, deep trees, odd names and files changing while being read never cause a crash, an endless walk, or a success report with wrong content.",
["inputs","configurations"],"all directory trees, name bytes, pattern combinations, symlinks and permissions",
T4+"Trees and patterns are unbounded.",
["util/DirectorySourceQueue.cpp","util/DirectorySourceQueue.h"],
[("breadth first traversal with pattern filters","util/DirectorySourceQueue.cpp explore"),("explicit file list","util/DirectorySourceQueue.cpp enqueueFiles")],
["names, sizes and offsets taken from the queue","failed source lists"])

p("C09","Blocks partition each file and each is dispensed exactly once",
"The blocks dispensed for a file are disjoint, cover every byte of it exactly once (or exactly the bytes not received before), respect the configured block size, and an empty file yields one empty block. With any number of threads taking blocks and giving failed ones back, each block is handed out once plus once per return, none is lost or duplicated, retries stop at the configured limit, and the queue reports finished exactly when all are consumed. Blocks in the queue are taken retried-least first, then largest, in the documented order.",
["schedules","inputs","histories"],"all interleavings of consuming and returning threads, all file sizes, block sizes and resumption states",
T4+"Needs many interleavings of concurrent consumers with failures.",
["util/DirectorySourceQueue.cpp","util/DirectorySourceQueue.h","Protocol.h"],
[("block creation","util/DirectorySourceQueue.cpp createIntoQueue"),("priority queue and returnToQueue","util/DirectorySourceQueue.cpp getNextSource/returnToQueue"),("remaining chunks","Protocol.cpp/ util FileChunksInfo getRemainingChunks")],
["sequence of dispensed (file, offset, size) tuples per thread"])

p("C10","Protocol messages decode to what was encoded, for every version",
"Every protocol message (file header, settings, done, checkpoints, size, abort, footer, chunk list, encryption setup) encoded for any protocol version both sides support decodes to the same values that version carries, consuming exactly the bytes produced, and encoders never write beyond the given buffer. Variable-length integers round-trip over their whole range, and version negotiation picks the highest version both ends support or refuses.",
["inputs","configurations"],"all field values and all protocol versions",
T4+"The value and version space is too large for examples.",
["Protocol.cpp","Protocol.h","util/SerializationUtil.cpp"],
[("message codecs","Protocol.cpp"),("integer and string codecs","util/SerializationUtil.cpp"),("negotiation","Protocol.cpp negotiateProtocol")],
["decoded values, offsets"])

p("C11","Decoding arbitrary bytes is memory safe and never over-reads",
"For every byte string and every version, decoding a protocol message, integer, string, log record, encryption setting, URL or chunk list either succeeds having read only bytes inside the given limits and with values within their documented ranges, or reports failure. It never reads out of bounds, aborts, overflows, or loops without end.",
["inputs"],"all byte strings and limits",
T4+"Only hostile inputs under sanitizers reach this.",
["Protocol.cpp","util/SerializationUtil.cpp","util/TransferLogManager.cpp","WdtTransferRequest.cpp","util/EncryptionUtils.cpp"],
[("checked decoders","util/SerializationUtil.cpp"),("message decoders","Protocol.cpp"),("URI parser","WdtTransferRequest.cpp WdtUri::process")],
["sanitizer reports","decoder offsets against the limit"])

p("C12","A hostile or broken sender cannot crash or corrupt the receiver",
"Whatever bytes peers send to a listening receiver, in whatever message order and however split, the receiver neither aborts nor corrupts memory and ends with a reported outcome once its timeouts pass or it is told to stop. A peer that never presented the right transfer identifier, or announced encryption without having the right key, writes no data and does not make the receiver report success. A legitimate sender still completes its transfer, both ends reporting success, when unauthorized peers interfered on some of the ports while at least one port was left alone.",
["inputs","fault_sequences","schedules"],"all byte streams and connection patterns from peers",
T4+"Hostile message sequences against a live multi-threaded receiver are outside any test.",
["ReceiverThread.cpp","Receiver.cpp","Protocol.cpp","util/WdtSocket.cpp","util/ServerSocket.cpp"],
[("settings and transfer-id check","ReceiverThread.cpp ReceiverThread::processSettingsCmd"),("header length checks","ReceiverThread.cpp ReceiverThread::processFileCmd")],
["receiver process outcome, sanitizer reports, directory content"])

p("C13","A hostile or broken receiver cannot crash or corrupt the sender",
"Whatever bytes a peer answers to a sender, in any order and split, the sender neither aborts nor corrupts memory, terminates with a reported outcome, and never reports success unless the peer's answers acknowledged the whole transfer. Checkpoints and chunk lists with impossible values are refused as protocol errors.",
["inputs","fault_sequences"],"all byte streams from the peer",
T4+"Hostile replies against a live sender are outside any test.",
["SenderThread.cpp","Sender.cpp","Protocol.cpp","util/ThreadTransferHistory.cpp"],
[("reply decoding","SenderThread.cpp readNextReceiverCmd/readFileChunks/readAndVerifySpuriousCheckpoint/processErrCmd"),("checkpoint validation","util/ThreadTransferHistory.cpp setCheckpointAndReturnToQueue")],
["sender process outcome, sanitizer reports, sender report"])

p("C14","The receiver touches nothing outside its destination directory",
"Whatever file names a peer sends, including names with parent components, absolute paths, empty components or deletion requests, every file or directory created, written, truncated or deleted by the receiver lies inside its destination directory. Acceptable names produce the file at exactly that relative path, creating missing parents; a name that cannot be accepted fails that block with a reported error, not the process.",
["inputs","schedules"],"all relative names, file operations and concurrent directory creation",
T4+"Path handling is not exercised at all.",
["util/FileCreator.cpp","ReceiverThread.cpp","util/FileWriter.cpp"],
[("path composition and directory creation","util/FileCreator.cpp getFullPath/createFile/createDirRecursively"),("deletion of extra files","util/FileWriter.cpp / ReceiverThread.cpp TO_BE_DELETED")],
["file system outside and inside the destination before and after"])

p("C15","Existing destination files follow the overwrite policy",
"When overwriting is off and resumption is off, an existing destination file is never modified and its transfer is reported as failed; when it is on, the file ends up with exactly the source's content and length, also if it was longer or shorter before. With skipping of writes enabled nothing is created in the destination. Each file is created and sized once however many threads receive its blocks.",
["configurations","inputs","schedules"],"all destination states, overwrite/resume/preallocation settings and block interleavings",
T4+"Depends on destination state and concurrency of block arrival.",
["util/FileCreator.cpp","util/FileWriter.cpp","Receiver.cpp"],
[("allocation once per file","util/FileCreator.cpp openForBlocks/openForFirstBlock/openExistingFile"),("O_TRUNC/O_EXCL choice","util/FileCreator.cpp createFile")],
["destination files before and after","reports"])

p("C16","Deleting extra files removes exactly the files absent from the source",
"In a resuming transfer whose both ends ask for deletion of extra files, those files the destination offers (all of them when it resumes from its directory tree, those listed in its log otherwise) that the source does not have are gone when both ends report success, and no other file ever is: files that exist in the source, files that could not be discovered there (unreadable directories or files, a transfer aborted during discovery), files the log does not list and the transfer's own log survive. A receiver that was not asked to delete removes nothing, whatever the sender asks.",
["inputs","configurations","fault_sequences"],"all pairs of source and destination trees and read failures",
T4+"Needs pairs of trees and failures.",
["util/DirectorySourceQueue.cpp","ReceiverThread.cpp","util/FileWriter.cpp","Receiver.cpp"],
[("enqueueing deletions","util/DirectorySourceQueue.cpp enqueueFilesToBeDeleted"),("deletion","util/FileCreator.cpp / ReceiverThread.cpp")],
["destination tree before and after"])

p("C17","Transfer requests survive the trip through their URL",
"A transfer request rendered to a connection URL and parsed back is equal to the original: host (name, IPv4, IPv6), ports, transfer id, protocol version, encryption, directory when included, for every byte value in its strings. Malformed URLs are reported as such rather than accepted with altered values, and parsing never crashes or takes unbounded memory.",
["inputs"],"all requests and all URL strings",
T4+"The string space is unbounded.",
["WdtTransferRequest.cpp","WdtTransferRequest.h"],
[("URI generation and escaping","WdtTransferRequest.cpp WdtUri::generateUrl/escape"),("URI parsing","WdtTransferRequest.cpp WdtUri::process/unescape"),("request construction","WdtTransferRequest.cpp WdtTransferRequest")],
["parsed request fields"])

p("C18","Throttled threads together never exceed the configured rates",
"For every history of progress reports by any number of threads sharing a limiter, with any average rate, peak rate, bucket size and request-size limit, the sleeps it demands keep the total progress within average rate times elapsed time, and within bucket size plus peak rate times elapsed time over any interval (plus at most two requests per thread and one more). It never demands a sleep while consumption is below both limits, never a negative or unbounded one, and rates changed at run time take effect.",
["histories","schedules","configurations"],"all histories of (bytes, time) per thread and all limiter configurations",
T4+"Rate bounds are properties of long histories.",
["Throttler.cpp","Throttler.h"],
[("average rate pacing","Throttler.cpp averageThrottler"),("token bucket","Throttler.cpp calculateSleep"),("request splitting","Throttler.cpp limitInternal")],
["returned sleep values under virtual time","measured progress under real time"])

p("C19","Transfer quotas and registrations stay exact under concurrency",
"For every history of concurrent creation, release, lookup and shutdown of senders and receivers in namespaces, no more objects are live than the global and per-namespace limits allow, a second object for a live identifier is refused, a released one can be created again, and counts return to zero when everything is released. Objects obtained by lookup stay usable until released, operations on unknown namespaces are refused in strict mode, and shutdown never aborts or leaks.",
["schedules","histories","configurations"],"all interleavings of API calls and limits",
T4+"Counting races appear only under concurrency.",
["WdtResourceController.cpp","WdtResourceController.h","Wdt.cpp"],
[("namespace and global counters","WdtResourceController.cpp createSender/createReceiver/releaseSender/deRegisterWdtNamespace")],
["recorded call/return histories checked against a sequential model"])

p("C20","Thread barriers and once-only sections synchronize as promised",
"For every interleaving of a transfer's threads, including threads that drop out early, no thread passes a barrier before all still-registered threads reached it, exactly one thread runs each first-thread, last-thread or start/end section, waiting threads are all released with the same outcome, and thread-state queries agree with the states threads reported.",
["schedules"],"all interleavings of registering, de-registering, waiting and executing threads",
T4+"Interleavings are the quantifier.",
["util/ThreadsController.cpp","util/ThreadsController.h"],
[("barrier","util/ThreadsController.cpp Barrier"),("funnel","util/ThreadsController.cpp FunnelExecutor"),("once sections","util/ThreadsController.h executeAtStart/executeAtEnd")],
["event log of arrivals, releases and executions"])

p("C21","Transfer reports account for every byte, block and file",
"Reports are conserved: bytes and blocks reported sent or received equal those really exchanged, files listed as sent or failed partition the offered files, totals equal the sum over threads and match what the peer counted when a transfer succeeds. A file reported as transferred has every byte delivered, one with a failed block is listed as failed, and a sender report of success implies nothing failed.",
["inputs","fault_sequences","configurations"],"all transfers, with and without faults",
T4+"Needs independent counting on the wire and on disk over many executions.",
["Reporting.cpp","Reporting.h","Sender.cpp","Receiver.cpp","util/ThreadTransferHistory.cpp"],
[("per thread statistics","Reporting.h TransferStats"),("aggregation","Reporting.cpp TransferReport"),("validation","Sender.cpp validateTransferStats")],
["report fields vs relay byte counts and file lists"])

p("C22","Abort and timeouts end a transfer promptly without leaking anything",
"When a transfer is aborted at any moment, or its peer never appears, disappears or stalls, both ends finish within the configured timeouts plus a bounded slack with a non-success outcome (unless everything was already acknowledged), and afterwards no thread, file descriptor, port or lock of it remains. A receiver waits for its sender as long as configured, and a new transfer can start immediately in the same process on the same ports and directory.",
["schedules","fault_sequences","configurations"],"all moments of abort and peer loss",
T4+"Timing of aborts relative to protocol states is unbounded.",
["WdtBase.cpp","Sender.cpp","Receiver.cpp","SenderThread.cpp","ReceiverThread.cpp","util/WdtSocket.cpp","util/ClientSocket.cpp","util/ServerSocket.cpp"],
[("abort flag polled in I/O loops","util/WdtSocket.cpp readInternal/writeInternal"),("timeouts","ReceiverThread.cpp acceptWithTimeout, SenderThread.cpp")],
["wall clock with generous slack","/proc/self/fd and thread count before and after"])

p("C23","No data races or lock errors in the transfer engine",
"For every schedule of the threads of concurrent transfers, including progress reporting, throttling changes, aborts, resumption logging and reconnects, no two threads access the same memory location without ordering when one writes, no lock is misused, and no object is used after it was destroyed.",
["schedules"],"all thread schedules of all transfers",
T4+"Single-threaded tests cannot race.",
["Sender.cpp","Receiver.cpp","SenderThread.cpp","ReceiverThread.cpp","Throttler.cpp","util/ThreadsController.cpp","util/DirectorySourceQueue.cpp","util/FileCreator.cpp","util/TransferLogManager.cpp","WdtResourceController.cpp","Reporting.cpp"],
[("mutexes, guards and atomics throughout","WdtBase.cpp, util/ThreadsController.h ConditionGuardImpl")],
["ThreadSanitizer reports over stress workloads"])

p("C24","Different supported protocol versions interoperate",
"A sender and a receiver using any two supported protocol versions either complete the transfer with identical files at the lower version, or both report a version error and leave no partial success; features the agreed version lacks are switched off on both sides alike.",
["configurations","inputs"],"all pairs of protocol versions and option sets",
T4+"Version pairs times options are not exercised.",
["SenderThread.cpp","ReceiverThread.cpp","Protocol.cpp","Protocol.h","WdtBase.cpp"],
[("version mismatch handling","SenderThread.cpp processVersionMismatch"),("negotiation","Protocol.cpp negotiateProtocol"),("version-gated features","Protocol.h constants")],
["destination tree and reports"])

p("C25","Statistics summaries are exact",
"For every sequence of recorded values the counters and histograms report the exact count, minimum, maximum, average and standard deviation, histogram buckets count each value once in the bucket covering it, percentiles lie within the bucket that contains that rank, and merging two summaries gives the same as recording all values in one. The same holds for the performance reports merged over threads.",
["inputs","histories"],"all sequences of values, offsets, dividers and merges",
T4+"Value space is unbounded.",
["util/Stats.cpp","util/Stats.h","Reporting.cpp"],
[("counter","util/Stats.h Counter"),("bucket lookup table and percentile","util/Stats.cpp Histogram"),("merge","util/Stats.cpp merge"),("performance report","Reporting.cpp PerfStatReport")],
["printed and returned statistics vs an independent computation"])

p("C26","Bigram statistics are exact and their files round-trip",
"For every input the statistics tool counts every adjacent byte pair exactly once (plus the wrap-around pair when asked), lists pairs by decreasing count then by pair order, and its binary output read back yields exactly the same pairs and counts. Truncated statistics are never accepted as valid ones.",
["inputs"],"all input byte strings and buffer boundaries",
"The tests only look at single Bigram objects; they never run the statistics tool or read a statistics file.",
["bench/wdtStats.cpp","bench/Bigram.cpp","bench/Bigram.h"],
[("counting loop","bench/wdtStats.cpp main"),("binary record I/O","bench/Bigram.cpp binarySerialize/binaryDeserialize")],
["tool output vs an independent count"])

p("C27","Generated benchmark data follows the statistics and the requested size",
"For every statistics input, thread count, block size and total size the generator leaves one file of exactly the requested size (rounded down to a multiple of the number of threads), every byte of it written by exactly one thread. Each thread's part begins with the start string if one is given, and after it every adjacent pair of bytes occurs in the statistics, except after a byte that has no successor there (where the chain restarts from the reset character if that has successors), with successors drawn in proportion to their counts. Equal flags give equal bytes unless seeding with the time; unusable or truncated statistics, failing writes and impossible sizes end with a non-zero exit status.",
["inputs","configurations","schedules","fault_sequences"],"all statistics, flag combinations, thread interleavings and write failures",
"No test runs the generator.",
["bench/wdtGenFiles.cpp","bench/Bigram.h","bench/Bigram.cpp"],
[("chained sampling of pairs","bench/wdtGenFiles.cpp SentenceGen"),("weighted choice","bench/wdtGenFiles.cpp ProbabilityTable"),("multi-threaded writing at offsets","bench/wdtGenFiles.cpp main")],
["files produced","positioned writes recorded by an interposer","exit status"])

p("C28","Bigrams order, hash, print and serialize consistently for all byte values",
"For all 65536 byte pairs: equality and ordering agree with one fixed byte-wise comparison, first byte first; equal pairs hash equally and all pairs can be kept apart as map keys; indexing returns the bytes given and aborts on other indices; printable text is unambiguous and escapes every non-printable byte fully, and the binary form reads back to the same pair.",
["inputs"],"all 65536 pairs, and all pairs of pairs for ordering",
"The tests pin two sample strings and three indices out of 65536 pairs.",
["bench/Bigram.cpp","bench/Bigram.h"],
[("comparison and hash","bench/Bigram.h"),("printing","bench/Bigram.cpp toPrintableString"),("serialization","bench/Bigram.cpp binarySerialize/binaryDeserialize")],
["results over the complete domain under sanitizers"])

p("C29","A byte source yields exactly its range of the file",
"Reading a block of a file returns exactly the bytes of that range in order and then the end, for every offset, length, buffer size, direct-I/O setting and advancing of the offset; finished exactly when all were returned. If the file shrank, vanished or became unreadable meanwhile, an error is reported and no stale, padded or out-of-range bytes are returned.",
["inputs","fault_sequences","configurations"],"all ranges, buffer sizes, file sizes, short reads and file changes",
T4+"Alignment and short-read combinations are not covered.",
["util/FileByteSource.cpp","util/FileByteSource.h","ByteSource.h"],
[("aligned reads and trimming","util/FileByteSource.cpp FileByteSource::read"),("open and seek","util/FileByteSource.cpp open/advanceOffset")],
["returned buffers vs file content"])

p("C30","Options take effect as documented and defaults follow the disk type",
"Every option set on the command line or programmatically is the value used by the transfer, a value set explicitly is never overridden by disk-type or static-port defaults, unset ones take the documented defaults for the disk type, and unknown disk types change nothing. An option set only affects the transfers created with it.",
["configurations"],"all combinations of explicitly set options and disk types",
T4+"Combinations are not enumerated by any test.",
["WdtOptions.cpp","WdtOptions.h","util/WdtFlags.cpp","util/WdtFlagsMacros.h"],
[("disk-type and port defaults","WdtOptions.cpp modifyOptions"),("flag to option mapping","util/WdtFlags.cpp, util/WdtFlagsMacros.h")],
["option values after processing","behaviour of the command line tool"])

p("C31","Resuming from the directory tree completes existing partial files",
"When resumption relies on the destination tree instead of a log, files there of the same size are not sent again, shorter ones get exactly their missing tail, longer ones are re-sent and end at the source's length, and missing ones are sent in full. Afterwards the destination has every source file at the right size, identical wherever the existing prefix matched the source. If an interrupted run sent files in blocks, so that sizes say nothing about contents, nothing in the tree is trusted until a run succeeds.",
["histories","inputs","configurations"],"all pairs of source trees and partial destination trees",
T4+"Needs many partial destination states.",
["Receiver.cpp","util/DirectorySourceQueue.cpp","util/FileCreator.cpp","ReceiverThread.cpp"],
[("traversal of the destination","Receiver.cpp traverseDestinationDir"),("chunk lists sent to the sender","ReceiverThread.cpp sendFileChunks"),("remaining ranges","util/DirectorySourceQueue.cpp createIntoQueue")],
["destination tree","bytes sent"])

p("C32","The command line tool's output and exit status tell the truth",
"The receiver prints exactly one usable connection URL on standard output, a sender given that URL connects to it, and each process exits with status zero exactly when its transfer succeeded, non-zero otherwise; bad arguments, manifests or URLs exit non-zero without transferring. Files named in a manifest, one per line with optional size and direct-I/O fields, are exactly those sent, and printing a transfer log shows what it contains without changing it.",
["inputs","fault_sequences","configurations"],"all invocations, manifests and transfer outcomes",
T4+"The command line tool is never built by the tests.",
["wdtCmdLine.cpp","Wdt.cpp","WdtTransferRequest.cpp"],
[("URL printing and exit status","wdtCmdLine.cpp main"),("manifest parsing","wdtCmdLine.cpp readManifest"),("log printing","util/TransferLogManager.cpp parseAndPrint")],
["stdout, exit status, destination tree"])

p("C33","Socket reads and writes deliver the exact byte stream",
"Data written through the socket layer arrives complete, in order and unmodified whatever partial reads and writes, interrupted calls or buffer sizes occur, with encryption on or off. A read returns fewer bytes than asked only at end of stream, timeout, abort or error, each reported distinctly; timeouts are honoured in total, and unacknowledged-byte counts never exceed the bytes written.",
["schedules","fault_sequences","inputs"],"all partial I/O schedules, chunk sizes, timeouts and encryption settings",
T4+"Partial I/O and signals are not produced by tests.",
["util/WdtSocket.cpp","util/ClientSocket.cpp","util/ServerSocket.cpp"],
[("read/write loops","util/WdtSocket.cpp ioWithAbortCheck/readInternal/writeInternal"),("encryption framing","util/WdtSocket.cpp")],
["bytes received vs sent","error codes"])
for x in P:
    if os.path.exists('/root/.vp/PROPERTIES.schema.json'):
        jsonschema.validate(x,json.load(open('/root/.vp/PROPERTIES.schema.json')))
    n=x["statement"].count(". ")+1
    if n>3: print("too many sentences",x["id"],n)
    if len(x["title"])>80: print("long",x["id"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
