# t(property, technique, level note); NA[property] = why it is not claimed
NA = {}
t("C26", "AddressSanitizer/UBSan runs of the statistics tool with an exact offline counting oracle",
  "every generated input's output is compared completely with an independent count; inputs are sampled")
t("C27", "sanitizer runs (ASan, UBSan, TSan) of the generator with recorded writes, content oracle and injected write faults",
  "each produced file is checked pair by pair against its statistics; configurations are sampled")
t("C28", "exhaustive domain run under ASan/UBSan with a reference oracle and forked abort observation",
  "single-bigram operations are checked for all 65536 values, ordering on a sample (all pairs in thorough)")
t("C01", "AddressSanitizer/UBSan/TSan runs of real sender and receiver over loopback with injected short, interrupted and delayed calls; offline tree comparison as oracle",
  "every destination tree is compared completely; trees, options and schedules are sampled")
t("C02", "fault-injecting TCP relay between real sender and receiver under ASan/UBSan; outcome and tree oracle",
  "cut positions of small transfers are swept, larger ones sampled")
t("C03", "bit-flipping TCP relay between real sender and receiver under ASan/UBSan; outcome and tree oracle",
  "positions of small transfers are swept, larger ones sampled")
t("C04", "ASan/UBSan runs of the cipher and encrypted streams; byte-exact OpenSSL reference, recorded wire decrypted by an independent reader, IV uniqueness monitor",
  "every ciphertext is compared completely; splits, modes and alterations are sampled")
t("C10", "ASan/UBSan runs of every encoder and decoder against an independent reference codec",
  "all message kinds times all versions; values sampled over all magnitudes")
t("C11", "ASan/UBSan runs of every decoder over exact-size heap copies of mutated and random bytes",
  "mutation of valid messages plus random bytes, bounded number per seed")
t("C17", "ASan/UBSan runs of request rendering and parsing with round-trip and reference-parser oracles",
  "random requests over all byte values and mutated URLs, sampled")
t("C33", "ASan/UBSan runs of the socket layer over a recording and altering pump, with injected short and interrupted calls; stream, code and timing oracle",
  "schedules and splits are sampled; timing bounds carry seconds of slack")
t("C08", "ASan/UBSan runs of the directory walk with injected system call failures against an independent walk; real transfers over trees changing meanwhile",
  "trees, patterns and failures are sampled; with aliased directories one way of reaching a directory is enough")
t("C09", "ASan/UBSan and TSan runs of the block queue and per-thread histories; exactly-once, partition and order monitors",
  "order is judged for a single consumer, exactly-once for up to eight; schedules are sampled")
t("C29", "ASan/UBSan runs of byte sources with files changed underneath, injected read errors and short reads; byte-exact oracle",
  "ranges, buffers and changes are sampled")
t("C18", "ASan/UBSan and TSan runs of the limiter: virtual-time simulation against average, window and least-sleep monitors; real-time stress; timed throttled transfers",
  "histories are sampled; peak windows carry up to two requests per thread and one more")
t("C19", "ASan/UBSan and TSan runs of the resource controller and high-level API; reference model, per-identifier linearizability checker and live-count ledgers",
  "histories of up to six threads are sampled; up to twenty operations per identifier are checked for linearizability")
t("C20", "ASan/UBSan and TSan runs of barriers, funnels, conditions and once-only sections with random delays; order, exactly-once, exclusion and liveness monitors",
  "schedules of up to ten threads are sampled; a stuck thread is one that made no progress for a minute")
t("C25", "ASan/UBSan and TSan runs of counters, histograms, thread local statistics and performance reports against independent 128-bit arithmetic",
  "histories, merges and resets are sampled; the standard deviation is allowed the documented integer truncation of the mean square")
t("C07", "ASan/UBSan runs of the log parser and manager on generated, damaged and truncated logs, over several sessions and full disks; independent reader of the format as oracle; TSan sessions",
  "logs, sessions and damage are sampled; every truncation of small logs is tried")
t("C24", "real transfers between pairs of protocol versions under ASan/UBSan with byte positioned connection faults and resumption across versions; end-to-end oracle and version feature table",
  "version pairs, faults and trees are sampled; all edges of the feature table are in the sample")
t("C15", "real transfers into prepared destinations under ASan/UBSan with an LD_PRELOAD trace of the receiver's file calls; before/after comparison and allocate-once trace checker",
  "trees, states of the destination, options and interleavings are sampled")
t("C16", "real resuming transfers (plain and ASan/UBSan) with denied, slowed and aborted discovery and broken connections; complete account of the destination before and after over several runs",
  "trees, failures and histories of up to four runs are sampled")

t("C12", "a live receiver under ASan/UBSan and TSan against scripted hostile peers; outcome, directory and liveness monitors",
  "message scripts are sampled; peers that know the id and do not encrypt count as authorized, as the receiver always lets them in")
t("C14", "a live receiver under ASan/UBSan, unprivileged and deep in a scratch tree, given hostile names; complete comparison of the tree outside and inside the destination",
  "names and interleavings are sampled from a hostile set; no symlinks lead out of the destination")

t("C06", "real transfers killed at chosen system calls or cut, with an LD_PRELOAD trace of writes and syncs; independent log reader, disk comparison and bytes-sent accounting over several runs; plain and ASan/UBSan",
  "crash points are swept for small transfers and sampled for larger ones; a crash is one of the process, with unsynced data judged from the trace of syncs")
t("C31", "real resuming transfers (plain and ASan/UBSan) killed, cut and aborted; every file compared with the resumption rule after every run and bytes sent with what was missing",
  "trees, destinations and histories of up to four runs are sampled")

t("C21", "real transfers (plain and ASan/UBSan) with a counting and fault injecting relay; offline conservation checker over both reports, byte counts and the tree",
  "trees, faults and options are sampled; bytes in flight on broken connections are not compared")
t("C22", "real transfers (plain, ASan/UBSan and LeakSanitizer) aborted, stalled, killed or left alone; time, descriptor, thread and reuse monitors",
  "moments and options are sampled; time limits carry seconds of slack")
t("C23", "ThreadSanitizer and AddressSanitizer over stress transfers with injected delays, faults and aborts",
  "schedules are sampled; OpenSSL and libc are not instrumented")
t("C05", "search of every log line, rendering and wire capture of ASan/UBSan runs for the known key: URL fuzzing, real transfers at all verbosities, the command line tool",
  "URLs, failures and verbosities are sampled; pieces of less than 12 hex digits are not looked for")
t("C13", "a real sender (plain, ASan/UBSan, TSan) against scripted hostile receivers; outcome, time and source tree monitors",
  "message scripts are sampled; junk that arrives after a reset is not judged")
t("C32", "runs of the tool itself (plain and ASan/UBSan) with faults, taken ports, daemons and damaged arguments; outcome, output, tree and log oracles with an independent URL and log reader",
  "invocations, manifests, faults and daemon sessions are sampled")
