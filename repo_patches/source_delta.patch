From 1860535465c264756155d76fced6fe766caa543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 01/70] fix: print bytes above 0x7f of a Bigram as their own
 octal value

A negative char was printed with %o as a 32 bit value and cut to the
buffer, so all bytes from 0x80 to 0xff printed as the same text.
---
 bench/Bigram.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bench/Bigram.cpp b/bench/Bigram.cpp
index 3925ebc..fa54d9f 100644
--- a/bench/Bigram.cpp
+++ b/bench/Bigram.cpp
@@ -23,9 +23,12 @@
  * \\ for \, \" for ", c if c is printable, \0octal otherwise
  */
 void toPrintableString(char c, std::string& result) {
-  if (!std::isprint(c)) {
+  // through unsigned char: a negative char is neither a valid argument of
+  // isprint() nor the octal value of the byte
+  const unsigned int byte = static_cast<unsigned char>(c);
+  if (!std::isprint(byte)) {
     char buf[10];
-    snprintf(buf, sizeof(buf), "\\0%o", c);
+    snprintf(buf, sizeof(buf), "\\0%o", byte);
     result.append(buf);
     return;
   }
-- 
2.43.0


From 65d85a2cc7c9ccbcb098b01d73679b8e0ec4bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 02/70] fix: do not left shift negative chars in the Bigram
 hash

---
 bench/Bigram.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bench/Bigram.h b/bench/Bigram.h
index a5520ec..83c13e9 100644
--- a/bench/Bigram.h
+++ b/bench/Bigram.h
@@ -65,7 +65,9 @@ namespace std {
 template <>
 struct hash<Bigram> {
   std::size_t operator()(const Bigram& k) const {
-    return ((k[0] << 1) | k[1]);
+    // not on (signed) char: shifting a negative value left is undefined
+    return ((static_cast<unsigned char>(k[0]) << 8) |
+            static_cast<unsigned char>(k[1]));
   }
 };
 }  // namespace std
-- 
2.43.0


From 2b08b5793a279f1336bd1140307c10c46dd0ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 03/70] fix: no wrap around bigram for empty input in
 wdt_gen_stats

With -wrap and no input, EOF was counted as a pair of 0xff bytes.
---
 bench/wdtStats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/wdtStats.cpp b/bench/wdtStats.cpp
index cbd83c6..f926f3f 100644
--- a/bench/wdtStats.cpp
+++ b/bench/wdtStats.cpp
@@ -70,7 +70,7 @@ int main(int argc, char** argv) {
     ++map[b];
     prev = c;
   }
-  if (FLAGS_wrap) {
+  if (FLAGS_wrap && first >= 0) {
     Bigram wrap(prev, first);
     ++map[wrap];
   }
-- 
2.43.0


From f90aa6e95b5cd201dad02058140fb1dc497ae1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 04/70] fix: wdt_gen_files truncates an existing output file

A longer existing file kept its old tail, so the generated data did not
have the requested size.
---
 bench/wdtGenFiles.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index 32e3b5f..f6401b7 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -370,7 +370,7 @@ int main(int argc, char** argv) {
             << " data * " << numThreads << " thread), " << blockSz
             << " at a time";
   LOG(INFO) << "Writting to " << FLAGS_filename;
-  const int fd = open(FLAGS_filename.c_str(), O_CREAT | O_WRONLY, 0644);
+  const int fd = open(FLAGS_filename.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
   if (fd < 0) {
     PLOG(FATAL) << "Unable to open " << FLAGS_filename;
   }
-- 
2.43.0


From d63782b742680a513f1d70ef16ca1e1585329daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 05/70] fix: refuse truncated statistics in wdt_gen_files

A last record cut in its count was taken with whatever bytes were read.
---
 bench/wdtGenFiles.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index f6401b7..ba9249b 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -310,10 +310,15 @@ void deserialize(std::vector<PairBigramCount>& statsData, std::istream& sin) {
   while (!sin.fail()) {
     Bigram b;
     if (!b.binaryDeserialize(sin)) {
+      if (sin.gcount() != 0) {
+        LOG(FATAL) << "Truncated bigram stats";
+      }
       break;
     }
     uint32_t count = 0;
-    sin.read(reinterpret_cast<char*>(&count), sizeof(count));
+    if (!sin.read(reinterpret_cast<char*>(&count), sizeof(count))) {
+      LOG(FATAL) << "Truncated bigram stats";
+    }
     statsData.emplace_back(b, count);
   }
 }
-- 
2.43.0


From e4f0c35da917313d0e96358ce727b96eb1b18e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 06/70] fix: refuse empty statistics in wdt_gen_files

The distribution was built over the empty range [0, -1] and the output
filled with NULs.
---
 bench/wdtGenFiles.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index ba9249b..e789a19 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -117,6 +117,9 @@ class ProbabilityTable {
     }
     LOG(INFO) << "Creating probability distribution for " << input.size()
               << " entries, total weight " << sum;
+    if (!sum) {
+      LOG(FATAL) << "No bigram stats, nothing to generate from";
+    }
     data_.reserve(sum);
     // TODO: auto scale (divide by min/3 for instance?)
     dist_.reset(new std::uniform_int_distribution<int>(0, sum - 1));
-- 
2.43.0


From e8c4bbb34d1f858a00e58c6ade6c70881bf1bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 07/70] fix: start string as long as the block and ending in a
 dead-end

generateInitial() produced one byte more than asked for and the size
check aborted the process.
---
 bench/wdtGenFiles.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index e789a19..572bb3c 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -252,6 +252,10 @@ class SentenceGen {
     }
     if (!initDone) {
       previous = initial(gen);
+      if (len <= 0) {
+        // the start string is exactly len long and ends in a dead-end
+        return previous;
+      }
     }
     result.push_back(previous[0]);
     generate(gen, result, len - 1, previous);
-- 
2.43.0


From 467c5588361ede0ca5a23b2063e7e83cfe4ff9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 08/70] fix: a receiver thread with a broken stream must
 publish its checkpoint

---
 ReceiverThread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index dd9e2f7..565e6bd 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -199,7 +199,7 @@ ReceiverState ReceiverThread::acceptWithTimeout() {
     WTLOG(ERROR) << "Socket has non-retryable error "
                  << errorCodeToStr(socketErrCode);
     threadStats_.setLocalErrorCode(socketErrCode);
-    return END;
+    return FINISH_WITH_ERROR;
   }
   socket_->closeNoCheck();
   blocksWaitingVerification_.clear();
-- 
2.43.0


From 791544d46aa6abf1b0123c63c4b16cb3ba261d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 09/70] fix: errorCodeToStr read out of bounds for a negative
 code from the wire

---
 ErrorCodes.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ErrorCodes.cpp b/ErrorCodes.cpp
index 87e7eb9..b7d573a 100644
--- a/ErrorCodes.cpp
+++ b/ErrorCodes.cpp
@@ -16,10 +16,11 @@ namespace facebook {
 namespace wdt {
 std::string errorCodeToStr(ErrorCode code) {
   int numErrorCodes = sizeof(kErrorToStr) / sizeof(kErrorToStr[0]);
-  if (code < numErrorCodes) {
+  // code can come from the network and be negative
+  if ((int)code >= 0 && (int)code < numErrorCodes) {
     return kErrorToStr[code];
   }
-  return folly::to<std::string>(code);
+  return folly::to<std::string>((int)code);
 }
 
 ErrorCode getMoreInterestingError(ErrorCode err1, ErrorCode err2) {
-- 
2.43.0


From 2fcc1e6f7dfd494fefea74a9985e0ae2b37baf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 10/70] fix: the sender used uninitialized values of an
 undecodable ABORT

---
 SenderThread.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index add7038..01bfd13 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -842,8 +842,11 @@ SenderState SenderThread::processAbortCmd() {
   int32_t negotiatedProtocol;
   ErrorCode remoteError;
   int64_t checkpoint;
-  Protocol::decodeAbort(buf_, offset, bufSize_, negotiatedProtocol, remoteError,
-                        checkpoint);
+  if (!Protocol::decodeAbort(buf_, offset, bufSize_, negotiatedProtocol,
+                             remoteError, checkpoint)) {
+    WTLOG(ERROR) << "Unable to decode ABORT cmd";
+    return END;
+  }
   threadStats_.setRemoteErrorCode(remoteError);
   std::string failedFileName = transferHistory.getSourceId(checkpoint);
   WTLOG(WARNING) << "Received abort on " << " remote protocol version "
-- 
2.43.0


From 9a333da6830edc282bf13aea1ef7002198c062a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 11/70] fix: with authenticated encryption a block is verified
 by its tag, not only its checksum

---
 ReceiverThread.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 565e6bd..6346658 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -651,16 +651,16 @@ ReceiverState ReceiverThread::processFileCmd() {
       threadStats_.setLocalErrorCode(CHECKSUM_MISMATCH);
       return ACCEPT_WITH_TIMEOUT;
     }
-    markBlockVerified(blockDetails);
     int64_t msgLen = off_ - oldOffset_;
     numRead_ -= msgLen;
   } else {
     WDT_CHECK(footerType_ == NO_FOOTER);
-    if (encryptionTypeToTagLen(encryptionType)) {
-      blocksWaitingVerification_.emplace_back(blockDetails);
-    } else {
-      markBlockVerified(blockDetails);
-    }
+  }
+  if (encryptionTypeToTagLen(encryptionType)) {
+    // the checksum covers the data only, the tag also covers the header
+    blocksWaitingVerification_.emplace_back(blockDetails);
+  } else {
+    markBlockVerified(blockDetails);
   }
   return READ_NEXT_CMD;
 }
-- 
2.43.0


From 42a000434f13680e92bbc6a3a331b7c543297958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 12/70] fix: the rest of a split block header was read to the
 wrong place

---
 ReceiverThread.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 6346658..eb17eb4 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -429,9 +429,19 @@ ReceiverState ReceiverThread::processFileCmd() {
   sendHeartBeat();
 
   if (headerLen > numRead_) {
-    int64_t end = oldOffset_ + numRead_;
-    numRead_ =
-        readAtLeast(*socket_, buf_ + end, bufSize_ - end, headerLen, numRead_);
+    if (headerLen > bufSize_) {
+      WTLOG(ERROR) << "Header length too large " << headerLen;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return FINISH_WITH_ERROR;
+    }
+    if (headerLen > bufSize_ - oldOffset_) {
+      // no space for the rest of the header, move what we have to the start
+      memmove(buf_, buf_ + oldOffset_, numRead_);
+      off_ -= oldOffset_;
+      oldOffset_ = 0;
+    }
+    numRead_ = readAtLeast(*socket_, buf_ + oldOffset_, bufSize_ - oldOffset_,
+                           headerLen, numRead_);
   }
   if (numRead_ < headerLen) {
     WTLOG(ERROR) << "Unable to read full header " << headerLen << " "
-- 
2.43.0


From 52b6a7c1a21f6052cddbbe528e26c43988a43214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 13/70] fix: the receiver accepted files and DONE from a peer
 that never sent settings

---
 ReceiverThread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index eb17eb4..1cf4f53 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -267,6 +267,12 @@ ReceiverState ReceiverThread::readNextCmd() {
     return ACCEPT_WITH_TIMEOUT;
   }
   Protocol::CMD_MAGIC cmd = (Protocol::CMD_MAGIC)buf_[off_++];
+  if (!curConnectionVerified_ && cmd != Protocol::SETTINGS_CMD) {
+    // transfer id and timeouts of the sender are not known yet
+    WTLOG(ERROR) << "received cmd " << cmd << " before settings";
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (cmd == Protocol::DONE_CMD) {
     return PROCESS_DONE_CMD;
   }
-- 
2.43.0


From 91bc2f70db0185fcf277545b0eb7ec1d7726e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 14/70] fix: unusable timeouts in the settings of the sender
 crashed the receiver

---
 ReceiverThread.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 1cf4f53..b85e1a9 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -11,6 +11,7 @@
 #include <folly/String.h>
 #include <folly/hash/Checksum.h>
 #include <folly/lang/Bits.h>
+#include <limits>
 #include <wdt/ReceiverThread.h>
 #include <wdt/util/FileWriter.h>
 
@@ -346,6 +347,15 @@ ReceiverState ReceiverThread::processSettingsCmd() {
     threadStats_.setLocalErrorCode(ID_MISMATCH);
     return SEND_ABORT_CMD;
   }
+  if (settings.readTimeoutMillis <= 0 ||
+      std::max(settings.readTimeoutMillis, settings.writeTimeoutMillis) >
+          std::numeric_limits<int>::max() - kTimeoutBufferMillis) {
+    WTLOG(ERROR) << "Invalid timeouts in settings cmd "
+                 << settings.readTimeoutMillis << " "
+                 << settings.writeTimeoutMillis;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   senderReadTimeout_ = settings.readTimeoutMillis;
   senderWriteTimeout_ = settings.writeTimeoutMillis;
   isBlockMode_ = !settings.blockModeDisabled;
-- 
2.43.0


From b6fab16f0fdd8bfcbeb56a504155796503f579ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 15/70] fix: a run of settings and size commands overran the
 read buffer of the receiver

---
 ReceiverThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index b85e1a9..6780233 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -257,6 +257,11 @@ ReceiverState ReceiverThread::sendLocalCheckpoint() {
 /***READ_NEXT_CMD***/
 ReceiverState ReceiverThread::readNextCmd() {
   WTVLOG(1) << "entered READ_NEXT_CMD state";
+  if (off_ + Protocol::kMinBufLength > bufSize_) {
+    // several small commands were read at once, make space for the next one
+    memmove(buf_, buf_ + off_, numRead_);
+    off_ = 0;
+  }
   oldOffset_ = off_;
   // TODO: we shouldn't have off_ here and buffer/size inside buffer.
   numRead_ = readAtLeast(*socket_, buf_ + off_, bufSize_ - off_,
-- 
2.43.0


From bb71f6f149262e9ff482a69fa6111b463364f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 16/70] fix: settings with a transfer id longer than the first
 read were mishandled

---
 ReceiverThread.cpp | 24 +++++++++++++++++++++---
 SenderThread.cpp   | 12 +++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 6780233..3e5ad14 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -336,9 +336,27 @@ ReceiverState ReceiverThread::processSettingsCmd() {
     socket_->disableIvChange();
   }
 
-  success = Protocol::decodeSettings(
-      threadProtocolVersion_, buf_, off_,
-      oldOffset_ + Protocol::kMaxVersion + Protocol::kMaxSettings, settings);
+  const int64_t versionEnd = off_;
+  while (true) {
+    success = Protocol::decodeSettings(
+        threadProtocolVersion_, buf_, off_,
+        oldOffset_ +
+            std::min(numRead_, Protocol::kMaxVersion + Protocol::kMaxSettings),
+        settings);
+    if (success ||
+        numRead_ >= Protocol::kMaxVersion + Protocol::kMaxSettings ||
+        oldOffset_ + numRead_ >= bufSize_) {
+      break;
+    }
+    // transfer id can be longer than what we have read so far
+    const int64_t oldNumRead = numRead_;
+    numRead_ = readAtLeast(*socket_, buf_ + oldOffset_, bufSize_ - oldOffset_,
+                           numRead_ + 1, numRead_);
+    if (numRead_ <= oldNumRead) {
+      break;
+    }
+    off_ = versionEnd;
+  }
   if (!success) {
     WTLOG(ERROR) << "Unable to decode settings cmd ";
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
diff --git a/SenderThread.cpp b/SenderThread.cpp
index 01bfd13..8777820 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -231,9 +231,15 @@ SenderState SenderThread::sendSettings() {
   settings.sendFileChunks = sendFileChunks;
   settings.blockModeDisabled = (options_.block_size_mbytes <= 0);
   settings.enableHeartBeat = enableHeartBeat_;
-  Protocol::encodeSettings(threadProtocolVersion_, buf_, off,
-                           Protocol::kMaxSettings, settings);
-  int64_t toWrite = sendFileChunks ? Protocol::kMinBufLength : off;
+  if (!Protocol::encodeSettings(threadProtocolVersion_, buf_, off,
+                                Protocol::kMaxSettings, settings)) {
+    WTLOG(ERROR) << "Unable to encode settings, transfer id too long";
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return END;
+  }
+  int64_t toWrite =
+      sendFileChunks && off < Protocol::kMinBufLength ? Protocol::kMinBufLength
+                                                      : off;
   int64_t written = socket_->write(buf_, toWrite);
   if (written != toWrite) {
     WTLOG(ERROR) << "Socket write failure " << written << " " << toWrite;
-- 
2.43.0


From 49a105a7a5fc9116217ea62a2443485d2c2a8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 17/70] fix: a file name from the sender could leave the
 destination or crash the receiver

---
 ReceiverThread.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 3e5ad14..0fb9907 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -425,6 +425,16 @@ void ReceiverThread::sendHeartBeat() {
   }
 }
 
+/// @return   whether the name sent by the sender is that of a file below the
+///           destination directory
+static bool isValidFileName(const std::string& fileName) {
+  if (fileName.empty() || fileName[0] == '/' || fileName.back() == '/' ||
+      fileName.find('\0') != std::string::npos) {
+    return false;
+  }
+  return ("/" + fileName + "/").find("/../") == std::string::npos;
+}
+
 /***PROCESS_FILE_CMD***/
 ReceiverState ReceiverThread::processFileCmd() {
   WTVLOG(1) << "entered PROCESS_FILE_CMD state";
@@ -509,6 +519,11 @@ ReceiverState ReceiverThread::processFileCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  if (!isValidFileName(blockDetails.fileName)) {
+    WTLOG(ERROR) << "Invalid file name " << blockDetails.fileName;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (blockDetails.allocationStatus == TO_BE_DELETED &&
       (blockDetails.fileSize != 0 || blockDetails.dataSize != 0)) {
     WTLOG(ERROR) << "Invalid file header, file to be deleted, but "
-- 
2.43.0


From 7f0e477921503ad119b078948dafd49a2d9a7bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 18/70] fix: an unknown allocation status in a block header
 crashed the receiver

---
 Protocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Protocol.cpp b/Protocol.cpp
index f6e36db..661a5f6 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -186,6 +186,11 @@ bool Protocol::decodeHeader(int receiverProtocolVersion, char* src,
     // first 3 bits are used to represent allocation status
     blockDetails.allocationStatus = (FileAllocationStatus)(flags & 7);
     br.pop_front();
+    if (blockDetails.allocationStatus > TO_BE_DELETED) {
+      WLOG(ERROR) << "Invalid allocation status "
+                  << blockDetails.allocationStatus;
+      return false;
+    }
     if (blockDetails.allocationStatus == EXISTS_TOO_SMALL ||
         blockDetails.allocationStatus == EXISTS_TOO_LARGE) {
       ok = decodeInt64C(br, blockDetails.prevSeqId);
-- 
2.43.0


From 5e5aa07cb0de3126ab6aa2dff89b686e807296f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 19/70] fix: a bogus file chunks length overran the buffer of
 the sender

---
 SenderThread.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 8777820..6c46afd 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -10,6 +10,7 @@
 #include <folly/String.h>
 #include <folly/hash/Checksum.h>
 #include <folly/lang/Bits.h>
+#include <limits>
 #include <sys/stat.h>
 #include <wdt/Sender.h>
 #include <wdt/SenderThread.h>
@@ -563,7 +564,8 @@ SenderState SenderThread::readFileChunks() {
   Protocol::decodeChunksCmd(buf_, off, bufSize_, bufSize, numFiles);
   WTLOG(INFO) << "File chunk list has " << numFiles
               << " entries and is broken in buffers of length " << bufSize;
-  if (bufSize < 0 || numFiles < 0) {
+  if (bufSize < 0 || numFiles < 0 ||
+      bufSize > std::numeric_limits<int32_t>::max()) {
     WLOG(ERROR) << "Decoded bogus size for file chunks list bufSize = "
                 << bufSize << " num files " << numFiles;
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
@@ -596,7 +598,13 @@ SenderState SenderThread::readFileChunks() {
       return CHECK_FOR_ABORT;
     }
     toRead = folly::loadUnaligned<int32_t>(buf_);
-    toRead = folly::Endian::little(toRead);
+    toRead = folly::Endian::little((int32_t)toRead);
+    if (toRead <= 0 || toRead > bufSize) {
+      WTLOG(ERROR) << "Invalid length of file chunks list " << toRead << " "
+                   << bufSize;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
     numRead = socket_->read(chunkBuffer.get(), toRead);
     if (numRead != toRead) {
       WTLOG(ERROR) << "Socket read error " << toRead << " " << numRead;
-- 
2.43.0


From 7092c1caa61181af217b5547e324fcb73b15c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 20/70] fix: a negative length of global checkpoints crashed
 the sender

---
 SenderThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 6c46afd..03229be 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -816,6 +816,11 @@ SenderState SenderThread::processErrCmd() {
 
   int16_t checkpointsLen = folly::loadUnaligned<int16_t>(buf_);
   checkpointsLen = folly::Endian::little(checkpointsLen);
+  if (checkpointsLen <= 0) {
+    WTLOG(ERROR) << "Invalid length of global checkpoints " << checkpointsLen;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return END;
+  }
   char checkpointBuf[checkpointsLen];
   numRead = socket_->read(checkpointBuf, checkpointsLen);
   if (numRead != checkpointsLen) {
-- 
2.43.0


From f79fe297ebeafc9852362fe121e0094c0af2565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 21/70] fix: impossible values in a checkpoint corrupted the
 transfer history of the sender

---
 util/ThreadTransferHistory.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 3a47ee9..1624b40 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -69,6 +69,11 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
   const int64_t historySize = history_.size();
   int64_t numReceivedSources = checkpoint.numBlocks;
   int64_t lastBlockReceivedBytes = checkpoint.lastBlockReceivedBytes;
+  if (numReceivedSources < 0 || lastBlockReceivedBytes < 0) {
+    WLOG(ERROR) << "negative number of blocks or bytes in checkpoint "
+                << checkpoint;
+    return INVALID_CHECKPOINT;
+  }
   if (numReceivedSources > historySize) {
     WLOG(ERROR)
         << "checkpoint is greater than total number of sources transferred "
@@ -202,6 +207,13 @@ void ThreadTransferHistory::markSourceAsFailed(
       validCheckpoint = true;
     }
   }
+  if (validCheckpoint &&
+      checkpoint->lastBlockReceivedBytes > source->getSize()) {
+    WLOG(ERROR) << "Checkpoint has more bytes than the block "
+                << checkpoint->lastBlockReceivedBytes << " "
+                << source->getSize();
+    validCheckpoint = false;
+  }
   int64_t receivedBytes =
       (validCheckpoint ? checkpoint->lastBlockReceivedBytes : 0);
   TransferStats& sourceStats = source->getTransferStats();
-- 
2.43.0


From 9f4bba517fc09f874c6c7daea4341eb799e2cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 22/70] fix: a one byte first read from an unencrypted peer
 broke the socket

---
 util/WdtSocket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 2d1278b..5db1369 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -337,6 +337,9 @@ int WdtSocket::readWithTimeout(char* buf, int nbyte, int timeoutMs,
   const bool encrypt = encryptionParams_.isSet();
   if (!encrypt) {
     // handle the non-encryption case
+    if (numRead == nbyte) {
+      return numRead;
+    }
     int ret = readInternal(buf + numRead, nbyte - numRead, timeoutMs, tryFull);
     if (ret >= 0) {
       return numRead + ret;
-- 
2.43.0


From 858f86574d1ddb503bbb58579776a13cf540e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 23/70] fix: an encryption type outside the known ones was
 decoded to an arbitrary enum value

---
 Protocol.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Protocol.cpp b/Protocol.cpp
index 661a5f6..f981175 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -544,6 +544,10 @@ bool Protocol::decodeEncryptionSettings(char* src, int64_t& off, int64_t max,
   int64_t v;
   bool ok = decodeInt64C(br, v) && decodeString(br, iv) &&
             decodeInt32FixedLength(br, tagInterval);
+  if (ok && v >= NUM_ENC_TYPES) {
+    WLOG(ERROR) << "Invalid encryption type " << v;
+    ok = false;
+  }
   if (ok) {
     encryptionType = static_cast<EncryptionType>(v);
   }
-- 
2.43.0


From 97c6957aa36c5994ae71ca0d452e916e938e0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 24/70] fix: a url with a huge or negative number of ports
 exhausted memory or overflowed

---
 WdtTransferRequest.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index 34a6f6c..c713a56 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -415,6 +415,13 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
     }
   }
   if (errorCode == OK) {
+    // bounded because this comes from the url
+    if (startPort < 0 || numPorts < 0 ||
+        static_cast<int64_t>(startPort) + numPorts > 65536) {
+      WLOG(ERROR) << "Invalid port range " << startPort << " " << numPorts;
+      errorCode = URI_PARSE_ERROR;
+      return;
+    }
     ports = WdtTransferRequest::genPortsVector(startPort, numPorts);
   }
   // beware of the return above, add future params processing above the return
-- 
2.43.0


From 62f4e2c2092a6d01977047cca0cbd1e25e8402f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 25/70] fix: parameters after an empty one in a url were parsed
 as one value

---
 WdtTransferRequest.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index c713a56..a9e0d27 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -208,9 +208,8 @@ ErrorCode WdtUri::process(const string& url) {
   while (!urlPiece.empty()) {
     StringPiece keyValuePair = urlPiece.split_step('&');
     if (keyValuePair.empty()) {
-      // Last key value pair
-      keyValuePair = urlPiece;
-      urlPiece.advance(urlPiece.size());
+      // Nothing between two &
+      continue;
     }
     StringPiece key = keyValuePair.split_step('=');
     StringPiece value = keyValuePair;
-- 
2.43.0


From 8321699c2b0158693fa757a34c1685a71cf918c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 26/70] fix: an overlong encryption type in a url overflowed
 and wrapped to a valid one

---
 util/EncryptionUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index ae50ef9..010b3e2 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -146,6 +146,10 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     if (state == IN_TYPE) {
       // Pre : hex digits
       type = (type << 4) | v;
+      if (type >= NUM_ENC_TYPES) {
+        WLOG(ERROR) << "Encryption type out of range " << type;
+        return ERROR;
+      }
       continue;
     }
     if (state != RIGHT_HEX) {
-- 
2.43.0


From bf20fc0151e333c6600ab5f5d2bca014e709a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 27/70] fix: a url with a NUL byte was accepted with the host
 or port cut there

---
 WdtTransferRequest.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index a9e0d27..9df1993 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -152,7 +152,7 @@ ErrorCode WdtUri::process(const string& url) {
       WLOG(ERROR) << "Didn't find ] for ipv6 address " << url;
       return URI_PARSE_ERROR;
     }
-    hostName_.assign(urlPiece.data(), 0, hostNameEnd);
+    hostName_.assign(urlPiece.data(), hostNameEnd);
     urlPiece.advance(hostNameEnd + 1);
   } else {
     size_t urlIndex = 0;
@@ -164,7 +164,7 @@ ErrorCode WdtUri::process(const string& url) {
         break;
       }
     }
-    hostName_.assign(urlPiece.data(), 0, urlIndex);
+    hostName_.assign(urlPiece.data(), urlIndex);
     urlPiece.advance(urlIndex);
   }
 
@@ -186,7 +186,7 @@ ErrorCode WdtUri::process(const string& url) {
     }
     try {
       string portStr;
-      portStr.assign(urlPiece.data(), 0, paramsIndex);
+      portStr.assign(urlPiece.data(), paramsIndex);
       port_ = folly::to<int32_t>(portStr);
     } catch (std::exception&) {
       WLOG(ERROR) << "Invalid port, can't be parsed " << url;
-- 
2.43.0


From 17f5ad7da92685bfd0c736043119aac35f2149f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 28/70] fix: honour fractional block sizes

block_size_mbytes is a double option, but the queue kept it in an integer, so
a block size below one megabyte silently disabled splitting.
---
 util/DirectorySourceQueue.cpp | 2 +-
 util/DirectorySourceQueue.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 5b889fe..8fe8aec 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -75,7 +75,7 @@ void DirectorySourceQueue::setPruneDirPattern(const string& pruneDirPattern) {
   pruneDirPattern_ = pruneDirPattern;
 }
 
-void DirectorySourceQueue::setBlockSizeMbytes(int64_t blockSizeMbytes) {
+void DirectorySourceQueue::setBlockSizeMbytes(double blockSizeMbytes) {
   blockSizeMbytes_ = blockSizeMbytes;
 }
 
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index c2bf35f..34bec8b 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -160,7 +160,7 @@ class DirectorySourceQueue : public SourceQueue {
   void setFileInfoGenerator(WdtTransferRequest::FileInfoGenerator gen);
 
   /// @param blockSizeMbytes    block size in Mbytes
-  void setBlockSizeMbytes(int64_t blockSizeMbytes);
+  void setBlockSizeMbytes(double blockSizeMbytes);
 
   /// Get the file info in this directory queue
   std::vector<WdtFileInfo> getFileInfo() const;
@@ -313,7 +313,7 @@ class DirectorySourceQueue : public SourceQueue {
   std::string excludePattern_;
 
   /// Block size in mb
-  int64_t blockSizeMbytes_{0};
+  double blockSizeMbytes_{0};
 
   /// List of files to enqueue instead of recursing over rootDir_.
   std::vector<WdtFileInfo> fileInfo_;
-- 
2.43.0


From f85d9b49d37ef902faf73bd6e9920a556734eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 29/70] fix: record failed directories under the queue's lock

Sender threads read failedDirectories_ while the directory thread is adding
to it.
---
 util/DirectorySourceQueue.cpp | 8 +++++++-
 util/DirectorySourceQueue.h   | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 8fe8aec..53bd1d1 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -253,6 +253,12 @@ string DirectorySourceQueue::resolvePath(const string& path) {
   return result;
 }
 
+void DirectorySourceQueue::addFailedDirectory(const string& fullPath) {
+  // sender threads look at the failures while discovery is running
+  std::lock_guard<std::mutex> lock(mutex_);
+  failedDirectories_.emplace_back(fullPath);
+}
+
 bool DirectorySourceQueue::explore() {
   WLOG(INFO) << "Exploring root dir " << rootDir_
              << " include_pattern : " << includePattern_
@@ -280,7 +286,7 @@ bool DirectorySourceQueue::explore() {
     DIR* dirPtr = opendir(fullPath.c_str());
     if (!dirPtr) {
       WPLOG(ERROR) << "Error opening dir " << fullPath;
-      failedDirectories_.emplace_back(fullPath);
+      addFailedDirectory(fullPath);
       hasError = true;
       continue;
     }
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index 34bec8b..bd1dfe2 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -298,6 +298,9 @@ class DirectorySourceQueue : public SourceQueue {
   /// method should be called while holding the lock
   void enqueueFilesToBeDeleted();
 
+  /// records a directory which could not be read
+  void addFailedDirectory(const std::string& fullPath);
+
   std::unique_ptr<ThreadCtx> threadCtx_{nullptr};
 
   /// root directory to recurse on if fileInfo_ is empty
-- 
2.43.0


From cd42671e57b0bef7358247fd46a05924762be7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 30/70] fix: do not return a negative size from a shrunken
 direct read

An aligned read starts before the wanted offset; when the file meanwhile ends
in between, the size returned was zero or negative and the sender aborted.
---
 util/FileByteSource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/FileByteSource.cpp b/util/FileByteSource.cpp
index a67a719..a63f68b 100644
--- a/util/FileByteSource.cpp
+++ b/util/FileByteSource.cpp
@@ -135,7 +135,8 @@ char* FileByteSource::read(int64_t& size) {
     transferStats_.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
     return nullptr;
   }
-  if (numRead == 0) {
+  if (numRead <= offsetRemainder) {
+    // nothing at or after the wanted offset (the file may have shrunk)
     WLOG(ERROR) << "Unexpected EOF on " << metadata_->fullPath << " need align "
                 << alignedReadNeeded_ << " physicalRead " << physicalRead
                 << " offset " << offset_ << " seepPos " << seekPos
-- 
2.43.0


From a9e70ee736ee9cab01eec47241839d66a9245ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 31/70] fix: report entries the directory walk could not
 examine

A failing lstat(), stat() or readdir() was only logged: the files were left
out and the transfer still reported success.
---
 util/DirectorySourceQueue.cpp | 32 ++++++++++++++++++++++++++------
 util/DirectorySourceQueue.h   |  3 +++
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 53bd1d1..4e8aeef 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -259,6 +259,13 @@ void DirectorySourceQueue::addFailedDirectory(const string& fullPath) {
   failedDirectories_.emplace_back(fullPath);
 }
 
+void DirectorySourceQueue::addFailedSource(const string& relativePath) {
+  TransferStats failedSourceStat(relativePath);
+  failedSourceStat.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
+  std::lock_guard<std::mutex> lock(mutex_);
+  failedSourceStats_.emplace_back(std::move(failedSourceStat));
+}
+
 bool DirectorySourceQueue::explore() {
   WLOG(INFO) << "Exploring root dir " << rootDir_
              << " include_pattern : " << includePattern_
@@ -270,6 +277,12 @@ bool DirectorySourceQueue::explore() {
   std::regex includeRegex(includePattern_);
   std::regex excludeRegex(excludePattern_);
   std::regex pruneDirRegex(pruneDirPattern_);
+  auto isSelected = [&](const string& path) {
+    if (!excludePattern_.empty() && std::regex_match(path, excludeRegex)) {
+      return false;
+    }
+    return includePattern_.empty() || std::regex_match(path, includeRegex);
+  };
   std::deque<string> todoList;
   todoList.emplace_back("");
   while (!todoList.empty()) {
@@ -303,6 +316,7 @@ bool DirectorySourceQueue::explore() {
       if (!dirEntryRes) {
         if (errno) {
           WPLOG(ERROR) << "Error reading dir " << fullPath;
+          addFailedDirectory(fullPath);
           // closedir always called
           hasError = true;
         } else {
@@ -344,7 +358,12 @@ bool DirectorySourceQueue::explore() {
         // On XFS we don't know yet if this is a symlink, so check
         // if following symlinks is ok we will do stat() too
         if (lstat(newFullPath.c_str(), &fileStat) != 0) {
+          const int lstatErrno = errno;
           WPLOG(ERROR) << "lstat() failed on path " << newFullPath;
+          if (lstatErrno != ENOENT && isSelected(newRelativePath)) {
+            // the entry is there, but can not be looked at
+            addFailedSource(newRelativePath);
+          }
           hasError = true;
           continue;
         }
@@ -354,7 +373,13 @@ bool DirectorySourceQueue::explore() {
           // Use stat to see if the pointed file is of the right type
           // (overrides previous stat call result)
           if (stat(newFullPath.c_str(), &fileStat) != 0) {
+            const int statErrno = errno;
             WPLOG(ERROR) << "stat() failed on path " << newFullPath;
+            if (statErrno != ENOENT && statErrno != ELOOP &&
+                isSelected(newRelativePath)) {
+              // not just a dangling link
+              addFailedSource(newRelativePath);
+            }
             hasError = true;
             continue;
           }
@@ -375,12 +400,7 @@ bool DirectorySourceQueue::explore() {
         if (S_ISREG(fileStat.st_mode)) {
           WVLOG(2) << "Found file " << newFullPath << " of size "
                    << fileStat.st_size;
-          if (!excludePattern_.empty() &&
-              std::regex_match(newRelativePath, excludeRegex)) {
-            continue;
-          }
-          if (!includePattern_.empty() &&
-              !std::regex_match(newRelativePath, includeRegex)) {
+          if (!isSelected(newRelativePath)) {
             continue;
           }
           WdtFileInfo fileInfo(newRelativePath, fileStat.st_size, directReads_);
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index bd1dfe2..9f48a2b 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -301,6 +301,9 @@ class DirectorySourceQueue : public SourceQueue {
   /// records a directory which could not be read
   void addFailedDirectory(const std::string& fullPath);
 
+  /// records a directory entry which could not be examined
+  void addFailedSource(const std::string& relativePath);
+
   std::unique_ptr<ThreadCtx> threadCtx_{nullptr};
 
   /// root directory to recurse on if fileInfo_ is empty
-- 
2.43.0


From 2b5c781a643745a63d383e82224b0cc4b2efc169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 32/70] fix: do not count a pruned directory as visited

With follow_symlinks, a directory pruned under one name was remembered as
visited, so a link to it that is not pruned was dropped.
---
 util/DirectorySourceQueue.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 4e8aeef..f16f54a 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -409,6 +409,11 @@ bool DirectorySourceQueue::explore() {
         }
       }
       if (isDir) {
+        newRelativePath.push_back('/');
+        if (!pruneDirPattern_.empty() &&
+            std::regex_match(newRelativePath, pruneDirRegex)) {
+          continue;
+        }
         if (followSymlinks_) {
           if (visited.find(newFullPath) != visited.end()) {
             WLOG(ERROR) << "Attempted to visit directory twice: "
@@ -419,12 +424,8 @@ bool DirectorySourceQueue::explore() {
           // TODO: consider custom hashing ignoring common prefix
           visited.insert(newFullPath);
         }
-        newRelativePath.push_back('/');
-        if (pruneDirPattern_.empty() ||
-            !std::regex_match(newRelativePath, pruneDirRegex)) {
-          WVLOG(2) << "Adding " << newRelativePath;
-          todoList.push_back(std::move(newRelativePath));
-        }
+        WVLOG(2) << "Adding " << newRelativePath;
+        todoList.push_back(std::move(newRelativePath));
       }
     }
     closedir(dirPtr);
-- 
2.43.0


From 6da491bd23c873a7f952e52bef5ca9da03affbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 33/70] fix: read the number of entries under the queue's lock

The directory thread logged it while a sender thread rebuilds the queue from
the receiver's chunk list.
---
 util/DirectorySourceQueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index f16f54a..71ca9e8 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -430,7 +430,7 @@ bool DirectorySourceQueue::explore() {
     }
     closedir(dirPtr);
   }
-  WLOG(INFO) << "Number of files explored: " << numEntries_ << " opened "
+  WLOG(INFO) << "Number of files explored: " << getCount() << " opened "
              << numFilesOpened_ << " with direct " << numFilesOpenedWithDirect_
              << " errors " << std::boolalpha << hasError;
   return !hasError;
-- 
2.43.0


From 9fae355d2efc786ced3a3a208095c183cfb6355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 34/70] fix: keep fractions of a token in the throttler's
 bucket

The bucket was an integer, so every refill was truncated towards zero: a
negative balance gained and a positive one lost up to a token per call.
---
 Throttler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Throttler.h b/Throttler.h
index d0f35a3..8199684 100644
--- a/Throttler.h
+++ b/Throttler.h
@@ -186,7 +186,7 @@ class Throttler {
 
  protected:
   /// Number of tokens in the bucket
-  int64_t tokenBucket_;
+  double tokenBucket_;
   /// Controls the access across threads
   folly::SpinLock throttlerMutex_;
   /// Number of users of this throttler
-- 
2.43.0


From e4272a5c45c18ad3796b9b1caf132579cb5fca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 35/70] fix: auto configure the peak rate of a new throttler

max_mbytes_per_sec is documented to default to 1.2 times the average rate
and may not be below it. setThrottlerRates() does that, but a throttler
made from options was left without a peak limit, or with a peak below the
average.
---
 Throttler.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Throttler.cpp b/Throttler.cpp
index dc4fcd2..41afe9b 100644
--- a/Throttler.cpp
+++ b/Throttler.cpp
@@ -40,16 +40,14 @@ void Throttler::configureOptions(double& avgRatePerSec, double& peakRatePerSec,
 Throttler::Throttler(const ThrottlerOptions& options)
     : avgRatePerSec_(options.avg_rate_per_sec) {
   bucketRatePerSec_ = options.max_rate_per_sec;
-  tokenBucketLimit_ = kTimeMultiplier * kBucketMultiplier * bucketRatePerSec_;
+  tokenBucketLimit_ = options.throttler_bucket_limit;
+  configureOptions(avgRatePerSec_, bucketRatePerSec_, tokenBucketLimit_);
   /* We keep the number of tokens generated as zero initially
    * It could be argued that we keep this filled when we created the
    * bucket. However the startTime is passed in this case and the hope is
    * that we will have enough number of tokens by the time we send the data
    */
   tokenBucket_ = 0;
-  if (options.throttler_bucket_limit > 0) {
-    tokenBucketLimit_ = options.throttler_bucket_limit;
-  }
   if (avgRatePerSec_ > 0) {
     WLOG(INFO) << "Average rate " << avgRatePerSec_;
   } else {
-- 
2.43.0


From 04443c9432765e46eeca3e5d6d5524171f21b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 36/70] fix: read the throttler's log interval under its lock

---
 Throttler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Throttler.cpp b/Throttler.cpp
index 41afe9b..b1ea3ab 100644
--- a/Throttler.cpp
+++ b/Throttler.cpp
@@ -119,7 +119,7 @@ void Throttler::limitSingleRequest(ThreadCtx* threadCtx,
   WDT_CHECK_LE(deltaProgress, singleRequestLimit_);
   std::chrono::time_point<Clock> now = Clock::now();
   double sleepTimeSeconds = calculateSleep(deltaProgress, now);
-  if (throttlerLogTimeMillis_ > 0) {
+  if (getThrottlerLogTimeMillis() > 0) {
     printPeriodicLogs(now, deltaProgress);
   }
   if (sleepTimeSeconds <= 0) {
-- 
2.43.0


From f92e4d82f272c34fe37cc4fac9d5a8c2c9915235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 37/70] fix: account for operations in progress when a
 namespace is deleted

A sender or receiver created while its namespace was deregistered stayed
registered nowhere but counted forever, and shutdown() aborted the process
when another thread was between creating or releasing an object and
updating the count.
---
 WdtResourceController.cpp | 52 +++++++++++++++++++++------------------
 WdtResourceController.h   |  3 +++
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index 658eea0..7219636 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -304,24 +304,41 @@ WdtResourceController* WdtResourceController::get() {
   return &wdtController;
 }
 
-void WdtResourceController::shutdown() {
-  WLOG(INFO) << "Shutting down the controller (" << numSenders_ << " senders "
-             << numReceivers_ << " receivers)";
+void WdtResourceController::releaseNamespace(
+    const NamespaceControllerPtr& controller) {
+  // Calls that have already found this namespace may still create or release
+  // something in it. Nothing can be in progress once this is the only reference
+  while (controller.use_count() > 1) {
+    WLOG(INFO) << "Waiting for operations on a namespace being deleted";
+    /* sleep override */
+    usleep(kDelTimeToSleepMillis * 1000);
+  }
+  const int64_t numSenders = controller->releaseAllSenders();
+  const int64_t numReceivers = controller->releaseAllReceivers();
   GuardLock lock(controllerMutex_);
-  for (auto& namespaceController : namespaceMap_) {
-    NamespaceControllerPtr controller = namespaceController.second;
-    numSenders_ -= controller->releaseAllSenders();
-    numReceivers_ -= controller->releaseAllReceivers();
+  numSenders_ -= numSenders;
+  numReceivers_ -= numReceivers;
+}
+
+void WdtResourceController::shutdown() {
+  std::unordered_map<std::string, NamespaceControllerPtr> namespaces;
+  {
+    GuardLock lock(controllerMutex_);
+    WLOG(INFO) << "Shutting down the controller (" << numSenders_
+               << " senders " << numReceivers_ << " receivers)";
+    namespaces.swap(namespaceMap_);
+  }
+  for (auto& namespaceController : namespaces) {
+    releaseNamespace(namespaceController.second);
     WVLOG(1) << "Cleared out controller for " << namespaceController.first;
   }
-  namespaceMap_.clear();
-  WDT_CHECK_EQ(numReceivers_, 0);
-  WDT_CHECK_EQ(numSenders_, 0);
   WVLOG(1) << "Shutdown the wdt resource controller";
 }
 
 WdtResourceController::~WdtResourceController() {
   shutdown();
+  WDT_CHECK_EQ(numReceivers_, 0);
+  WDT_CHECK_EQ(numSenders_, 0);
 }
 
 ErrorCode WdtResourceController::getCounts(int32_t& numNamespaces,
@@ -655,20 +672,7 @@ ErrorCode WdtResourceController::deRegisterWdtNamespace(
     }
     namespaceMap_.erase(it);
   }
-  int numSenders = controller->releaseAllSenders();
-  int numReceivers = controller->releaseAllReceivers();
-
-  {
-    GuardLock lock(controllerMutex_);
-    numSenders_ -= numSenders;
-    numReceivers_ -= numReceivers;
-  }
-
-  while (controller.use_count() > 1) {
-    /* sleep override */
-    usleep(kDelTimeToSleepMillis * 1000);
-    WLOG(INFO) << "Trying to delete the namespace " << wdtNamespace;
-  }
+  releaseNamespace(controller);
   WLOG(INFO) << "Deleted the namespace " << wdtNamespace;
   return OK;
 }
diff --git a/WdtResourceController.h b/WdtResourceController.h
index de1e532..1e593c8 100644
--- a/WdtResourceController.h
+++ b/WdtResourceController.h
@@ -277,6 +277,9 @@ class WdtResourceController : public WdtControllerBase {
 
  private:
   NamespaceControllerPtr createNamespaceController(const std::string& name);
+  /// Releases everything in a namespace that is no longer in the map, after
+  /// waiting for the operations that still use it
+  void releaseNamespace(const NamespaceControllerPtr& controller);
   /// Map containing the resource controller per namespace
   std::unordered_map<std::string, NamespaceControllerPtr> namespaceMap_;
   /// Whether namespace need to be created explictly
-- 
2.43.0


From 1a0f097293f728df5740778f3a425f4eb18d3585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 38/70] fix: change strict registration under the controller's
 lock

---
 WdtResourceController.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index 7219636..0cbaefd 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -714,6 +714,7 @@ WdtResourceController::getNamespaceController(
 }
 
 void WdtResourceController::requireRegistration(bool strict) {
+  GuardLock lock(controllerMutex_);
   strictRegistration_ = strict;
 }
 
-- 
2.43.0


From d98e054495559c73bd5125811cbaaf634c6a2dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 39/70] fix: release the registration of a transfer that could
 not be initialised

---
 Wdt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Wdt.cpp b/Wdt.cpp
index 0def6b7..8b833d9 100644
--- a/Wdt.cpp
+++ b/Wdt.cpp
@@ -122,6 +122,7 @@ ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
   auto validatedReq = sender->init();
   if (validatedReq.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init sender with request for " << wdtNamespace;
+    releaseWdtSender(req);
     return validatedReq.errorCode;
   }
   auto transferReport = sender->transfer();
@@ -159,6 +160,7 @@ ErrorCode Wdt::wdtReceiveStart(const std::string& wdtNamespace,
   if (req.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init receiver with request for " << wdtNamespace
                 << " " << identifier;
+    resourceController_->releaseReceiver(wdtNamespace, identifier);
     return req.errorCode;
   }
   errCode = receiver->transferAsync();
-- 
2.43.0


From 6b8f8d64c3da95e35364f2fcafb3423d6b3d9b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 40/70] fix: do not release the registration of a sender's
 successor

An aborted sender, when its wdtSend() ended, removed the registration of
the sender that had taken over its identifier.
---
 Wdt.cpp                   | 10 +++++++---
 WdtResourceController.cpp | 13 ++++++++++---
 WdtResourceController.h   | 11 +++++++----
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/Wdt.cpp b/Wdt.cpp
index 8b833d9..a9a99f0 100644
--- a/Wdt.cpp
+++ b/Wdt.cpp
@@ -89,7 +89,8 @@ ErrorCode Wdt::createWdtSender(const WdtTransferRequest& req,
     }
     senderPtr->abort(ABORTED_BY_APPLICATION);
     // This may log an error too
-    resourceController_->releaseSender(wdtNamespace, secondKey);
+    resourceController_->releaseSender(wdtNamespace, secondKey,
+                                       senderPtr.get());
     // Try#2
     errCode = resourceController_->createSender(wdtNamespace, secondKey, req,
                                                 senderPtr);
@@ -122,12 +123,15 @@ ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
   auto validatedReq = sender->init();
   if (validatedReq.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init sender with request for " << wdtNamespace;
-    releaseWdtSender(req);
+    resourceController_->releaseSender(wdtNamespace, getSenderIdentifier(req),
+                                       sender.get());
     return validatedReq.errorCode;
   }
   auto transferReport = sender->transfer();
   errCode = transferReport->getSummary().getErrorCode();
-  releaseWdtSender(req);
+  // if another sender has replaced this one, its registration must stay
+  resourceController_->releaseSender(wdtNamespace, getSenderIdentifier(req),
+                                     sender.get());
   WLOG(INFO) << "wdtSend for " << wdtNamespace << " " << req.hostName
              << " ended with " << errorCodeToStr(errCode);
   return errCode;
diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index 0cbaefd..d9fb4de 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -136,7 +136,8 @@ ErrorCode WdtNamespaceController::releaseReceiver(
   return OK;
 }
 
-ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier) {
+ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier,
+                                                const Sender* expected) {
   SenderPtr sender = nullptr;
   {
     GuardLock lock(controllerMutex_);
@@ -146,6 +147,11 @@ ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier) {
                   << " for " << controllerName_;
       return NOT_FOUND;
     }
+    if (expected != nullptr && it->second.get() != expected) {
+      WLOG(WARNING) << "Another sender has taken over id " << identifier
+                    << " for " << controllerName_;
+      return NOT_FOUND;
+    }
     sender = std::move(it->second);
     sendersMap_.erase(it);
     --numSenders_;
@@ -474,7 +480,8 @@ ErrorCode WdtResourceController::createReceiver(
 }
 
 ErrorCode WdtResourceController::releaseSender(const std::string& wdtNamespace,
-                                               const std::string& identifier) {
+                                               const std::string& identifier,
+                                               const Sender* expected) {
   NamespaceControllerPtr controller = nullptr;
   {
     controller = getNamespaceController(wdtNamespace);
@@ -483,7 +490,7 @@ ErrorCode WdtResourceController::releaseSender(const std::string& wdtNamespace,
       return ERROR;
     }
   }
-  if (controller->releaseSender(identifier) == OK) {
+  if (controller->releaseSender(identifier, expected) == OK) {
     GuardLock lock(controllerMutex_);
     --numSenders_;
     return OK;
diff --git a/WdtResourceController.h b/WdtResourceController.h
index 1e593c8..f534ae4 100644
--- a/WdtResourceController.h
+++ b/WdtResourceController.h
@@ -88,8 +88,9 @@ class WdtNamespaceController : public WdtControllerBase {
   /// Delete a receiver from this namespace
   ErrorCode releaseReceiver(const std::string& identifier);
 
-  /// Delete a sender from this namespace
-  ErrorCode releaseSender(const std::string& identifier);
+  /// Delete a sender from this namespace, if expected is set only that one
+  ErrorCode releaseSender(const std::string& identifier,
+                          const Sender* expected = nullptr);
 
   /// Releases all senders in this namespace
   int64_t releaseAllSenders();
@@ -172,9 +173,11 @@ class WdtResourceController : public WdtControllerBase {
                            const WdtTransferRequest& request,
                            ReceiverPtr& receiver);
 
-  /// Release a sender specified with namespace and identifier
+  /// Release a sender specified with namespace and identifier. If expected is
+  /// set, nothing happens when the identifier now belongs to another sender
   ErrorCode releaseSender(const std::string& wdtNamespace,
-                          const std::string& identifier);
+                          const std::string& identifier,
+                          const Sender* expected = nullptr);
 
   /// Release a receiver specified with namespace and identifier
   ErrorCode releaseReceiver(const std::string& wdtNamespace,
-- 
2.43.0


From 22076b25c859a0f02aaa48d74517d40cab2c547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 41/70] fix: print a throttler's rates under its lock

---
 Throttler.cpp | 1 +
 Throttler.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/Throttler.cpp b/Throttler.cpp
index b1ea3ab..fb7e501 100644
--- a/Throttler.cpp
+++ b/Throttler.cpp
@@ -276,6 +276,7 @@ void Throttler::setThrottlerLogTimeMillis(int64_t throttlerLogTimeMillis) {
 }
 
 std::ostream& operator<<(std::ostream& stream, const Throttler& throttler) {
+  std::unique_lock lock(throttler.throttlerMutex_);
   stream << "avgRate: " << throttler.avgRatePerSec_
          << ", peakRate: " << throttler.bucketRatePerSec_
          << ", bucketLimit: " << throttler.tokenBucketLimit_
diff --git a/Throttler.h b/Throttler.h
index 8199684..ee86f01 100644
--- a/Throttler.h
+++ b/Throttler.h
@@ -188,7 +188,7 @@ class Throttler {
   /// Number of tokens in the bucket
   double tokenBucket_;
   /// Controls the access across threads
-  folly::SpinLock throttlerMutex_;
+  mutable folly::SpinLock throttlerMutex_;
   /// Number of users of this throttler
   int64_t refCount_{0};
   /// The average rate expected
-- 
2.43.0


From 9fab00368f6e064809c9459948ff24636a21f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 42/70] fix: merged counters have the minimum and maximum of
 both

---
 util/Stats.cpp | 15 +++++++++++----
 util/Stats.h   |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/util/Stats.cpp b/util/Stats.cpp
index 5a4d504..469b720 100644
--- a/util/Stats.cpp
+++ b/util/Stats.cpp
@@ -69,14 +69,21 @@ void Counter::record(int64_t v) {
 }
 
 void Counter::merge(const Counter& c) {
-  // merge count_, min_, max_, sum_, sumOfSquares_;
-  count_ += c.count_;
-  if (c.min_ && c.min_ < min_) {
+  // merge count_, realMin_, min_, max_, sum_, sumOfSquares_;
+  if (c.count_ == 0) {
+    return;
+  }
+  // 0s don't count in the min, see record()
+  if (c.min_ && ((min_ == 0) || (c.min_ < min_))) {
     min_ = c.min_;
   }
-  if (c.max_ > max_) {
+  if (count_ == 0 || c.realMin_ < realMin_) {
+    realMin_ = c.realMin_;
+  }
+  if (count_ == 0 || c.max_ > max_) {
     max_ = c.max_;
   }
+  count_ += c.count_;
   sum_ += c.sum_;
   sumOfSquares_ += c.sumOfSquares_;
 }
diff --git a/util/Stats.h b/util/Stats.h
index 82b4347..95907c5 100644
--- a/util/Stats.h
+++ b/util/Stats.h
@@ -205,7 +205,7 @@ class Counter : crashifcopied {
    * resets all the data (not quite thread safe - see ThreadLocalHistogram)
    */
   inline void reset() {
-    count_ = min_ = max_ = sum_ = sumOfSquares_ = 0;
+    count_ = realMin_ = min_ = max_ = sum_ = sumOfSquares_ = 0;
   }
 
   /**
-- 
2.43.0


From cd872dfe721497798adaa425c53be044b53b0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 43/70] fix: percentiles of negative values stay within the
 data

---
 util/Stats.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/Stats.cpp b/util/Stats.cpp
index 469b720..f5576a3 100644
--- a/util/Stats.cpp
+++ b/util/Stats.cpp
@@ -180,14 +180,13 @@ double Histogram::calcPercentile(double percentile) const {
   if (percentile <= 0) {
     return getRealMin();
   }
-  // Initial value of prev should in theory be offset_
-  // but if the data is wrong (smaller than offset - eg 'negative') that
-  // yields to strangeness (see one bucket test)
-  int64_t prev = 0;
   int64_t total = 0;
   const int64_t ctrTotal = getCount();
   const int64_t ctrMax = getMax();
   const int64_t ctrMin = getRealMin();
+  // The first bucket also has everything smaller than offset_ (see one bucket
+  // test), so it starts at the smallest value
+  int64_t prev = ctrMin;
   double prevPerc = 0;
   double perc = 0;
   bool found = false;
-- 
2.43.0


From 247061fcdc4c1c71c5fe8461a171f01c1f4d50d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 44/70] fix: periodic statistics keep the scale they were given

---
 util/Stats.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/Stats.h b/util/Stats.h
index 95907c5..b98e0e8 100644
--- a/util/Stats.h
+++ b/util/Stats.h
@@ -469,7 +469,7 @@ class ThreadLocalSwapableNode : public SwapableNode {
  public:
   explicit ThreadLocalSwapableNode(const P& param,
                                    std::function<void(const C&)> func = nullptr)
-      : param_(param), func_(func) {
+      : param_(param), aggregated_(param), func_(func) {
     // Note: Logging crashes for static historgrams (which should be avoided)
     VLOG(100) << "new ThreadLocalSwapableNode " << this;
   }
@@ -534,7 +534,7 @@ class ThreadLocalSwapableNode : public SwapableNode {
   void process() override {
     // If we have a callback function, give it the fully aggregated results.
     if (func_ != nullptr) {
-      C merged;
+      C merged(param_);
       mergeAndReset(!getActiveIndex(), merged);
       func_(merged);
     }
-- 
2.43.0


From a6dbefbb1941e841aa6a5427937ecd0c4c681224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 45/70] fix: performance report minimum of every call type

---
 Reporting.cpp | 1 +
 Reporting.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 78ebfb2..0cca280 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -372,6 +372,7 @@ PerfStatReport::PerfStatReport(const WdtOptions& options) {
       "Mismatch between number of stat types and number of descriptions");
   networkTimeoutMillis_ =
       std::min<int>(options.read_timeout_millis, options.write_timeout_millis);
+  std::fill_n(minValueMicros_, kNumTypes_, std::numeric_limits<int64_t>::max());
 }
 
 /**
diff --git a/Reporting.h b/Reporting.h
index 44cae92..1f565b0 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -589,7 +589,7 @@ class PerfStatReport {
   /// max time for different stat types
   int64_t maxValueMicros_[kNumTypes_] = {0};
   /// min time for different stat types
-  int64_t minValueMicros_[kNumTypes_] = {std::numeric_limits<int64_t>::max()};
+  int64_t minValueMicros_[kNumTypes_];
   /// number of records for different stat types
   int64_t count_[kNumTypes_] = {0};
   /// sum of all records for different stat types
-- 
2.43.0


From 7fe4bb90515ebd9bfb6315705e29d0a1a80d2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 46/70] fix: performance report shows the percentiles of few
 calls

---
 Reporting.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 0cca280..7541f3c 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -466,9 +466,9 @@ std::ostream& operator<<(std::ostream& os, const PerfStatReport& statReport) {
     int currentBucketIndex = 0;
 
     int64_t runningCount = 0;
-    int64_t p50Count = statReport.count_[i] * 0.50;
-    int64_t p95Count = statReport.count_[i] * 0.95;
-    int64_t p99Count = statReport.count_[i] * 0.99;
+    int64_t p50Count = std::max<int64_t>(1, statReport.count_[i] * 0.50);
+    int64_t p95Count = std::max<int64_t>(1, statReport.count_[i] * 0.95);
+    int64_t p99Count = std::max<int64_t>(1, statReport.count_[i] * 0.99);
 
     for (auto time : timesInMillis) {
       WDT_CHECK(time >= 0) << time;
-- 
2.43.0


From bc56e9ad4e647fe4a3997582b18a391d0e6d3b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 47/70] fix: a resized file that disappeared does not
 invalidate the whole log

---
 util/TransferLogManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index b090251..03142f1 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -891,6 +891,11 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
                 << seqId << " " << fileSize;
     return INVALID_LOG;
   }
+  if (invalidSeqIds_.find(seqId) != invalidSeqIds_.end()) {
+    WLOG(INFO) << "Resize entry for an invalid sequence-id " << seqId
+               << ", ignoring";
+    return OK;
+  }
   auto it = fileInfoMap_.find(seqId);
   if (it == fileInfoMap_.end()) {
     WLOG(ERROR) << "File resize entry for unknown sequence-id " << seqId << " "
-- 
2.43.0


From cc96babde0d54e787544d6385ec9165ce23f0aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 48/70] fix: a block end beyond 64 bits in a log

---
 util/TransferLogManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 03142f1..3c54b0a 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -959,7 +959,8 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
   }
   FileChunksInfo& chunksInfo = it->second;
   // check whether the block is within disk size
-  if (offset + blockSize > chunksInfo.getFileSize()) {
+  if (blockSize > chunksInfo.getFileSize() ||
+      offset > chunksInfo.getFileSize() - blockSize) {
     WLOG(ERROR) << "Block end point is greater than file size in disk "
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
-- 
2.43.0


From bd0df7f13e3800c4bd7cf5dec78f5810bddba56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 49/70] fix: a sequence id used again after an invalidation
 keeps no old size in the log parser

---
 util/TransferLogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 3c54b0a..e6fdb97 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -999,6 +999,7 @@ ErrorCode LogParser::processFileInvalidationEntry(char* buf, int64_t size) {
     return INVALID_LOG;
   }
   fileInfoMap_.erase(seqId);
+  seqIdToSizeMap_.erase(seqId);
   invalidSeqIds_.erase(seqId);
   return OK;
 }
-- 
2.43.0


From 183357ad8479065d351c40d35960bcfeaf24abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 50/70] fix: failing to write a directory invalidation entry
 does not abort

---
 util/TransferLogManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index e6fdb97..84d3748 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -464,9 +464,9 @@ void TransferLogManager::invalidateDirectory() {
         << "Disk write error while writing directory invalidation entry "
         << written << " " << size;
     closeLog();
+    return;
   }
   fsyncLog();
-  return;
 }
 
 void TransferLogManager::writeLogHeader() {
-- 
2.43.0


From 7393e22d29364b0c4c8b0028edc4c369ddffc096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 51/70] fix: printing a log entry with an impossible timestamp
 reads no uninitialised memory

---
 util/TransferLogManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 84d3748..5c3d56c 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -756,7 +756,7 @@ string LogParser::getFormattedTimestamp(int64_t timestampMicros) {
   int microseconds = timestampMicros - seconds * kMicroToSec;
   // need 25 bytes to encode date in format mm/dd/yy HH:MM:SS.MMMMMM
   char buf[25];
-  struct tm tm;
+  struct tm tm = {};
   localtime_r(&seconds, &tm);
   snprintf(buf, sizeof(buf), "%02d/%02d/%02d %02d:%02d:%02d.%06d",
            tm.tm_mon + 1, tm.tm_mday, (tm.tm_year % 100), tm.tm_hour, tm.tm_min,
-- 
2.43.0


From 84812d6a437038be8b522b711c7ae2604ea961c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 52/70] fix: no deletion of extra files when the negotiated
 version lacks it

---
 Sender.cpp                  | 4 ++++
 util/DirectorySourceQueue.h | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/Sender.cpp b/Sender.cpp
index 948247b..10537d1 100644
--- a/Sender.cpp
+++ b/Sender.cpp
@@ -118,6 +118,10 @@ void Sender::setFileChunksInfo(
     WLOG(WARNING) << "File chunks list received multiple times";
     return;
   }
+  if (getProtocolVersion() < Protocol::DELETE_CMD_VERSION) {
+    // a lower version than the one we started with could have been negotiated
+    dirQueue_->disableFileDeletion();
+  }
   dirQueue_->setPreviouslyReceivedChunks(fileChunksInfoList);
   fileChunksReceived_ = true;
 }
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index 9f48a2b..e354876 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -149,6 +149,12 @@ class DirectorySourceQueue : public SourceQueue {
     deleteFiles_ = true;
   }
 
+  /// disable extra file deletion, the receiver turned out not to support it
+  void disableFileDeletion() {
+    std::lock_guard<std::mutex> lock(mutex_);
+    deleteFiles_ = false;
+  }
+
   /**
    * Stat the FileInfo input files (if their size aren't already specified) and
    * insert them in the queue
-- 
2.43.0


From dc02db09b3be4af2e326fe4fee1ccfd9e5cdb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 53/70] fix: sources returned without a checkpoint leave no
 checkpoint behind

---
 util/ThreadTransferHistory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 1624b40..16b1287 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -135,7 +135,11 @@ void ThreadTransferHistory::returnUnackedSourcesToQueue() {
   std::unique_lock<std::mutex> lock(mutex_);
   Checkpoint checkpoint;
   checkpoint.numBlocks = numAcknowledged_;
+  // this is not a checkpoint of the receiver, so later ones are not to be
+  // compared with it, and it is not to be compared with earlier ones
+  auto lastCheckpoint = std::move(lastCheckpoint_);
   setCheckpointAndReturnToQueue(checkpoint, false);
+  lastCheckpoint_ = std::move(lastCheckpoint);
 }
 
 ErrorCode ThreadTransferHistory::validateCheckpoint(
-- 
2.43.0


From 840788c604057805e566e6b8854ab364b833e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 54/70] fix: checkpoints of receivers without block sequence
 ids can be about different blocks

---
 util/ThreadTransferHistory.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 16b1287..b812f99 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -84,6 +84,10 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
   if (errCode == INVALID_CHECKPOINT) {
     return INVALID_CHECKPOINT;
   }
+  const bool isRepeated = lastCheckpoint_ != nullptr &&
+                          checkpoint.numBlocks == lastCheckpoint_->numBlocks &&
+                          checkpoint.lastBlockReceivedBytes ==
+                              lastCheckpoint_->lastBlockReceivedBytes;
   globalCheckpoint_ |= globalCheckpoint;
   lastCheckpoint_ = std::make_unique<Checkpoint>(checkpoint);
   int64_t numFailedSources = historySize - numReceivedSources;
@@ -101,8 +105,11 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
   for (int64_t i = 0; i < numFailedSources; i++) {
     std::unique_ptr<ByteSource> source = std::move(history_.back());
     history_.pop_back();
+    // without seq-id, the same checkpoint again is about an earlier block
     const Checkpoint* checkpointPtr =
-        (i == numFailedSources - 1 ? &checkpoint : nullptr);
+        (i == numFailedSources - 1 && (checkpoint.hasSeqId || !isRepeated)
+             ? &checkpoint
+             : nullptr);
     markSourceAsFailed(source, checkpointPtr);
     sourcesToReturn.emplace_back(std::move(source));
   }
@@ -164,6 +171,10 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
     // same block
     if (checkpoint.lastBlockReceivedBytes !=
         lastCheckpoint_->lastBlockReceivedBytes) {
+      if (!checkpoint.hasSeqId) {
+        // Receiver at lower version, this is the checkpoint of another block
+        return OK;
+      }
       WLOG(ERROR) << "Current checkpoint has different received bytes, but all "
                      "other fields are same, Last checkpoint "
                   << *lastCheckpoint_ << ", Current checkpoint: " << checkpoint;
-- 
2.43.0


From 490984beb94c0ad2caff3ff3690a1f53df48c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 55/70] fix: a global checkpoint that can not be applied fails
 the sender thread

---
 SenderThread.cpp               | 6 +++++-
 util/ThreadTransferHistory.cpp | 6 +++---
 util/ThreadTransferHistory.h   | 5 +++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 03229be..9a54614 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -840,7 +840,11 @@ SenderState SenderThread::processErrCmd() {
   }
   for (auto& checkpoint : checkpoints) {
     WTLOG(INFO) << "Received global checkpoint " << checkpoint;
-    transferHistoryController_->handleGlobalCheckpoint(checkpoint);
+    if (transferHistoryController_->handleGlobalCheckpoint(checkpoint) != OK) {
+      // blocks it is about would never be sent again
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
   }
   return SEND_BLOCKS;
 }
diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index b812f99..b51ed09 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -297,17 +297,17 @@ ErrorCode TransferHistoryController::handleVersionMismatch() {
   return OK;
 }
 
-void TransferHistoryController::handleGlobalCheckpoint(
+ErrorCode TransferHistoryController::handleGlobalCheckpoint(
     const Checkpoint& checkpoint) {
   auto errPort = checkpoint.port;
   auto it = threadHistoriesMap_.find(errPort);
   if (it == threadHistoriesMap_.end()) {
     WLOG(ERROR) << "Invalid checkpoint " << checkpoint
                 << ". No sender thread running on port " << errPort;
-    return;
+    return INVALID_CHECKPOINT;
   }
   WVLOG(1) << "received global checkpoint " << checkpoint;
-  it->second->setGlobalCheckpoint(checkpoint);
+  return it->second->setGlobalCheckpoint(checkpoint);
 }
 }  // namespace wdt
 }  // namespace facebook
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index 5afcc45..040d59e 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -155,8 +155,9 @@ class TransferHistoryController {
   /// Handle version mismatch across the histories of all thread
   ErrorCode handleVersionMismatch();
 
-  /// Handle checkpoint that was sent by the receiver
-  void handleGlobalCheckpoint(const Checkpoint& checkpoint);
+  /// Handle checkpoint that was sent by the receiver, returns
+  /// INVALID_CHECKPOINT if it can not be applied
+  ErrorCode handleGlobalCheckpoint(const Checkpoint& checkpoint);
 
  private:
   /// Reference to the directory queue being used by the sender
-- 
2.43.0


From 5c2a9d935e3c2d2cc07c296cfcb3a507fa1a7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 56/70] fix: a global checkpoint about the sender's own
 connection is a protocol error

---
 SenderThread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 9a54614..dcafcce 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -840,6 +840,12 @@ SenderState SenderThread::processErrCmd() {
   }
   for (auto& checkpoint : checkpoints) {
     WTLOG(INFO) << "Received global checkpoint " << checkpoint;
+    if (checkpoint.port == port_) {
+      // would wait for itself
+      WTLOG(ERROR) << "Received global checkpoint for own port " << checkpoint;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
     if (transferHistoryController_->handleGlobalCheckpoint(checkpoint) != OK) {
       // blocks it is about would never be sent again
       threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
-- 
2.43.0


From b1600a04a2f12e0f7926c690446cbbfe9b411605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 57/70] fix: a read does not wait for an encryption tag behind
 the data it has

---
 util/WdtSocket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 5db1369..f07b892 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -273,6 +273,11 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
         return ret;
       }
       WDT_CHECK_EQ(nextTagOffset, ret);
+      if (!tryFull) {
+        // The tag is only sent with the data after it, which may never come.
+        // It will get read during next read
+        return ret;
+      }
       numRead = ret;
     }
     WDT_CHECK_EQ(0, totalRead_ % readTagInterval_);
@@ -365,8 +370,8 @@ int WdtSocket::readWithTimeout(char* buf, int nbyte, int timeoutMs,
       return (numRead > 0 ? numRead : ret);
     }
     numRead += ret;
-    if (ret < toRead) {
-      // couldn't read full data
+    if (ret < toRead || !tryFull) {
+      // couldn't read full data, or do not have to wait for more
       return numRead;
     }
   }
-- 
2.43.0


From bd65ab186e52adc1c066bd98a3bbf61b03ac1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 58/70] fix: files that could not be discovered are not deleted
 at the receiver

---
 util/DirectorySourceQueue.cpp | 8 ++++++++
 util/DirectorySourceQueue.h   | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 71ca9e8..4eb67cc 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -219,8 +219,10 @@ bool DirectorySourceQueue::buildQueueSynchronously() {
       fileInfo_.insert(fileInfo_.end(), files->begin(), files->end());
     }
   }
+  const bool aborted = threadCtx_->getAbortChecker()->shouldAbort();
   {
     std::lock_guard<std::mutex> lock(mutex_);
+    discoveryAborted_ = aborted;
     initFinished_ = true;
     enqueueFilesToBeDeleted();
     // TODO: comment why
@@ -671,6 +673,12 @@ void DirectorySourceQueue::enqueueFilesToBeDeleted() {
     // not yet been received, return
     return;
   }
+  if (discoveryAborted_ || !failedDirectories_.empty() ||
+      !failedSourceStats_.empty()) {
+    // files that could not be discovered are not extra files
+    WLOG(ERROR) << "Discovery is not complete, not deleting extra files";
+    return;
+  }
   std::set<std::string> discoveredFiles;
   for (const SourceMetaData* metadata : sharedFileData_) {
     discoveredFiles.insert(metadata->relPath);
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index e354876..38b11f2 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -350,6 +350,9 @@ class DirectorySourceQueue : public SourceQueue {
   /// Indicates whether call to init() has finished
   bool initFinished_{false};
 
+  /// Indicates whether init() ended because of an abort
+  bool discoveryAborted_{false};
+
   struct SourceComparator {
     bool operator()(const std::unique_ptr<ByteSource>& source1,
                     const std::unique_ptr<ByteSource>& source2) {
-- 
2.43.0


From d87eec014da65c145b3493597925c83a8354fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 59/70] fix: a file that became smaller does not invalidate the
 whole transfer log

---
 util/TransferLogManager.cpp | 12 ++++++++++--
 util/TransferLogManager.h   |  8 ++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 5c3d56c..d5ce7ce 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -868,6 +868,12 @@ ErrorCode LogParser::processFileCreationEntry(char* buf, int64_t size) {
   return OK;
 }
 
+void LogParser::invalidateSeqId(int64_t seqId) {
+  fileInfoMap_.erase(seqId);
+  seqIdToSizeMap_.erase(seqId);
+  invalidSeqIds_.insert(seqId);
+}
+
 ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
   if (!headerParsed_) {
     WLOG(ERROR)
@@ -917,7 +923,8 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
     WLOG(ERROR) << "Size on the disk is less than the resized size for "
                 << fileName << " seq-id " << seqId << " disk-size "
                 << chunksInfo.getFileSize() << " resized-size " << fileSize;
-    return INVALID_LOG;
+    invalidateSeqId(seqId);
+    return OK;
   }
   sizeIt->second = fileSize;
   return OK;
@@ -965,7 +972,8 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
                 << " file size in disk " << chunksInfo.getFileSize();
-    return INVALID_LOG;
+    invalidateSeqId(seqId);
+    return OK;
   }
   chunksInfo.addChunk(Interval(offset, offset + blockSize));
   return OK;
diff --git a/util/TransferLogManager.h b/util/TransferLogManager.h
index 92fc5a0..4c20b4d 100644
--- a/util/TransferLogManager.h
+++ b/util/TransferLogManager.h
@@ -349,6 +349,14 @@ class LogParser {
    */
   bool writeFileInvalidationEntries(int fd, const std::set<int64_t>& seqIds);
 
+  /**
+   * Drops what the log says about a seq-id. An invalidation entry is written
+   * for it once the parsing is done
+   *
+   * @param seqId     seq-id of the file
+   */
+  void invalidateSeqId(int64_t seqId);
+
   ErrorCode processHeaderEntry(char* buf, int64_t max, int64_t size,
                                std::string& senderIp);
 
-- 
2.43.0


From 6b4b7549cd9c466635074da0df8b7e36fc5ce3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 60/70] fix: a file named like the transfer log does not
 overwrite the receiver's log

---
 Receiver.cpp                  |  3 +--
 ReceiverThread.cpp            |  7 +++++++
 util/DirectorySourceQueue.cpp |  8 ++++++++
 util/TransferLogManager.h     | 19 +++++++++++++++++++
 4 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/Receiver.cpp b/Receiver.cpp
index c624cde..2c2a300 100644
--- a/Receiver.cpp
+++ b/Receiver.cpp
@@ -53,8 +53,7 @@ void Receiver::traverseDestinationDir(
   dirQueue.buildQueueSynchronously();
   auto& discoveredFilesInfo = dirQueue.getDiscoveredFilesMetaData();
   for (auto& fileInfo : discoveredFilesInfo) {
-    if (fileInfo->relPath == kWdtLogName ||
-        fileInfo->relPath == kWdtBuggyLogName) {
+    if (isTransferLog(fileInfo->relPath)) {
       // do not include wdt log files
       WVLOG(1) << "Removing " << fileInfo->relPath
                << " from the list of existing files";
diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 0fb9907..a5d12b5 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -524,6 +524,13 @@ ReceiverState ReceiverThread::processFileCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  if (options_.enable_download_resumption &&
+      isTransferLog(blockDetails.fileName)) {
+    WTLOG(ERROR) << "File would overwrite our transfer log "
+                 << blockDetails.fileName;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (blockDetails.allocationStatus == TO_BE_DELETED &&
       (blockDetails.fileSize != 0 || blockDetails.dataSize != 0)) {
     WTLOG(ERROR) << "Invalid file header, file to be deleted, but "
diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 4eb67cc..7c8462b 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -11,6 +11,7 @@
 #include <unistd.h>
 #include <wdt/Protocol.h>
 #include <wdt/util/DirectorySourceQueue.h>
+#include <wdt/util/TransferLogManager.h>
 
 #include <algorithm>
 #include <regex>
@@ -405,6 +406,13 @@ bool DirectorySourceQueue::explore() {
           if (!isSelected(newRelativePath)) {
             continue;
           }
+          if (threadCtx_->getOptions().enable_download_resumption &&
+              isTransferLog(newRelativePath)) {
+            // log of the transfer this directory was received with, the
+            // receiver of this transfer has its own
+            WLOG(INFO) << "Skipping transfer log " << newFullPath;
+            continue;
+          }
           WdtFileInfo fileInfo(newRelativePath, fileStat.st_size, directReads_);
           createIntoQueue(newFullPath, fileInfo);
           continue;
diff --git a/util/TransferLogManager.h b/util/TransferLogManager.h
index 4c20b4d..12ac94d 100644
--- a/util/TransferLogManager.h
+++ b/util/TransferLogManager.h
@@ -10,6 +10,7 @@
 #include <wdt/Protocol.h>
 #include <wdt/WdtOptions.h>
 
+#include <algorithm>
 #include <condition_variable>
 #include <iostream>
 #include <map>
@@ -42,6 +43,24 @@ namespace wdt {
 
 constexpr char kWdtLogName[] = ".wdt.log";
 constexpr char kWdtBuggyLogName[] = ".wdt.log.bug";
+
+/// @return   whether a relative path is that of a transfer log
+inline bool isTransferLog(const std::string &relPath) {
+  std::string name;
+  size_t start = 0;
+  while (start <= relPath.size()) {
+    size_t end = std::min(relPath.find('/', start), relPath.size());
+    const std::string part = relPath.substr(start, end - start);
+    if (!part.empty() && part != ".") {
+      if (!name.empty()) {
+        return false;
+      }
+      name = part;
+    }
+    start = end + 1;
+  }
+  return name == kWdtLogName || name == kWdtBuggyLogName;
+}
 /**
  * class responsible for encoding and decoding transfer log entries
  */
-- 
2.43.0


From c9a82fc79ad8e25808144ec876efbf5ab0141a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 61/70] fix: a file that could not be found out about is not
 taken off the number of transferred files

---
 util/DirectorySourceQueue.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 7c8462b..ec0f359 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -267,6 +267,8 @@ void DirectorySourceQueue::addFailedSource(const string& relativePath) {
   failedSourceStat.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
   std::lock_guard<std::mutex> lock(mutex_);
   failedSourceStats_.emplace_back(std::move(failedSourceStat));
+  // reports take the failed files off the number of files found
+  numEntries_++;
 }
 
 bool DirectorySourceQueue::explore() {
@@ -615,14 +617,7 @@ bool DirectorySourceQueue::enqueueFiles(std::vector<WdtFileInfo>& fileInfo) {
       struct stat fileStat;
       if (stat(fullPath.c_str(), &fileStat) != 0) {
         WPLOG(ERROR) << "stat failed on path " << fullPath;
-
-        TransferStats failedSourceStat(info.fileName);
-        failedSourceStat.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
-        {
-          std::unique_lock<std::mutex> lock(mutex_);
-          failedSourceStats_.emplace_back(std::move(failedSourceStat));
-        }
-
+        addFailedSource(info.fileName);
         return false;
       }
       info.fileSize = fileStat.st_size;
-- 
2.43.0


From c8d6d204b655f31e152a40c311d94e34d643c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 62/70] fix: the header of a block that arrived in part is not
 counted twice

---
 ReceiverThread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index a5d12b5..a48dca2 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -557,7 +557,7 @@ ReceiverState ReceiverThread::processFileCmd() {
       // valid
       checkpoint_.setLastBlockDetails(blockDetails.seqId, blockDetails.offset,
                                       writer.getTotalWritten());
-      threadStats_.addEffectiveBytes(headerBytes, writer.getTotalWritten());
+      threadStats_.addEffectiveBytes(0, writer.getTotalWritten());
     }
   });
 
-- 
2.43.0


From 47cb0bd3b8e1166fad1885c1a0b17cc2bc763aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 63/70] fix: bytes written before a connection broke are
 counted as sent

---
 SenderThread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index dcafcce..4f61ddb 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -393,6 +393,10 @@ TransferStats SenderThread::sendOneByteSource(
       throttlerInstanceBytes = 0;
     }
     written = socket_->write(buffer, size, /* retry writes */ true);
+    if (written > 0) {
+      // the receiver may keep what arrived before a failure
+      stats.addDataBytes(written);
+    }
     if (getThreadAbortCode() != OK) {
       WTLOG(ERROR) << "Transfer aborted during block transfer "
                    << socket_->getPort() << " " << source->getIdentifier();
@@ -409,7 +413,6 @@ TransferStats SenderThread::sendOneByteSource(
       stats.incrFailedAttempts();
       return stats;
     }
-    stats.addDataBytes(written);
     actualSize += written;
   }
   if (actualSize != expectedSize) {
-- 
2.43.0


From a0f3809383387462bbaa0d24907a26335eacbf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:46 +0000
Subject: [PATCH 64/70] fix: a chunk list that cannot be right is refused by
 the sender

---
 SenderThread.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 4f61ddb..7b1d102 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -513,6 +513,23 @@ SenderState SenderThread::checkForAbort() {
   return PROCESS_ABORT_CMD;
 }
 
+/// chunks received are in order, apart from each other and within the file
+static bool isValidFileChunksInfo(const FileChunksInfo& fileChunksInfo) {
+  if (fileChunksInfo.getSeqId() >= std::numeric_limits<int64_t>::max() / 2) {
+    // new files get higher sequence ids
+    return false;
+  }
+  int64_t prevEnd = 0;
+  for (const auto& chunk : fileChunksInfo.getChunks()) {
+    if (chunk.start_ < prevEnd || chunk.end_ < chunk.start_ ||
+        chunk.end_ > fileChunksInfo.getFileSize()) {
+      return false;
+    }
+    prevEnd = chunk.end_;
+  }
+  return true;
+}
+
 SenderState SenderThread::readFileChunks() {
   WTLOG(INFO) << "entered READ_FILE_CHUNKS state ";
   int64_t numRead = socket_->read(buf_, 1);
@@ -625,6 +642,13 @@ SenderState SenderThread::readFileChunks() {
       return END;
     }
   }
+  for (const auto& fileChunksInfo : fileChunksInfoList) {
+    if (!isValidFileChunksInfo(fileChunksInfo)) {
+      WTLOG(ERROR) << "Impossible file chunks " << fileChunksInfo;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
+  }
   wdtParent_->setFileChunksInfo(fileChunksInfoList);
   // send ack for file chunks list
   buf_[0] = Protocol::ACK_CMD;
-- 
2.43.0


From 5d146240dd936d486798b978288e88c21afb840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:46 +0000
Subject: [PATCH 65/70] fix: a version mismatch no thread could settle ends the
 transfer, not the process

---
 SenderThread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 7b1d102..41e9dc4 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -967,7 +967,11 @@ SenderState SenderThread::processVersionMismatch() {
             negotiatedProtocol = threadProtocolVersion;
           }
         }
-        WDT_CHECK_GT(negotiatedProtocol, 0);
+        if (negotiatedProtocol <= 0) {
+          WTLOG(ERROR) << "No thread could negotiate a protocol version";
+          execFunnel->notifySuccess();
+          return END;
+        }
         WLOG_IF(INFO, negotiatedProtocol != threadProtocolVersion_)
             << *this << " Changing protocol version to " << negotiatedProtocol
             << ", previous version " << threadProtocolVersion_;
-- 
2.43.0


From 8a56d5add2f0919213e10e5cc36c75daf50ed467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:46 +0000
Subject: [PATCH 66/70] fix: sender threads with the global checkpoints of each
 other wait for each other

---
 SenderThread.cpp               | 7 +++++++
 util/ThreadTransferHistory.cpp | 5 +++++
 util/ThreadTransferHistory.h   | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 41e9dc4..ef9ffe8 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -865,6 +865,9 @@ SenderState SenderThread::processErrCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return END;
   }
+  // This thread is not sending while it waits for the others. Threads that got
+  // the checkpoints of each other must not wait for each other.
+  transferHistory.markNotInUse();
   for (auto& checkpoint : checkpoints) {
     WTLOG(INFO) << "Received global checkpoint " << checkpoint;
     if (checkpoint.port == port_) {
@@ -879,6 +882,7 @@ SenderState SenderThread::processErrCmd() {
       return END;
     }
   }
+  transferHistory.markInUse();
   return SEND_BLOCKS;
 }
 
@@ -940,7 +944,10 @@ SenderState SenderThread::processVersionMismatch() {
   // Need a barrier here to make sure all the negotiated protocol versions
   // have been collected
   auto barrier = controller_->getBarrier(VERSION_MISMATCH_BARRIER);
+  // A thread waiting for this one has to get to the barrier, too
+  getTransferHistory().markNotInUse();
   barrier->execute();
+  getTransferHistory().markInUse();
   WTVLOG(1) << "cleared the protocol version barrier";
   auto execFunnel = controller_->getFunnel(VERSION_MISMATCH_FUNNEL);
   while (true) {
diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index b51ed09..566a37b 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -263,6 +263,11 @@ void ThreadTransferHistory::markNotInUse() {
   conditionInUse_.notify_all();
 }
 
+void ThreadTransferHistory::markInUse() {
+  std::lock_guard<std::mutex> lock(mutex_);
+  inUse_ = true;
+}
+
 TransferHistoryController::TransferHistoryController(
     DirectorySourceQueue& dirQueue)
     : dirQueue_(dirQueue) {
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index 040d59e..b5676b4 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -78,6 +78,9 @@ class ThreadTransferHistory {
   /// Clears the inUse_ flag and notifies other waiting threads
   void markNotInUse();
 
+  /// Sets the inUse_ flag again
+  void markInUse();
+
   /// Copy constructor deleted
   ThreadTransferHistory(const ThreadTransferHistory& that) = delete;
 
-- 
2.43.0


From c57e1ee26297c1e6332bbcd7cd43472d4bc49acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 67/70] fix: the encryption key is not logged when a url can
 not be parsed

---
 WdtTransferRequest.cpp   | 66 ++++++++++++++++++++++++++++------------
 WdtTransferRequest.h     |  3 ++
 util/EncryptionUtils.cpp | 14 ++++++---
 wdtCmdLine.cpp           |  5 +--
 4 files changed, 61 insertions(+), 27 deletions(-)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index 9df1993..aea4c99 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -76,6 +76,26 @@ string WdtUri::escape(const string& binaryStr) {
   return res;
 }
 
+/* static */
+string WdtUri::logSafe(StringPiece str) {
+  const size_t kMaxHexDigits = 8;
+  string res, hex;
+  auto addHex = [&]() {
+    res += hex.size() > kMaxHexDigits ? "..." : hex;
+    hex.clear();
+  };
+  for (char c : str) {
+    if (isxdigit(static_cast<unsigned char>(c))) {
+      hex.push_back(c);
+      continue;
+    }
+    addHex();
+    res.push_back(c);
+  }
+  addHex();
+  return res;
+}
+
 /* static */
 bool WdtUri::unescape(string& res, StringPiece escapedValue) {
   res.reserve(res.length() + escapedValue.size());
@@ -88,14 +108,14 @@ bool WdtUri::unescape(string& res, StringPiece escapedValue) {
     i += 2;
     // Make sure there room for both hex
     if (i >= escapedValue.size()) {
-      WLOG(ERROR) << "Can't decode \"" << escapedValue
+      WLOG(ERROR) << "Can't decode \"" << logSafe(escapedValue)
                   << "\" end with unfinished % sequence";
       return false;
     }
     const int msb = fromHex(escapedValue[i - 1]);
     const int lsb = fromHex(escapedValue[i]);
     if (msb < 0 || lsb < 0) {
-      WLOG(ERROR) << "Can't decode \"" << escapedValue
+      WLOG(ERROR) << "Can't decode \"" << logSafe(escapedValue)
                   << "\" % sequence with non 0-9a-f characters";
       return false;
     }
@@ -135,12 +155,12 @@ ErrorCode WdtUri::process(const string& url) {
   StringPiece urlPiece(url, 0, WDT_URL_PREFIX.size());
   StringPiece wdtPrefix(WDT_URL_PREFIX);
   if (urlPiece != wdtPrefix) {
-    WLOG(ERROR) << "Url does not specify wdt protocol " << url;
+    WLOG(ERROR) << "Url does not specify wdt protocol " << logSafe(url);
     return URI_PARSE_ERROR;
   }
   urlPiece = StringPiece(url, WDT_URL_PREFIX.size());
   if (urlPiece.empty()) {
-    WLOG(ERROR) << "Empty host name " << url;
+    WLOG(ERROR) << "Empty host name " << logSafe(url);
     return URI_PARSE_ERROR;
   }
   ErrorCode status = OK;
@@ -149,7 +169,7 @@ ErrorCode WdtUri::process(const string& url) {
     urlPiece.advance(1);
     size_t hostNameEnd = urlPiece.find(']');
     if (hostNameEnd == string::npos) {
-      WLOG(ERROR) << "Didn't find ] for ipv6 address " << url;
+      WLOG(ERROR) << "Didn't find ] for ipv6 address " << logSafe(url);
       return URI_PARSE_ERROR;
     }
     hostName_.assign(urlPiece.data(), hostNameEnd);
@@ -170,7 +190,7 @@ ErrorCode WdtUri::process(const string& url) {
 
   if (hostName_.empty()) {
     status = URI_PARSE_ERROR;
-    WLOG(ERROR) << "Empty hostname " << url;
+    WLOG(ERROR) << "Empty hostname " << logSafe(url);
   }
 
   if (urlPiece.empty()) {
@@ -189,7 +209,7 @@ ErrorCode WdtUri::process(const string& url) {
       portStr.assign(urlPiece.data(), paramsIndex);
       port_ = folly::to<int32_t>(portStr);
     } catch (std::exception&) {
-      WLOG(ERROR) << "Invalid port, can't be parsed " << url;
+      WLOG(ERROR) << "Invalid port, can't be parsed " << logSafe(url);
       status = URI_PARSE_ERROR;
     }
     urlPiece.advance(paramsIndex);
@@ -215,7 +235,7 @@ ErrorCode WdtUri::process(const string& url) {
     StringPiece value = keyValuePair;
     if (key.empty()) {
       // Value can be empty but key can't be empty
-      WLOG(ERROR) << "Errors parsing params, url = " << url;
+      WLOG(ERROR) << "Errors parsing params, url = " << logSafe(url);
       status = URI_PARSE_ERROR;
       break;
     }
@@ -309,8 +329,8 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
   if (!encStr.empty()) {
     ErrorCode code = EncryptionParams::unserialize(encStr, encryptionData);
     if (code != OK) {
-      WLOG(ERROR) << "Unable to parse encryption data from \"" << encStr
-                  << "\" " << errorCodeToStr(code);
+      WLOG(ERROR) << "Unable to parse encryption data from \""
+                  << WdtUri::logSafe(encStr) << "\" " << errorCodeToStr(code);
       errorCode = getMoreInterestingError(code, errorCode);
     }
   }
@@ -321,7 +341,8 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
       tls = folly::to<bool>(tlsEnabled);
     }
   } catch (std::exception& e) {
-    WLOG(ERROR) << "Error parsing tls " << tlsEnabled << " " << e.what();
+    WLOG(ERROR) << "Error parsing tls " << WdtUri::logSafe(tlsEnabled) << " "
+                << WdtUri::logSafe(e.what());
     errorCode = URI_PARSE_ERROR;
   }
 
@@ -331,8 +352,9 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
       downloadResumptionEnabled = folly::to<bool>(downloadResume);
     }
   } catch (std::exception& e) {
-    WLOG(ERROR) << "Error parsing download resume " << downloadResume << " "
-                << e.what();
+    WLOG(ERROR) << "Error parsing download resume "
+                << WdtUri::logSafe(downloadResume) << " "
+                << WdtUri::logSafe(e.what());
     errorCode = URI_PARSE_ERROR;
   }
 
@@ -344,8 +366,9 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
       protocolVersion = folly::to<int64_t>(recpv);
     } catch (std::exception& e) {
       WLOG(ERROR) << "Error parsing protocol version "
-                  << wdtUri.getQueryParam(RECEIVER_PROTOCOL_VERSION_PARAM)
-                  << " " << e.what();
+                  << WdtUri::logSafe(
+                         wdtUri.getQueryParam(RECEIVER_PROTOCOL_VERSION_PARAM))
+                  << " " << WdtUri::logSafe(e.what());
       errorCode = URI_PARSE_ERROR;
     }
   }
@@ -358,8 +381,9 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
     try {
       ivChangeInterval = folly::to<int64_t>(ivChangeIntervalStr);
     } catch (std::exception& e) {
-      WLOG(ERROR) << "Error parsing iv change interval " << ivChangeIntervalStr
-                  << " " << e.what();
+      WLOG(ERROR) << "Error parsing iv change interval "
+                  << WdtUri::logSafe(ivChangeIntervalStr)
+                  << " " << WdtUri::logSafe(e.what());
       errorCode = URI_PARSE_ERROR;
     }
   }
@@ -374,7 +398,7 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
         port = folly::to<int32_t>(portNum);
         ports.push_back(port);
       } catch (std::exception&) {
-        WLOG(ERROR) << "Couldn't convert " << portNum
+        WLOG(ERROR) << "Couldn't convert " << WdtUri::logSafe(portNum)
                     << " to valid port number";
         errorCode = URI_PARSE_ERROR;
       }
@@ -396,7 +420,8 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
       try {
         startPort = folly::to<int32_t>(startPortStr);
       } catch (std::exception&) {
-        WLOG(ERROR) << "Couldn't convert start port " << startPortStr;
+        WLOG(ERROR) << "Couldn't convert start port "
+                    << WdtUri::logSafe(startPortStr);
         errorCode = URI_PARSE_ERROR;
       }
     }
@@ -409,7 +434,8 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
     try {
       numPorts = folly::to<int32_t>(numPortsStr);
     } catch (std::exception&) {
-      WLOG(ERROR) << "Couldn't convert num ports " << numPortsStr;
+      WLOG(ERROR) << "Couldn't convert num ports "
+                  << WdtUri::logSafe(numPortsStr);
       errorCode = URI_PARSE_ERROR;
     }
   }
diff --git a/WdtTransferRequest.h b/WdtTransferRequest.h
index c4fcb32..c304689 100644
--- a/WdtTransferRequest.h
+++ b/WdtTransferRequest.h
@@ -100,6 +100,9 @@ class WdtUri {
   /// Url unescape a value (escaped by escape()) - returns true if successful,
   /// false if there is a malformed % sequence in the string
   static bool unescape(std::string& result, folly::StringPiece escapedValue);
+  /// What can be logged of a url or of a part of it even if it is malformed:
+  /// long hex sequences (the encryption key) are left out
+  static std::string logSafe(folly::StringPiece str);
   /// 0-16 -> '0'-'f'
   static char toHex(unsigned char v);
   /// '0'-'f' -> 0-16
diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index 010b3e2..7585f93 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -131,7 +131,8 @@ ErrorCode EncryptionParams::unserialize(const string& input,
       // In type section (before ':')
       if (c == ':') {
         if (type == 0) {
-          WLOG(ERROR) << "Enc type still none when ':' reached " << input;
+          WLOG(ERROR) << "Enc type still none when ':' reached "
+                      << WdtUri::logSafe(input);
           return ERROR;
         }
         state = FIRST_HEX;
@@ -140,7 +141,8 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     }
     int v = WdtUri::fromHex(c);
     if (v < 0) {
-      WLOG(ERROR) << "Not hex found " << (int)c << " in " << input;
+      WLOG(ERROR) << "Not hex found " << (int)c << " in "
+                  << WdtUri::logSafe(input);
       return ERROR;
     }
     if (state == IN_TYPE) {
@@ -164,12 +166,14 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     byte = 0;  // not needed but safer
   }
   if (state == IN_TYPE) {
-    WLOG(ERROR) << "Missing ':' in encryption data " << input;
+    WLOG(ERROR) << "Missing ':' in encryption data "
+                << WdtUri::logSafe(input);
     return ERROR;
   }
   if (state != LEFT_HEX) {
-    WLOG(ERROR) << "Odd number of hex in encryption data " << input
-                << " decoded up to: " << out.data_;
+    WLOG(ERROR) << "Odd number of hex in encryption data "
+                << WdtUri::logSafe(input)
+                << " decoded up to: " << out.data_.size();
     return ERROR;
   }
   if (type <= ENC_NONE || type >= NUM_ENC_TYPES) {
diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 600665e..8c46103 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -281,8 +281,9 @@ int main(int argc, char* argv[]) {
   } else {
     reqPtr = std::make_unique<facebook::wdt::WdtTransferRequest>(connectUrl);
     if (reqPtr->errorCode != facebook::wdt::OK) {
-      WLOG(ERROR) << "Invalid url \"" << connectUrl
-                  << "\" : " << errorCodeToStr(reqPtr->errorCode);
+      WLOG(ERROR) << "Invalid url \""
+                  << facebook::wdt::WdtUri::logSafe(connectUrl) << "\" : "
+                  << errorCodeToStr(reqPtr->errorCode);
       return facebook::wdt::ERROR;
     }
     reqPtr->directory = FLAGS_directory;
-- 
2.43.0


From 9e27ec138cf8de2bca1c16f66a599d466231ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:13 +0000
Subject: [PATCH 68/70] fix: a manifest that can not be read is an error, not
 an empty transfer

---
 wdtCmdLine.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 8c46103..4cfb94c 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -140,7 +140,8 @@ void cancelAbort() {
   std::this_thread::yield();
 }
 
-void readManifest(std::istream& fin, facebook::wdt::WdtTransferRequest& req,
+// returns false if the manifest could not be read
+bool readManifest(std::istream& fin, facebook::wdt::WdtTransferRequest& req,
                   bool dfltDirect) {
   std::string line;
   while (std::getline(fin, line)) {
@@ -154,6 +155,7 @@ void readManifest(std::istream& fin, facebook::wdt::WdtTransferRequest& req,
     req.fileInfo.emplace_back(fields[0], filesize, odirect);
   }
   req.disableDirectoryTraversal = true;
+  return fin.eof() && !fin.bad();
 }
 
 namespace GFLAGS_NAMESPACE {
@@ -362,13 +364,18 @@ int main(int argc, char* argv[]) {
     if (!FLAGS_manifest.empty()) {
       // Each line should have the filename and optionally
       // the filesize separated by a single space
+      bool manifestRead;
       if (FLAGS_manifest == "-") {
-        readManifest(std::cin, req, options.odirect_reads);
+        manifestRead = readManifest(std::cin, req, options.odirect_reads);
       } else {
         std::ifstream fin(FLAGS_manifest);
-        readManifest(fin, req, options.odirect_reads);
+        manifestRead = readManifest(fin, req, options.odirect_reads);
         fin.close();
       }
+      if (!manifestRead) {
+        WLOG(ERROR) << "Unable to read manifest " << FLAGS_manifest;
+        return facebook::wdt::ERROR;
+      }
       WLOG(INFO) << "Using files lists, number of files "
                  << req.fileInfo.size();
     }
-- 
2.43.0


From 4c2e2b1d1fdfe4ba1693d871a09454062c8cea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 69/70] fix: the url is printed when the receiver goes on with
 fewer ports

---
 wdtCmdLine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 4cfb94c..c564284 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -324,6 +324,8 @@ int main(int argc, char* argv[]) {
         return facebook::wdt::FEWER_PORTS;
       }
       retCode = facebook::wdt::OK;
+      // the url with the ports we did get is what the sender needs
+      augmentedReq.errorCode = facebook::wdt::OK;
     } else if (augmentedReq.errorCode != facebook::wdt::OK) {
       WLOG(ERROR) << "Error setting up receiver " << errorCodeToStr(retCode);
       return retCode;
-- 
2.43.0


From 93a17836892f9b45989d11fc9798505638bbd31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:24 +0000
Subject: [PATCH 70/70] fix: a receiver thread without its port has the port in
 its checkpoint

---
 ReceiverThread.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index a48dca2..c812bd9 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -1111,11 +1111,14 @@ ErrorCode ReceiverThread::init() {
       break;
     }
   }
-  if (socket_->listen() != OK) {
+  const ErrorCode code = socket_->listen();
+  // also without the port the sender learns from our checkpoint that nothing
+  // was received on it
+  checkpoint_.port = socket_->getPort();
+  if (code != OK) {
     WTLOG(ERROR) << "Couldn't listen on port " << socket_->getPort();
     return ERROR;
   }
-  checkpoint_.port = socket_->getPort();
   WTLOG(INFO) << "Listening on port " << socket_->getPort();
   return OK;
 }
-- 
2.43.0

