From dcb4c8345e967525433ccec02984f75ce8367c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:15 +0000
Subject: [PATCH 01/20] fix: reject a delta whose custom code table is invalid

---
 src/vcdecoder.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 6cba7f7..c8e4f12 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -843,7 +843,16 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadCustomCodeTable(
   // Skip over the consumed data.
   data->FinishExcept(custom_code_table_decoder_->GetUnconsumedDataSize());
   custom_code_table_decoder_.reset();
-  delta_window_.UseCodeTable(*custom_code_table_, addr_cache_->LastMode());
+  // Check the cache sizes first, because LastMode() depends on them.
+  if (!addr_cache_->Init()) {
+    VCD_DFATAL << "Error initializing address cache" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
+  if (!delta_window_.UseCodeTable(*custom_code_table_,
+                                  addr_cache_->LastMode())) {
+    VCD_ERROR << "Custom code table is not valid" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
   return RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 4b1f8ae287722c7d46b9be53294b20614ee6ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:15 +0000
Subject: [PATCH 02/20] fix: forget a custom code table when the decoder is
 reset

---
 src/decodetable.h | 6 ++++++
 src/vcdecoder.cc  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/decodetable.h b/src/decodetable.h
index 2bcad09..ee02ba2 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -51,6 +51,12 @@ class VCDiffCodeTableReader {
   bool UseCodeTable(const VCDiffCodeTableData& code_table_data,
                     unsigned char max_mode);
 
+  // Reverts to the default code table, as after construction.
+  //
+  void UseDefaultCodeTable() {
+    code_table_data_ = &VCDiffCodeTableData::kDefaultCodeTableData;
+  }
+
   // Defines the buffer containing the instructions and sizes.
   // This method must be called before GetNextInstruction() may be used.
   // Init() may be called any number of times to reset the state of
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index c8e4f12..eee15b4 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -118,6 +118,8 @@ class VCDiffDeltaFileWindow {
     return reader_.UseCodeTable(code_table_data, max_mode);
   }
 
+  void UseDefaultCodeTable() { reader_.UseDefaultCodeTable(); }
+
   // Decodes a single delta window using the input data from *parseable_chunk.
   // Appends the decoded target window to parent_->decoded_target().  Returns
   // RESULT_SUCCESS if an entire window was decoded, or RESULT_END_OF_DATA if
@@ -645,6 +647,7 @@ void VCDiffStreamingDecoderImpl::Reset() {
   custom_code_table_.reset();
   custom_code_table_decoder_.reset();
   delta_window_.Reset();
+  delta_window_.UseDefaultCodeTable();
   decoded_target_output_position_ = 0;
 }
 
-- 
2.43.0


From b9218bb715d460db42cfd5c3bfc7d9e67e729340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:16 +0000
Subject: [PATCH 03/20] fix: report excess interleaved data even if it has not
 arrived yet

---
 src/vcdecoder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index eee15b4..97c29f4 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1344,6 +1344,13 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
   } else {
     // Interleaved format is being used.
     UpdateInstructionPointer(parseable_chunk);
+    if (MoreDataExpected()) {
+      // The rest of the window body has not arrived yet, but the target window
+      // is already complete.
+      VCD_ERROR << "Excess interleaved data left over "
+                   "after decoding target window" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
   }
   return RESULT_SUCCESS;
 }
-- 
2.43.0


From d827b9a9ec0c0eae751b486c1259c112fe9f551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:16 +0000
Subject: [PATCH 04/20] fix: report the unused second instruction of a window's
 last opcode

---
 src/decodetable.h | 7 +++++++
 src/vcdecoder.cc  | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decodetable.h b/src/decodetable.h
index ee02ba2..68de667 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -104,6 +104,13 @@ class VCDiffCodeTableReader {
   //
   VCDiffInstructionType GetNextInstruction(int32_t* size, unsigned char* mode);
 
+  // Returns true if the most recently read opcode contains a second instruction
+  // that has not been returned by GetNextInstruction() yet.
+  //
+  bool HasPendingInstruction() const {
+    return pending_second_instruction_ != kNoOpcode;
+  }
+
   // Puts a single instruction back onto the front of the
   // instruction stream.  The next call to GetNextInstruction()
   // will return the same value that was returned by the last
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 97c29f4..5eccc8f 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1320,7 +1320,7 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
                  "that the wrong dictionary was used" << VCD_ENDL;
     return RESULT_ERROR;
   }
-  if (!instructions_and_sizes_.Empty()) {
+  if (reader_.HasPendingInstruction() || !instructions_and_sizes_.Empty()) {
     VCD_ERROR << "Excess instructions and sizes left over "
                  "after decoding target window" << VCD_ENDL;
       return RESULT_ERROR;
-- 
2.43.0


From 08786acb6ec19c14f6535d3bc2322b74ff35b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:16 +0000
Subject: [PATCH 05/20] fix: do not recurse into nested custom code tables

---
 src/vcdecoder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 5eccc8f..005a2c1 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -740,6 +740,12 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadDeltaFileHeader(
     return RESULT_ERROR;
   }
   if (header->hdr_indicator & VCD_CODETABLE) {
+    if (HasPlannedTargetFileSize()) {
+      // This object is decoding the code table of an enclosing delta file,
+      // which has to use the default code table (RFC section 7).
+      VCD_ERROR << "Encoded code table uses a custom code table" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
     int bytes_parsed = InitCustomCodeTable(
         data->UnparsedData() + sizeof(DeltaFileHeader),
         data->End());
-- 
2.43.0


From fedb3abcfd05758fd2df14f216325dac37a3a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:16 +0000
Subject: [PATCH 06/20] fix: avoid underflow when the file size limit is
 lowered while decoding

---
 src/vcdecoder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 005a2c1..bcdae91 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -988,8 +988,10 @@ bool VCDiffStreamingDecoderImpl::TargetWindowWouldExceedSizeLimits(
       return true;
     }
   }
-  size_t remaining_maximum_target_bytes =
-      maximum_target_file_size_ - total_of_target_window_sizes_;
+  // The limit may have been lowered below the size already decoded.
+  const size_t remaining_maximum_target_bytes =
+      (maximum_target_file_size_ > total_of_target_window_sizes_) ?
+          maximum_target_file_size_ - total_of_target_window_sizes_ : 0;
   if (window_size > remaining_maximum_target_bytes) {
     VCD_ERROR << "Length of target window (" << window_size
               << " bytes) plus previous windows ("
-- 
2.43.0


From 51989d2d17d5afefed57b762197b4abc33897ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:56 +0000
Subject: [PATCH 07/20] fix: size the instruction map for opcodes whose first
 instruction is a NOOP

---
 src/instruction_map.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 326698c..519f317 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -15,6 +15,7 @@
 #include <config.h>
 #include "instruction_map.h"
 #include <string.h>  // memset
+#include <algorithm>  // std::max
 #include "addrcache.h"
 #include "vcdiff_defs.h"
 
@@ -151,7 +152,9 @@ VCDiffInstructionMap::VCDiffInstructionMap(
     const VCDiffCodeTableData& code_table_data,
     unsigned char max_mode)
     : first_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
-                             FindMaxSize(code_table_data.size1)),
+                             // size2 matters for opcodes with inst1 == NOOP
+                             std::max(FindMaxSize(code_table_data.size1),
+                                      FindMaxSize(code_table_data.size2))),
       second_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
                               FindMaxSize(code_table_data.size2)) {
   // First pass to fill up first_instruction_map_
-- 
2.43.0


From b3e1627e945fb206f1b1737a67bc3cfe358e21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:56 +0000
Subject: [PATCH 08/20] fix: avoid signed overflow when decoding a NEAR address

---
 src/addrcache.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index d309e58..bf9d577 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -121,7 +121,12 @@ class VCDiffAddressCache {
 
   VCDAddress DecodeNearAddress(unsigned char mode,
                                int32_t encoded_address) const {
-    return NearAddress(mode - FirstNearMode()) + encoded_address;
+    // Both operands are non-negative.  An unsigned addition cannot overflow;
+    // if the sum does not fit in a VCDAddress, the result is negative
+    // and DecodeAddress() will reject it.
+    return static_cast<VCDAddress>(
+        static_cast<uint32_t>(NearAddress(mode - FirstNearMode())) +
+        static_cast<uint32_t>(encoded_address));
   }
 
   VCDAddress DecodeSameAddress(unsigned char mode,
-- 
2.43.0


From abbeb4e4bb4cf98cbd3019bda66bfca52e6d37de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:56 +0000
Subject: [PATCH 09/20] fix: create the default instruction map in a
 thread-safe way

---
 src/instruction_map.cc | 11 ++++-------
 src/instruction_map.h  |  2 --
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 519f317..9ce929e 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -23,14 +23,11 @@ namespace open_vcdiff {
 
 // VCDiffInstructionMap members and methods
 
-VCDiffInstructionMap* VCDiffInstructionMap::default_instruction_map = NULL;
-
 VCDiffInstructionMap* VCDiffInstructionMap::GetDefaultInstructionMap() {
-  if (!default_instruction_map) {
-    default_instruction_map = new VCDiffInstructionMap(
-        VCDiffCodeTableData::kDefaultCodeTableData,
-        VCDiffAddressCache::DefaultLastMode());
-  }
+  // The initialization of a function-local static object is thread-safe.
+  static VCDiffInstructionMap* const default_instruction_map =
+      new VCDiffInstructionMap(VCDiffCodeTableData::kDefaultCodeTableData,
+                               VCDiffAddressCache::DefaultLastMode());
   return default_instruction_map;
 }
 
diff --git a/src/instruction_map.h b/src/instruction_map.h
index 489071e..ad8e9fc 100644
--- a/src/instruction_map.h
+++ b/src/instruction_map.h
@@ -195,8 +195,6 @@ class VCDiffInstructionMap {
     void operator=(const SecondInstructionMap&);
   } second_instruction_map_;
 
-  static VCDiffInstructionMap* default_instruction_map;
-
   // Making these private avoids implicit copy constructor & assignment operator
   VCDiffInstructionMap(const VCDiffInstructionMap&);  // NOLINT
   void operator=(const VCDiffInstructionMap&);
-- 
2.43.0


From 9036eb37a91e6ecdc011506a7a05ad39c390e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:56 +0000
Subject: [PATCH 10/20] fix: create the rolling hash table in a thread-safe way

---
 src/rolling_hash.h | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/rolling_hash.h b/src/rolling_hash.h
index 95c7edb..8b7d56d 100644
--- a/src/rolling_hash.h
+++ b/src/rolling_hash.h
@@ -96,10 +96,7 @@ class RollingHash {
   // Perform global initialization that is required in order to instantiate a
   // RollingHash.  This function *must* be called (preferably on startup) by any
   // program that uses a RollingHash.  It is harmless to call this function more
-  // than once.  It is not thread-safe, but calling it from two different
-  // threads at the same time can only cause a memory leak, not incorrect
-  // behavior.  Make sure to call it before spawning any threads that could use
-  // RollingHash.
+  // than once, and from more than one thread at the same time.
   static void Init();
 
   // Initialize hasher to maintain a window of the specified size.  You need an
@@ -153,6 +150,9 @@ class RollingHash {
   }
 
  private:
+  // Creates and populates remove_table_.  Called only once, by Init().
+  static bool CreateRemoveTable();
+
   // We keep a table that maps from any byte "b" to
   //    (- b * pow(kMult, window_size - 1)) % kBase
   static const uint32_t* remove_table_;
@@ -176,17 +176,18 @@ template<int window_size>
 void RollingHash<window_size>::Init() {
   VCD_COMPILE_ASSERT(window_size >= 2,
                      RollingHash_window_size_must_be_at_least_2);
+  // The initialization of a function-local static object is thread-safe.
+  static const bool initialized = CreateRemoveTable();
+  (void)initialized;
+}
+
+template<int window_size>
+bool RollingHash<window_size>::CreateRemoveTable() {
   if (remove_table_ == NULL) {
     // The new object is placed into a local pointer instead of directly into
-    // remove_table_, for two reasons:
-    //   1. remove_table_ is a pointer to const.  The table is populated using
-    //      the non-const local pointer and then assigned to the global const
-    //      pointer once it's ready.
-    //   2. No other thread will ever see remove_table_ pointing to a
-    //      partially-initialized table.  If two threads happen to call Init()
-    //      at the same time, two tables with the same contents may be created
-    //      (causing a memory leak), but the results will be consistent
-    //      no matter which of the two tables is used.
+    // remove_table_, because remove_table_ is a pointer to const.  The table is
+    // populated using the non-const local pointer and then assigned to the
+    // global const pointer once it's ready.
     uint32_t* new_remove_table = new uint32_t[256];
     // Compute multiplier.  Concisely, it is:
     //     pow(kMult, (window_size - 1)) % kBase,
@@ -224,6 +225,7 @@ void RollingHash<window_size>::Init() {
     }
     remove_table_ = new_remove_table;
   }
+  return true;
 }
 
 }  // namespace open_vcdiff
-- 
2.43.0


From bc987218a14cb6463abb9b0ba086c211bca1dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:36 +0000
Subject: [PATCH 11/20] fix: restore the initial state in
 VCDiffCodeTableWriter::Init

---
 src/encodetable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encodetable.cc b/src/encodetable.cc
index ce017de..0418c4a 100644
--- a/src/encodetable.cc
+++ b/src/encodetable.cc
@@ -114,8 +114,12 @@ bool VCDiffCodeTableWriter::Init(size_t dictionary_size) {
   if (!address_cache_.Init()) {
     return false;
   }
+  separate_data_for_add_and_run_.clear();
+  instructions_and_sizes_.clear();
+  separate_addresses_for_copy_.clear();
   target_length_ = 0;
   last_opcode_index_ = -1;
+  add_checksum_ = false;
   return true;
 }
 
-- 
2.43.0


From 8f7474dfc7e9c08aa0f31fda8c3144771df101fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:36 +0000
Subject: [PATCH 12/20] fix: restore the initial state in
 JSONCodeTableWriter::Init

---
 src/jsonwriter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index d4f2f33..be76d7d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -29,6 +29,7 @@ JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
 bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
   output_ = "[";
+  output_called_ = false;
   opcode_added_ = false;
   return true;
 }
-- 
2.43.0


From ac81dfb08b28a9da85d1124643571b93acd247d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:36 +0000
Subject: [PATCH 13/20] fix: escape the byte of a RUN instruction in JSON
 output

---
 src/jsonwriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index be76d7d..df15665 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -100,7 +100,7 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
     output_.push_back(',');
   }
   output_.push_back('\"');
-  output_.append(string(size, byte).data(), size);
+  JSONEscape(string(size, byte).data(), size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
 }
-- 
2.43.0


From 4be8e8a6ab78182571779164c6d1b5f8db7094a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:36 +0000
Subject: [PATCH 14/20] fix: do not loop forever on an empty input file

---
 src/vcdiff_main.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 41d1c17..77c19e2 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -278,8 +278,9 @@ bool VCDiffFileBasedCoder::OpenFileForReading(const string& file_name,
     }
     buffer_size = static_cast<size_t>(FLAGS_buffersize);
     if (file_size < buffer_size) {
-      // Allocate just enough memory to store the entire file
-      buffer_size = file_size;
+      // Allocate just enough memory to store the entire file, but at least one
+      // byte: reading into an empty buffer would never reach the end of file.
+      buffer_size = (file_size > 0) ? file_size : 1;
     }
   }
   buffer->resize(buffer_size);
-- 
2.43.0


From e15268582760c6f2d0b6b0fa02b4a3a0fd46d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:50 +0000
Subject: [PATCH 15/20] fix: report write errors that occur when the output
 file is flushed

---
 src/vcdiff_main.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 77c19e2..72a4632 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -144,6 +144,11 @@ class VCDiffFileBasedCoder {
   // true.  If an error occurs, writes an error log message and returns false.
   bool WriteOutput(const string& output);
 
+  // Makes sure that everything passed to WriteOutput() has been handed over
+  // to the operating system.  No more output can be written afterwards.
+  // Returns false if an error occurs, after writing an error log message.
+  bool FinishOutput();
+
   // Reads a number of bytes from output_file_ equal to the size of output,
   // and compares to make sure they match the contents of output.  If the bytes
   // do not match, or if end of file is reached before the expected number of
@@ -337,6 +342,19 @@ bool VCDiffFileBasedCoder::WriteOutput(const string& output) {
   return true;
 }
 
+bool VCDiffFileBasedCoder::FinishOutput() {
+  // Some of the output may still be buffered, so errors can show up here.
+  const bool is_stdout = (output_file_ == stdout);
+  const int result = is_stdout ? fflush(output_file_) : fclose(output_file_);
+  output_file_ = NULL;
+  if (result != 0) {
+    std::cerr << "Error writing to " << output_file_type_ << " file '"
+              << output_file_name_ << "': " << strerror(errno) << std::endl;
+    return false;
+  }
+  return true;
+}
+
 bool VCDiffFileBasedCoder::CompareOutput(const string& output) {
   if (!output.empty()) {
     size_t output_size = output.size();
@@ -434,7 +452,7 @@ bool VCDiffFileBasedCoder::Encode() {
     }
   } while (!feof(input_file_));
   encoder.FinishEncoding(&output);
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FinishOutput()) {
     return false;
   }
   output_size += output.size();
@@ -498,7 +516,7 @@ bool VCDiffFileBasedCoder::Decode() {
               << " may not be a valid VCDIFF delta file" << std::endl;
     return false;
   }
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FinishOutput()) {
     return false;
   }
   output_size += output.size();
-- 
2.43.0


From 28d619e8cfab7e97f8efbf2ec72ceff39d8ddd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:50 +0000
Subject: [PATCH 16/20] fix: reject windows with addresses that do not fit in a
 VCDAddress

---
 src/vcdecoder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index bcdae91..78b5459 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1114,6 +1114,13 @@ VCDiffResult VCDiffDeltaFileWindow::ReadHeader(
     // An error has been logged by TargetWindowWouldExceedSizeLimits().
     return RESULT_ERROR;
   }
+  if (source_segment_length_ >
+      VCDiffStreamingDecoderImpl::kTargetSizeLimit - target_window_length_) {
+    VCD_ERROR << "Length of source segment (" << source_segment_length_
+              << " bytes) plus target window (" << target_window_length_
+              << " bytes) exceeds the range of COPY addresses" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
   header_parser.ParseDeltaIndicator();
   VCDiffResult setup_return_code = SetUpWindowSections(&header_parser);
   if (RESULT_SUCCESS != setup_return_code) {
-- 
2.43.0


From 4594b2dc8b988138c5ccb44e6d33bbe3b4eb078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:22 +0000
Subject: [PATCH 17/20] fix: do not treat every mode as a SAME mode when the
 near cache has 254 slots

---
 src/addrcache.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index bf9d577..115886c 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -103,11 +103,13 @@ class VCDiffAddressCache {
   }
 
   bool IsNearMode(unsigned char mode) const {
-    return (mode >= FirstNearMode()) && (mode < FirstSameMode());
+    return (mode >= FirstNearMode()) &&
+           (mode < (FirstNearMode() + near_cache_size()));
   }
 
   bool IsSameMode(unsigned char mode) const {
-    return (mode >= FirstSameMode()) && (mode <= LastMode());
+    return (mode >= (FirstNearMode() + near_cache_size())) &&
+           (mode <= LastMode());
   }
 
   static VCDAddress DecodeSelfAddress(int32_t encoded_address) {
-- 
2.43.0


From 33dbe9029e56351de48509e91cbd6317dcf1f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:58 +0000
Subject: [PATCH 18/20] fix: make JSON copy offsets unambiguous when the target
 has several chunks

---
 src/google/jsonwriter.h | 12 +++++++++++-
 src/jsonwriter.cc       | 21 ++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/google/jsonwriter.h b/src/google/jsonwriter.h
index 54a2019..c446d42 100644
--- a/src/google/jsonwriter.h
+++ b/src/google/jsonwriter.h
@@ -33,7 +33,8 @@ namespace open_vcdiff {
 // * Each ADD is represented by a single JSON string containing
 //   the data to add.
 // * Each COPY is represented by two numbers. The first is an offset into
-//   the dictionary.  The second is a length.
+//   the dictionary followed by all of the target data that precedes the COPY.
+//   The second is a length.
 // * Each RUN is represented by a JSON string containing the data to add,
 //   similar to the ADD command.
 //
@@ -91,6 +92,15 @@ class JSONCodeTableWriter : public CodeTableWriterInterface {
 
   // Set if an opcode has been added.
   bool opcode_added_;
+
+  size_t dictionary_size_;
+
+  // The number of bytes of target data in the windows that have already been
+  // output, and in all windows including the current one.  COPY offsets beyond
+  // the dictionary are relative to the current window, but the JSON array does
+  // not show where a window begins.
+  size_t previous_windows_length_;
+  size_t target_length_;
 };
 
 }  // namespace open_vcdiff
diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index df15665..febb8d0 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -24,13 +24,20 @@
 namespace open_vcdiff {
 
 JSONCodeTableWriter::JSONCodeTableWriter()
-  : output_called_(false), opcode_added_(false) {}
+  : output_called_(false),
+    opcode_added_(false),
+    dictionary_size_(0),
+    previous_windows_length_(0),
+    target_length_(0) {}
 JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
-bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
+bool JSONCodeTableWriter::Init(size_t dictionary_size) {
   output_ = "[";
   output_called_ = false;
   opcode_added_ = false;
+  dictionary_size_ = dictionary_size;
+  previous_windows_length_ = 0;
+  target_length_ = 0;
   return true;
 }
 
@@ -38,6 +45,7 @@ void JSONCodeTableWriter::Output(OutputStringInterface* out) {
   output_called_ = true;
   out->append(output_.data(), output_.size());
   output_ = "";
+  previous_windows_length_ = target_length_;
 }
 
 void JSONCodeTableWriter::FinishEncoding(OutputStringInterface* out) {
@@ -81,6 +89,7 @@ void JSONCodeTableWriter::Add(const char* data, size_t size) {
   JSONEscape(data, size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_length_ += size;
 }
 
 void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
@@ -88,10 +97,15 @@ void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
   if (opcode_added_) {
     output_.push_back(',');
   }
+  size_t absolute_offset = offset;
+  if (absolute_offset >= dictionary_size_) {
+    absolute_offset += previous_windows_length_;
+  }
   std::ostringstream copy_code;
-  copy_code << offset << "," << size;
+  copy_code << absolute_offset << "," << size;
   output_.append(copy_code.str());
   opcode_added_ = true;
+  target_length_ += size;
 }
 
 void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
@@ -103,6 +117,7 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
   JSONEscape(string(size, byte).data(), size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_length_ += size;
 }
 
 void JSONCodeTableWriter::WriteHeader(OutputStringInterface *,
-- 
2.43.0


From c6a19bef5528118d5179d57ba98923c3510be4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 19/20] fix: refuse dictionaries and target chunks too large
 for 31-bit addresses

A dictionary of 2^31 bytes or more, or a chunk that makes the sum of both reach
2^31, made debug builds exit and release builds report success for a delta that
cannot be decoded.
---
 src/vcdiffengine.cc |  5 +++++
 src/vcdiffengine.h  | 13 +++++++++++++
 src/vcencoder.cc    |  5 +++++
 3 files changed, 23 insertions(+)

diff --git a/src/vcdiffengine.cc b/src/vcdiffengine.cc
index 0060867..16bd199 100644
--- a/src/vcdiffengine.cc
+++ b/src/vcdiffengine.cc
@@ -47,6 +47,11 @@ bool VCDiffEngine::Init() {
                << VCD_ENDL;
     return false;
   }
+  if (!CanEncodeTargetSize(0)) {
+    VCD_ERROR << "Dictionary size " << dictionary_size()
+              << " is too large" << VCD_ENDL;
+    return false;
+  }
   hashed_dictionary_ = BlockHash::CreateDictionaryHash(dictionary_,
                                                        dictionary_size());
   if (!hashed_dictionary_) {
diff --git a/src/vcdiffengine.h b/src/vcdiffengine.h
index 02ede2a..556535e 100644
--- a/src/vcdiffengine.h
+++ b/src/vcdiffengine.h
@@ -37,6 +37,12 @@ class VCDiffEngine {
   // aligned on block boundaries in the dictionary text.
   static const size_t kMinimumMatchSize = 32;
 
+  // The largest allowed sum of the dictionary size and the size of one chunk of
+  // target data.  Addresses and sizes are stored as 31-bit values; this limit
+  // leaves some room for the fields that are added to the target data in a
+  // delta window.
+  static const size_t kMaximumSourceAndTargetSize = 0x7FFFFFFF - 1024;
+
   VCDiffEngine(const char* dictionary, size_t dictionary_size);
 
   ~VCDiffEngine();
@@ -56,6 +62,13 @@ class VCDiffEngine {
 
   size_t dictionary_size() const { return dictionary_size_; }
 
+  // Returns true if target_size bytes of target data can be encoded in a single
+  // delta window using this dictionary.
+  bool CanEncodeTargetSize(size_t target_size) const {
+    return (dictionary_size_ <= kMaximumSourceAndTargetSize) &&
+           (target_size <= kMaximumSourceAndTargetSize - dictionary_size_);
+  }
+
   // Main worker function.  Finds the best matches between the dictionary
   // (source) and target data, and uses the coder to write a
   // delta file window into *diff.
diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index 7fe5a6a..8f16281 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -141,6 +141,11 @@ inline bool VCDiffStreamingEncoderImpl::EncodeChunk(
     VCD_ERROR << "EncodeChunk called before StartEncoding" << VCD_ENDL;
     return false;
   }
+  if (!engine_->CanEncodeTargetSize(len)) {
+    VCD_ERROR << "Target chunk size " << len << " plus dictionary size "
+              << engine_->dictionary_size() << " is too large" << VCD_ENDL;
+    return false;
+  }
   if (!coder_->VerifyChunk(data, len)) {
     VCD_ERROR << "Target chunk not valid for writer" << VCD_ENDL;
     return false;
-- 
2.43.0


From 0bdb48c7601504f40d3a697a824b6a1449513d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:27 +0000
Subject: [PATCH 20/20] fix: refuse to start encoding with a dictionary that
 has not been initialized

---
 src/vcdiffengine.h | 3 +++
 src/vcencoder.cc   | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/vcdiffengine.h b/src/vcdiffengine.h
index 556535e..2d0f6e6 100644
--- a/src/vcdiffengine.h
+++ b/src/vcdiffengine.h
@@ -58,6 +58,9 @@ class VCDiffEngine {
   // as non-const.
   bool Init();
 
+  // Returns true if Init() has been called successfully.
+  bool initialized() const { return hashed_dictionary_ != NULL; }
+
   const char *dictionary() const { return dictionary_; }
 
   size_t dictionary_size() const { return dictionary_size_; }
diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index 8f16281..557b97d 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -118,6 +118,11 @@ inline VCDiffStreamingEncoderImpl::VCDiffStreamingEncoderImpl(
 
 inline bool VCDiffStreamingEncoderImpl::StartEncoding(
     OutputStringInterface* out) {
+  if (!engine_->initialized()) {
+    VCD_DFATAL << "StartEncoding called before HashedDictionary::Init()"
+               << VCD_ENDL;
+    return false;
+  }
   if (!coder_->Init(engine_->dictionary_size())) {
     VCD_DFATAL << "Internal error: "
                   "Initialization of code table writer failed" << VCD_ENDL;
-- 
2.43.0

