From 40b1eecf55238037171ec6a813afe05878921f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:47 +0000
Subject: [PATCH 01/16] fix: allocate a history slot for every context of
 SimpleMarkov

The model is indexed with all values of UnsignedInt, but the array had room
for one less, so the context of all one-bits was read and written past the
end of the allocation.
---
 probmodels/ProbabilityModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 9db31af..3be8f78 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -88,7 +88,7 @@ template <typename UnsignedInt>
 SimpleMarkov<UnsignedInt>::SimpleMarkov() :
     m_prev(static_cast<UnsignedInt>(0)), m_history(0)
 {
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   m_history = new char[size];
   std::fill(m_history, m_history + size, 0);
 }
@@ -123,7 +123,7 @@ template <typename UnsignedInt>
 void SimpleMarkov<UnsignedInt>::resetModel() {
   /* Seems to work better when not resetting the model for different
    * contexts. */
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   std::fill(m_history, m_history + size, 0);
 }
 
-- 
2.43.0


From a2549cc6847a727cfaf20eec4cf98976a7419c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:47 +0000
Subject: [PATCH 02/16] fix: do not run precompression for blocks shorter than
 three bytes

PairReplacer requires length > 2, so compressing an input (or ending up with
a last block) of one or two bytes with --prepr p aborted.
---
 preprocessors/Precompressor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessors/Precompressor.cpp b/preprocessors/Precompressor.cpp
index 6cf3e3a..08907c3 100644
--- a/preprocessors/Precompressor.cpp
+++ b/preprocessors/Precompressor.cpp
@@ -69,7 +69,8 @@ void Precompressor::precompress(PrecompressorBlock& block) const {
 
   size_t roundsWithTempArray = 0;
 
-  if(m_preprocessingOptions.size() > 0) {
+  // PairReplacer needs at least three bytes to work with
+  if(m_preprocessingOptions.size() > 0 && length > 2) {
     size_t oldLength = length;
     bool useTempArray = false;
 
-- 
2.43.0


From d82954cd70bb2d8cf62272daefe0ff19b05175b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:00 +0000
Subject: [PATCH 03/16] fix: report failed writes instead of exiting
 successfully

The results of fwrite, fflush, fclose, fputc and fseek were ignored, so
writing to a full device lost data while the programs returned 0.
---
 Streams.cpp | 29 ++++++++++++++++++-----------
 Streams.hpp |  4 ++++
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index 7f9cd35..c878b90 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -62,29 +62,36 @@ RawOutStream::RawOutStream(const std::string& file_name)
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
-  if (m_filled > 0) {
-    flush();
-  }
+  flush();
   if (m_fileptr != stdout) {
-    fclose(m_fileptr);
+    if (fclose(m_fileptr) != 0) writeFailed();
   }
   delete[] m_buffer;
 }
 
+void RawOutStream::writeFailed() const {
+  perror(isStdout() ? "stdout" : m_name.c_str());
+  exit(1);
+}
+
+void RawOutStream::writeToFile(const byte *data, size_t size) {
+  if (fwrite(data, 1, size, m_fileptr) != size) writeFailed();
+}
+
 void RawOutStream::writeByte(byte b) {
   m_buffer[m_filled++] = b;
   if (m_filled == kBufferSize) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
 }
 
 void RawOutStream::flush() {
   if (m_filled > 0) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
-  fflush(m_fileptr);
+  if (fflush(m_fileptr) != 0) writeFailed();
 }
 
 long int RawOutStream::getPos() {
@@ -99,7 +106,7 @@ void RawOutStream::writeBlock(const byte *begin, const byte *end) {
     m_filled += size;
   } else {
     flush();
-    fwrite(begin, 1, size, m_fileptr);
+    writeToFile(begin, size);
   }
 }
 
@@ -108,12 +115,12 @@ void RawOutStream::write48bits(uint64 to_written, long int position) {
   flush();
   long int current = ftell(m_fileptr);
   // fseeking with negative offset from SEEK_CUR might be faster.
-  fseek(m_fileptr, position, SEEK_SET);
+  if (fseek(m_fileptr, position, SEEK_SET) != 0) writeFailed();
   for(int i = 5; i >= 0; --i) {
     byte b = 0xFF & (to_written >> i*8);
-    fputc(b, m_fileptr);
+    if (fputc(b, m_fileptr) == EOF) writeFailed();
   }
-  fseek(m_fileptr, current, SEEK_SET);
+  if (fseek(m_fileptr, current, SEEK_SET) != 0) writeFailed();
 }
 
 uint64 RawInStream::read48bits() {
diff --git a/Streams.hpp b/Streams.hpp
index 236c4c4..a325521 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -103,6 +103,10 @@ class RawOutStream : public OutStream {
   uint32 m_filled;
   byte *m_buffer;
 
+  void writeToFile(const byte *data, size_t size);
+  /* Reports the failure of the last file operation and exits. */
+  void writeFailed() const;
+
   RawOutStream& operator=(const RawOutStream& os);
   RawOutStream(const RawOutStream& os);
 };
-- 
2.43.0


From 699e03dab3b228e9394b16f003c98de585127dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 04/16] fix: patch block lengths correctly when output isn't
 seekable

write48bits seeks back to fill in the length of block. On pipes and in append
mode the seek has no effect and the six bytes ended up in the middle of the
compressed data, which made all but the first block unreadable. Collect such
output into a temporary file and copy it to its destination in the end.
---
 Streams.cpp | 27 +++++++++++++++++++++++++++
 Streams.hpp |  9 ++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/Streams.cpp b/Streams.cpp
index c878b90..0acd61d 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -25,7 +25,10 @@
  * Implementation for InStream and OutStream.
  */
 
+#include <fcntl.h>
+
 #include <cassert>
+#include <cstdlib>
 
 #include <fstream>
 #include <iostream>
@@ -56,6 +59,7 @@ RawOutStream::RawOutStream(const std::string& file_name)
   } else {
     m_fileptr = stdout;
   }
+  m_target = m_fileptr;
   m_filled = 0;
   assert(m_fileptr);
 }
@@ -63,6 +67,7 @@ RawOutStream::RawOutStream(const std::string& file_name)
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
   flush();
+  if (m_fileptr != m_target) copySpoolToTarget();
   if (m_fileptr != stdout) {
     if (fclose(m_fileptr) != 0) writeFailed();
   }
@@ -78,6 +83,24 @@ void RawOutStream::writeToFile(const byte *data, size_t size) {
   if (fwrite(data, 1, size, m_fileptr) != size) writeFailed();
 }
 
+bool RawOutStream::canRewrite() const {
+  if (ftell(m_fileptr) < 0) return false;
+  // In append mode everything goes to the end regardless of the position
+  return (fcntl(fileno(m_fileptr), F_GETFL) & O_APPEND) == 0;
+}
+
+void RawOutStream::copySpoolToTarget() {
+  FILE *spool = m_fileptr;
+  m_fileptr = m_target;
+  if (fseek(spool, 0, SEEK_SET) != 0) writeFailed();
+  size_t size;
+  while ((size = fread(m_buffer, 1, kBufferSize, spool)) > 0)
+    writeToFile(m_buffer, size);
+  if (ferror(spool)) writeFailed();
+  fclose(spool);
+  flush();
+}
+
 void RawOutStream::writeByte(byte b) {
   m_buffer[m_filled++] = b;
   if (m_filled == kBufferSize) {
@@ -96,6 +119,10 @@ void RawOutStream::flush() {
 
 long int RawOutStream::getPos() {
   flush();
+  if (m_fileptr == m_target && !canRewrite()) {
+    m_fileptr = tmpfile();
+    if (!m_fileptr) writeFailed();
+  }
   return ftell(m_fileptr);
 }
 
diff --git a/Streams.hpp b/Streams.hpp
index a325521..db74d23 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -89,8 +89,11 @@ class RawOutStream : public OutStream {
    */
   virtual void writeBlock(const byte *begin, const byte *end);
 
-  bool isStdout() const { return m_fileptr == stdout; }
+  bool isStdout() const { return m_target == stdout; }
 
+  /* Position to be used with write48bits. If the target doesn't support
+   * rewriting (it's a pipe, for example), then the rest of the output is
+   * collected into temporary file and copied to target in the end. */
   virtual long int getPos();
   virtual void write48bits(uint64 to_written, long int position);
   virtual void flush();
@@ -100,12 +103,16 @@ class RawOutStream : public OutStream {
 
   std::string m_name;
   FILE *m_fileptr;
+  /* Final destination, differs from m_fileptr only when using temporary file */
+  FILE *m_target;
   uint32 m_filled;
   byte *m_buffer;
 
   void writeToFile(const byte *data, size_t size);
   /* Reports the failure of the last file operation and exits. */
   void writeFailed() const;
+  bool canRewrite() const;
+  void copySpoolToTarget();
 
   RawOutStream& operator=(const RawOutStream& os);
   RawOutStream(const RawOutStream& os);
-- 
2.43.0


From ff737db3f1f4f472f52070eb37a397cafb44dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 05/16] fix: report failed reads instead of treating them as
 end of input

Compressing something unreadable (a directory, for example) produced an empty
archive and returned 0.
---
 Streams.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Streams.cpp b/Streams.cpp
index 0acd61d..1984c9e 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -202,6 +202,10 @@ int32 RawInStream::fetchByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
     m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    if (ferror(m_fileptr)) {
+      perror(isStdin() ? "stdin" : m_name.c_str());
+      exit(1);
+    }
     if (m_bigbuf_left <= 0) return EOF;
   }
   --m_bigbuf_left;
@@ -212,6 +216,10 @@ int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
     m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    if (ferror(m_fileptr)) {
+      perror(isStdin() ? "stdin" : m_name.c_str());
+      exit(1);
+    }
     if (m_bigbuf_left <= 0) return EOF;
   }
   return m_bigbuf[m_bigbuf_pos];
-- 
2.43.0


From 0beaf526debcbdc27298d79c690656c0fdad58a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:38 +0000
Subject: [PATCH 06/16] fix: drain the whole buffer after in-place pair
 replacement

Blocks of three and four bytes fit completely into the circular buffer and
the final consume() was limited to one byte less than the block, so the last
byte of such a block was lost.
---
 preprocessors/PairReplacer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 62ccd61..e2d31ae 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -359,7 +359,8 @@ writeReplacedVersion(byte *src, size_t length) const {
     }
     ++i;
   }
-  filled += buffer.consume(src + filled, i);
+  // The whole output may still be in the buffer when the block is tiny
+  filled += buffer.consume(src + filled, length);
   return filled;
 }
 
-- 
2.43.0


From fe435e6415584a66dc6c729ad7590c83e667b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:50 +0000
Subject: [PATCH 07/16] fix: keep block size within the limit of
 sliceIntoBlocks

With memory limits above 11.6GB the block size was capped to 0x7ffffffe, which
isn't accepted by sliceIntoBlocks. So for example -m 12000 aborted with every
non-empty input.
---
 Compressor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Compressor.cpp b/Compressor.cpp
index 0ca118a..3503e88 100644
--- a/Compressor.cpp
+++ b/Compressor.cpp
@@ -76,7 +76,7 @@ size_t Compressor::compress(size_t threads) {
    * enough to be on the safe side). */
   size_t pbBlockSize = static_cast<size_t>(m_options.memLimit*0.74);
   size_t bwtBlockSize = std::min(static_cast<size_t>(m_options.memLimit*0.185),
-                                 static_cast<size_t>(0x7fffffff - 1));
+                                 static_cast<size_t>(0x7fffffff - 2));
 
   if(m_precompressor.options().size() == 0) pbBlockSize = bwtBlockSize;
   
@@ -94,7 +94,7 @@ size_t Compressor::compress(size_t threads) {
      */
     if(pbBlockSize != bwtBlockSize) {
       size_t s = (m_options.memLimit - pb->size())/4.5;
-      bwtBlockSize = std::min(s,static_cast<size_t>(0x7fffffff - 1));
+      bwtBlockSize = std::min(s,static_cast<size_t>(0x7fffffff - 2));
     }
     
     pb->sliceIntoBlocks(bwtBlockSize);
-- 
2.43.0


From 22000a43640026ade8530560f88fa690af9e7f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:20 +0000
Subject: [PATCH 08/16] fix: reject block sizes and memory limits which
 overflow

The values are multiplied by 1024 and 1000000 without checking, so for example
preprocess --block 18014398509481984 used empty blocks and wrote an empty file
with exit status 0. Negative values are parsed as huge ones and get rejected too.
---
 compress.cpp   | 16 +++++++++++++++-
 preprocess.cpp | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/compress.cpp b/compress.cpp
index 97182a8..6363410 100644
--- a/compress.cpp
+++ b/compress.cpp
@@ -68,6 +68,19 @@ void validateStartingPoints(uint32 sp) {
   throw exc;
 }
 
+/* Notifier function for memory limit, which is given in megabytes */
+void validateMemoryLimit(uint64 mem) {
+  if (mem <= ~static_cast<uint64>(0)/1000000) return;
+
+  class MemoryExc : public std::exception {
+    virtual const char* what() const throw() {
+      return "Too large memory limit.";
+    }
+  } exc;
+
+  throw exc;
+}
+
 /* Notifier function for encoding option choice */
 void validateEncodingOption(char c) {
   if (c == 'H' || c == 'm' || c == 'M' || c == 'u' || c == 'b' || c == 'B'
@@ -110,7 +123,8 @@ int main(int argc, char** argv) {
         ("help,h", "print help message")
         ("stdin,i", "input from standard in")
         ("stdout,c", "output to standard out")
-        ("mem,m", po::value<uint64>(&mem)->default_value(100),
+        ("mem,m", po::value<uint64>(&mem)->default_value(100)->
+         notifier(&validateMemoryLimit),
          "Maximum memory to use (in MB)")
         ("starts,s", po::value<uint32>(&startingPoints)->default_value(8)->
          notifier(&validateStartingPoints),
diff --git a/preprocess.cpp b/preprocess.cpp
index 8514858..00d333b 100644
--- a/preprocess.cpp
+++ b/preprocess.cpp
@@ -110,6 +110,19 @@ void validatePreprocOption(const std::string& p) {
   }
 }
 
+/* Notifier function for block size, which is given in kilobytes */
+void validateBlockSize(uint64 block_size) {
+  if (block_size <= ~static_cast<uint64>(0)/1024) return;
+
+  class BlockSizeExc : public std::exception {
+    virtual const char* what() const throw() {
+      return "Too large block size.";
+    }
+  } exc;
+
+  throw exc;
+}
+
 int main(int argc, char** argv) {
   uint64 block_size;
   std::string input_name, output_name, preprocessing;
@@ -122,7 +135,8 @@ int main(int argc, char** argv) {
         ("help,h", "print help message")
         ("stdin,i", "input from standard in")
         ("stdout,c", "output to standard out")
-        ("block,b", po::value<uint64>(&block_size)->default_value(100000),
+        ("block,b", po::value<uint64>(&block_size)->default_value(100000)->
+         notifier(&validateBlockSize),
          "Block size for compression (in kB)")
         ("verb,v", po::value<int>(&verbosity)->default_value(0),
          "verbosity level")
-- 
2.43.0


From dd78a79e830de5a643af020232adf4169a8f660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:20 +0000
Subject: [PATCH 09/16] fix: check that memory for the block was really
 allocated

With large block size or memory limit malloc fails and the block was read into
null pointer.
---
 PrecompressorBlock.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index e74b5db..4690234 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -30,16 +30,26 @@
 #include "Utils.hpp"
 
 #include <cassert>
+#include <cstdio>
 #include <cstdlib>
 
 namespace bwtc {
 
+static byte* allocateBytes(size_t size) {
+  byte *data = (byte*)malloc(sizeof(byte)*size);
+  if(!data) {
+    fprintf(stderr,"Memory allocation error!\n");
+    exit(1);
+  }
+  return data;
+}
+
 PrecompressorBlock::PrecompressorBlock(size_t size)
-    : m_data((byte*)malloc(sizeof(byte)*(size+1))), m_used(0),
+    : m_data(allocateBytes(size+1)), m_used(0),
       m_originalSize(size), m_reserved(size+1) {}
 
 PrecompressorBlock::PrecompressorBlock(size_t maxSize, InStream* in)
-    : m_data((byte*)malloc(sizeof(byte)*(maxSize+1))), m_used(0),
+    : m_data(allocateBytes(maxSize+1)), m_used(0),
       m_originalSize(0), m_reserved(maxSize+1)
 {
   uint64 read = in->readBlock(m_data, maxSize);
-- 
2.43.0


From e3cfc0c2c629140eb07c07a77d881b2f1c924c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:45 +0000
Subject: [PATCH 10/16] fix: analyse the whole block in pair replacer when it
 is larger than 4 GB

The mask clearing the lowest bit of the length was only 32 bits wide, so only
the beginning of a larger block was analysed and symbols that occur in the rest
were taken as free.
---
 preprocessors/PairReplacer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index e2d31ae..75bd008 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -55,7 +55,7 @@ void PairReplacer::analyseData(const byte *data, size_t length, bool reset) {
   size_t i = 0;
   if(!m_analysationStarted) beginAnalysing(data[i++], reset);
 
-  for(; i < ((length-1) & 0xfffffffe); ++i) {
+  for(; i < ((length-1) & ~static_cast<size_t>(1)); ++i) {
     analyseData0(data[i]);
     analyseData(data[++i]);
   }
-- 
2.43.0


From c42e5c3c2557b5fca6598630697a4a9f6dfb7e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:23 +0000
Subject: [PATCH 11/16] fix: report truncated input instead of looping over
 missing bytes

Reading bits and bytes past the end of the input gave endless 0xff bytes, so
uncompress and postprocess never ended, or crashed, when the compressed file
was cut. A block cut from its beginning was silently skipped.
---
 HuffmanCoders.cpp      |  2 --
 PrecompressorBlock.cpp |  5 ++++-
 Streams.cpp            | 14 +++++++++++++-
 Streams.hpp            |  5 +++--
 WaveletCoders.cpp      |  2 --
 5 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/HuffmanCoders.cpp b/HuffmanCoders.cpp
index 5fcb2f0..7ac6e33 100644
--- a/HuffmanCoders.cpp
+++ b/HuffmanCoders.cpp
@@ -337,8 +337,6 @@ readBlockHeader(BWTBlock& block, std::vector<uint64>* stats, InStream* in) {
 
 void HuffmanDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("HuffmanDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
-
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
 
diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index 4690234..aa34173 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -123,7 +123,10 @@ readBlockHeader(InStream* in, MetaData metadata) {
     if(compressedSize != 0) {
       pb->grammar().readGrammar(in);
       uint64 read = in->readBlock(pb->begin(), compressedSize);
-      assert(read == compressedSize);
+      if(read != compressedSize) {
+        fprintf(stderr, "Unexpected end of input\n");
+        exit(1);
+      }
       pb->setSize(read);
     }
     return pb;
diff --git a/Streams.cpp b/Streams.cpp
index 1984c9e..bdf696f 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -154,7 +154,7 @@ uint64 RawInStream::read48bits() {
   uint64 result = 0;
   for(int i = 0; i < 6; ++i) {
     result <<= 8;
-    result |= static_cast<byte>(fetchByte());
+    result |= fetchExistingByte();
   }
   return result;
 }
@@ -212,6 +212,18 @@ int32 RawInStream::fetchByte() {
   return m_bigbuf[m_bigbuf_pos++];
 }
 
+/* The format tells where the data ends, so running out of bytes while
+ * reading single bits and bytes means that the input isn't complete. */
+byte RawInStream::fetchExistingByte() {
+  int32 c = fetchByte();
+  if (c == EOF) {
+    fprintf(stderr, "%s: Unexpected end of input\n",
+            isStdin() ? "stdin" : m_name.c_str());
+    exit(1);
+  }
+  return static_cast<byte>(c);
+}
+
 int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
diff --git a/Streams.hpp b/Streams.hpp
index db74d23..de26813 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -130,7 +130,7 @@ class RawInStream : public InStream {
 
   virtual inline bool readBit() {
     if (m_bitsInBuffer == 0) {
-      m_buffer = static_cast<byte>(fetchByte());
+      m_buffer = fetchExistingByte();
       m_bitsInBuffer = 8;
     }
     return (m_buffer >> --m_bitsInBuffer) & 1;
@@ -138,7 +138,7 @@ class RawInStream : public InStream {
 
   virtual inline byte readByte() {
     assert(m_bitsInBuffer < 8);
-    byte nextByte = static_cast<byte>(fetchByte());
+    byte nextByte = fetchExistingByte();
     m_buffer = (m_buffer << 8) | nextByte;
     return (m_buffer >> m_bitsInBuffer) & 0xff;
   }
@@ -175,6 +175,7 @@ class RawInStream : public InStream {
   uint32 m_bigbuf_pos;
 
   int fetchByte();
+  byte fetchExistingByte();
   int peekByte();
   RawInStream& operator=(const RawInStream& os);
   RawInStream(const RawInStream& os);
diff --git a/WaveletCoders.cpp b/WaveletCoders.cpp
index d647adc..d0d171f 100644
--- a/WaveletCoders.cpp
+++ b/WaveletCoders.cpp
@@ -245,8 +245,6 @@ WaveletDecoder::readBlockHeader(BWTBlock& block, std::vector<uint64>* stats,
 
 void WaveletDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("WaveletDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
-
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
 
-- 
2.43.0


From 4150c53c9ab1e239396261ec8a26a54d369e23bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:43 +0000
Subject: [PATCH 12/16] fix: free the initial root when the shape of a wavelet
 tree is read

Every decoded section leaked one node.
---
 WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index 6b3fa7b..1076444 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -422,6 +422,7 @@ size_t WaveletTree<BitVector>::readShape(Input& input) {
     codeLengths.push_back(std::make_pair(len, alphabet[i]));
   }
 
+  delete m_root;
   assignPrefixCodes(codeLengths);
   collectCodes(m_codes, m_root);
   
-- 
2.43.0


From 957b84b2105b96297d2ea6779f1e7655fa525630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:43 +0000
Subject: [PATCH 13/16] fix: count the total size of preprocessed data from its
 blocks

For an empty input the size reported was the wrapped negative block size.
---
 preprocess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocess.cpp b/preprocess.cpp
index 00d333b..299ff0b 100644
--- a/preprocess.cpp
+++ b/preprocess.cpp
@@ -72,7 +72,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
   bwtc::RawOutStream out(output_name);
 
   unsigned blocks = 0;
-  bwtc::uint64 last_s = 0;
+  bwtc::uint64 total_size = 0;
   while(bwtc::PrecompressorBlock* block = preprocessor.readBlock(block_size, &in)) {
     if(block->originalSize() == 0) {
       delete block;
@@ -84,7 +84,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
     block->writeBlockHeader(&out, PRECOMP_COMPRESSED_SIZE); 
     out.writeBlock(block->begin(), block->end());
 
-    last_s = block->originalSize();
+    total_size += block->originalSize();
     delete block;
   }
 
@@ -92,7 +92,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
   
   if (verbosity > 0) {
     std::clog << "Read " << blocks << " block" << ((blocks < 2)?"":"s") << "\n";
-    std::clog << "Total size: " << (blocks-1)*block_size + last_s << "B\n";
+    std::clog << "Total size: " << total_size << "B\n";
   }
 }
 
-- 
2.43.0


From 62d94a3979c5858bbf29cacf56cfb05d0a068020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:47 +0000
Subject: [PATCH 14/16] fix: report failed memory allocations instead of using
 their results

---
 PrecompressorBlock.cpp        | 8 ++++----
 Utils.hpp                     | 5 ++++-
 bwtransforms/Divsufsorter.hpp | 8 ++++++--
 bwtransforms/sais.hxx         | 3 +++
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index aa34173..3f03397 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -35,8 +35,8 @@
 
 namespace bwtc {
 
-static byte* allocateBytes(size_t size) {
-  byte *data = (byte*)malloc(sizeof(byte)*size);
+static byte* allocateBytes(size_t size, byte *old = 0) {
+  byte *data = (byte*)realloc(old, sizeof(byte)*size);
   if(!data) {
     fprintf(stderr,"Memory allocation error!\n");
     exit(1);
@@ -53,7 +53,7 @@ PrecompressorBlock::PrecompressorBlock(size_t maxSize, InStream* in)
       m_originalSize(0), m_reserved(maxSize+1)
 {
   uint64 read = in->readBlock(m_data, maxSize);
-  m_data = (byte*)realloc(m_data, sizeof(byte)*(read+1));
+  m_data = allocateBytes(read+1, m_data);
   m_reserved = read + 1;
   m_originalSize = m_used = read;
 }
@@ -67,7 +67,7 @@ void PrecompressorBlock::setSize(size_t size) {
   if(m_used != size) {
     m_used = size;
     m_reserved = size+1;
-    m_data = (byte*)realloc(m_data, sizeof(byte)*(m_reserved));
+    m_data = allocateBytes(m_reserved, m_data);
   }
 }
 
diff --git a/Utils.hpp b/Utils.hpp
index fb75faa..972391a 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -32,6 +32,7 @@
 #include <cassert>
 #include <iostream>
 #include <map>
+#include <new>
 #include <stack>
 #include <utility>
 #include <vector>
@@ -49,7 +50,9 @@ class CircularBuffer {
  public:
   explicit CircularBuffer(size_t len)
       : m_length(len), m_data((T*)malloc(sizeof(T)*len)), m_head(0),
-        m_start(0), m_inBuffer(0) {}
+        m_start(0), m_inBuffer(0) {
+    if(!m_data && len > 0) throw std::bad_alloc();
+  }
 
   ~CircularBuffer() { free(m_data); }
 
diff --git a/bwtransforms/Divsufsorter.hpp b/bwtransforms/Divsufsorter.hpp
index 140b1b2..51717b6 100644
--- a/bwtransforms/Divsufsorter.hpp
+++ b/bwtransforms/Divsufsorter.hpp
@@ -30,6 +30,7 @@
 #include <cassert>
 
 #include <algorithm>
+#include <new>
 #include <vector>
 
 #include "BWTransform.hpp"
@@ -54,14 +55,17 @@ class Divsufsorter : public BWTransform {
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwt(begin, begin, 0, length, &LFpowers[0], LFpowers.size());
+    if(divbwt(begin, begin, 0, length, &LFpowers[0], LFpowers.size()) == -2)
+      throw std::bad_alloc();
   }
 
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers,
               uint32 *freqs) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwtf(begin, begin, 0, length, &LFpowers[0], LFpowers.size(), freqs);
+    if(divbwtf(begin, begin, 0, length, &LFpowers[0], LFpowers.size(), freqs)
+       == -2)
+      throw std::bad_alloc();
   }
 
   /* The following values aren't correct */
diff --git a/bwtransforms/sais.hxx b/bwtransforms/sais.hxx
index e9dd4f7..ee2f433 100644
--- a/bwtransforms/sais.hxx
+++ b/bwtransforms/sais.hxx
@@ -33,6 +33,7 @@
 #include <cassert>
 #include <iterator>
 #include <limits>
+#include <new>
 
 #ifdef __INTEL_COMPILER
 #pragma warning(disable : 383 981 1418)
@@ -793,6 +794,7 @@ index_type i, pidx;
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
 
+  if(pidx == -2) { throw std::bad_alloc(); }
   if(0 <= pidx) {
     for(i = 0; i < n; ++i) {
       if(i != pidx) U[i] = (char_type)A[i];
@@ -819,6 +821,7 @@ index_type i, pidx;
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
 
+  if(pidx == -2) { throw std::bad_alloc(); }
   if(0 <= pidx) {
     for(i = 0; i < n; ++i) {
       if(i != pidx) {
-- 
2.43.0


From edbbefd3329be356d66848cec5fcb51f817577c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 15/16] fix: count pairs of equal symbols as they are replaced

---
 preprocessors/PairReplacer.cpp | 11 ++++-------
 preprocessors/PairReplacer.hpp | 21 ++++++++-------------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 75bd008..7af37d4 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -37,13 +37,13 @@
 namespace bwtc {
 
 PairReplacer::PairReplacer(Grammar& grammar)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
+    : m_grammar(grammar), m_prev(0), m_overlaps(false), m_numOfReplacements(0),
       m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
       m_analysationStarted(false), m_verbose(false)
 {}
 
 PairReplacer::PairReplacer(Grammar& grammar, bool verbose)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
+    : m_grammar(grammar), m_prev(0), m_overlaps(false), m_numOfReplacements(0),
       m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
       m_analysationStarted(false), m_verbose(verbose)
 {}
@@ -55,11 +55,7 @@ void PairReplacer::analyseData(const byte *data, size_t length, bool reset) {
   size_t i = 0;
   if(!m_analysationStarted) beginAnalysing(data[i++], reset);
 
-  for(; i < ((length-1) & ~static_cast<size_t>(1)); ++i) {
-    analyseData0(data[i]);
-    analyseData(data[++i]);
-  }
-  if((length & 0x1) == 0) analyseData0(data[i]);
+  for(; i < length; ++i) analyseData(data[i]);
 }
 
 void PairReplacer::finishAnalysation() {}
@@ -72,6 +68,7 @@ void PairReplacer::resetAnalyseData() {
 void PairReplacer::beginAnalysing(byte first, bool reset) {
   beginAnalysing(reset);
   m_prev = first;
+  m_overlaps = false;
   ++m_frequencies[first];
   const size_t* grammarFreq = m_grammar.frequencies();
   for(int i = 0; i < 256; ++i) m_frequencies[i] += grammarFreq[i];
diff --git a/preprocessors/PairReplacer.hpp b/preprocessors/PairReplacer.hpp
index 2c9363d..8fe5265 100644
--- a/preprocessors/PairReplacer.hpp
+++ b/preprocessors/PairReplacer.hpp
@@ -48,22 +48,14 @@ class PairReplacer {
     assert(m_analysationStarted);
     assert(m_pairFrequencies);
     assert(m_frequencies);
-    m_prev = (m_prev << 8) | next;
-    
-    ++m_pairFrequencies[m_prev];
-    ++m_frequencies[next];
-  }
-
-  inline void analyseData0(byte next) {
-    ++m_frequencies[next];
     uint16 prev = m_prev;
     m_prev = (m_prev << 8) | next;
 
-    int pXc = prev ^ m_prev;
-    // compute min(pXc,1)
-    int min = 1 + ((pXc - 1) & ((pXc - 1) >> (sizeof(int)*__CHAR_BIT__ - 1)));
-    
-    m_pairFrequencies[m_prev] += min;
+    // In a run of equal symbols every other pair overlaps with the one counted
+    // before it and won't be replaced.
+    m_overlaps = m_prev == prev && !m_overlaps;
+    if(!m_overlaps) ++m_pairFrequencies[m_prev];
+    ++m_frequencies[next];
   }
 
   void beginAnalysing(bool reset);
@@ -124,6 +116,9 @@ class PairReplacer {
   /**Used in the analysation phase. */
   uint16 m_prev;
 
+  /**Tells if the last pair overlapped with an equal pair already counted. */
+  bool m_overlaps;
+
   /** Stores the total number of replacements stored and to be executed. */
   uint16 m_numOfReplacements;
 
-- 
2.43.0


From c1b20f8a35ae99422e5f45fca939363d0588a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 16/16] fix: refuse to write the output over the input file

Giving the same file as input and output (or redirecting it to the standard
input) truncated the file before anything was read from it: the data was lost
and the program still reported success. Compare the files before opening the
output for writing.
---
 Streams.cpp     | 12 ++++++++++++
 Streams.hpp     |  5 +++++
 compress.cpp    |  7 +++++++
 postprocess.cpp |  6 ++++++
 preprocess.cpp  |  6 ++++++
 uncompress.cpp  |  6 ++++++
 6 files changed, 42 insertions(+)

diff --git a/Streams.cpp b/Streams.cpp
index bdf696f..08be84c 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -26,6 +26,7 @@
  */
 
 #include <fcntl.h>
+#include <sys/stat.h>
 
 #include <cassert>
 #include <cstdlib>
@@ -43,6 +44,17 @@
 
 namespace bwtc {
 
+bool isSameFile(const std::string& input_name, const std::string& output_name)
+{
+  if (output_name == "") return false;
+  struct stat in, out;
+  int status = (input_name != "") ? stat(input_name.c_str(), &in)
+      : fstat(fileno(stdin), &in);
+  if (status != 0 || stat(output_name.c_str(), &out) != 0) return false;
+  return S_ISREG(in.st_mode) && in.st_dev == out.st_dev
+      && in.st_ino == out.st_ino;
+}
+
 RawOutStream::RawOutStream(const std::string& file_name)
     :m_name(file_name) {
   m_buffer = new byte[kBufferSize];
diff --git a/Streams.hpp b/Streams.hpp
index de26813..aba3e01 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -39,6 +39,11 @@
 
 namespace bwtc {
 
+/* Tells if the given input and output names (empty string means stdin as the
+ * input and stdout as the output) lead to the same regular file. Opening
+ * output stream for such a file would destroy the input before reading it. */
+bool isSameFile(const std::string& input_name, const std::string& output_name);
+
 class OutStream {
  public:
   virtual ~OutStream() {}
diff --git a/compress.cpp b/compress.cpp
index 6363410..978e5ad 100644
--- a/compress.cpp
+++ b/compress.cpp
@@ -37,6 +37,7 @@ namespace po = boost::program_options;
 
 #include "Compressor.hpp"
 #include "Profiling.hpp"
+#include "Streams.hpp"
 #include "bwtransforms/BWTManager.hpp"
 
 using bwtc::verbosity;
@@ -195,6 +196,12 @@ int main(int argc, char** argv) {
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
 
+  if (bwtc::isSameFile(input_name, output_name)) {
+    std::cerr << output_name << ": Input and output are the same file"
+              << std::endl;
+    return 1;
+  }
+
   if (verbosity > 1) {
     if (input_name != "") std::clog << "Input: " << input_name << std::endl;
     else std::clog << "Input: stdin" << std::endl;
diff --git a/postprocess.cpp b/postprocess.cpp
index 41bf8c1..94d9f92 100644
--- a/postprocess.cpp
+++ b/postprocess.cpp
@@ -149,6 +149,12 @@ int main(int argc, char** argv) {
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
 
+  if (bwtc::isSameFile(input_name, output_name)) {
+    std::cerr << output_name << ": Input and output are the same file"
+              << std::endl;
+    return 1;
+  }
+
   postprocess(input_name, output_name, verbosity);
   
   PRINT_PROFILE_DATA
diff --git a/preprocess.cpp b/preprocess.cpp
index 299ff0b..8380df6 100644
--- a/preprocess.cpp
+++ b/preprocess.cpp
@@ -191,6 +191,12 @@ int main(int argc, char** argv) {
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
 
+  if (bwtc::isSameFile(input_name, output_name)) {
+    std::cerr << output_name << ": Input and output are the same file"
+              << std::endl;
+    return 1;
+  }
+
   preprocess(input_name, output_name, block_size*1024, preprocessing, escaping);
 
   PRINT_PROFILE_DATA
diff --git a/uncompress.cpp b/uncompress.cpp
index 1b56487..245b54a 100644
--- a/uncompress.cpp
+++ b/uncompress.cpp
@@ -95,6 +95,12 @@ int main(int argc, char** argv) {
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
 
+  if (bwtc::isSameFile(input_name, output_name)) {
+    std::cerr << output_name << ": Input and output are the same file"
+              << std::endl;
+    return 1;
+  }
+
   bwtc::Decompressor decompressor(input_name, output_name);
   decompressor.decompress(1);
 
-- 
2.43.0

