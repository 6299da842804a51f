From 82fb90ebdc16cc7c239454e359402e86a832ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 01/52] Add STEMPY_VERIF_FRAME_SIZE to scale the detector down
 in verification builds

---
 stempy/reader.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 4292a91..ffff558 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -34,12 +34,24 @@ using Coordinates2D = std::pair<int, int>;
 // Convention is (width, height)
 using Dimensions2D = std::pair<uint32_t, uint32_t>;
 
+#ifdef STEMPY_VERIF_FRAME_SIZE
+// Verification builds only: a scaled down detector (the value must be a
+// multiple of 4), so that whole acquisitions can be enumerated.
+const Dimensions2D SECTOR_DIMENSIONS_VERSION_4 = { STEMPY_VERIF_FRAME_SIZE / 4,
+                                                   STEMPY_VERIF_FRAME_SIZE };
+const Dimensions2D SECTOR_DIMENSIONS_VERSION_5 = { STEMPY_VERIF_FRAME_SIZE,
+                                                   STEMPY_VERIF_FRAME_SIZE /
+                                                     4 };
+const Dimensions2D FRAME_DIMENSIONS = { STEMPY_VERIF_FRAME_SIZE,
+                                        STEMPY_VERIF_FRAME_SIZE };
+#else
 /// Currently the detector data is written in four sectors
 const Dimensions2D SECTOR_DIMENSIONS_VERSION_4 = { 144, 576 };
 const Dimensions2D SECTOR_DIMENSIONS_VERSION_5 = { 576, 144 };
 
 /// This is the detector size at  NCEM
 const Dimensions2D FRAME_DIMENSIONS = { 576, 576 };
+#endif
 
 struct EofException : public std::exception
 {
-- 
2.43.0


From fb603feff048827c3c803ed3bda6102b18c6a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 02/52] fix: discard partially assembled frames when a sector
 reader is reset

---
 stempy/reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 7e0a090..5484045 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -562,6 +562,7 @@ void SectorStreamReader::reset()
     }
   }
   m_streams.clear();
+  m_frameCache.clear();
   openFiles();
   m_streamsIterator = m_streams.begin();
 }
-- 
2.43.0


From 6bb248f92c6f8bfce04cc363713924cce7aaca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 03/52] fix: do not mix the sectors of different frames taken
 at the same scan position

---
 stempy/reader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 5484045..1f8fe5e 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -434,7 +434,9 @@ Block SectorStreamReader::read()
       auto header = readHeader();
       for (unsigned i = 0; i < header.imagesInBlock; i++) {
         auto pos = header.imageNumbers[i];
-        auto& frame = m_frameCache[pos];
+        // There can be multiple frames at a given position, so we key on the
+        // frame number.
+        auto& frame = m_frameCache[header.frameNumber];
 
         // Do we need to allocate the frame
         if (frame.block.header.version == 0) {
@@ -460,7 +462,7 @@ Block SectorStreamReader::read()
 
         if (frame.sectorCount == 4) {
           auto b = frame.block;
-          m_frameCache.erase(pos);
+          m_frameCache.erase(header.frameNumber);
           m_streamsIterator++;
 
           return b;
-- 
2.43.0


From d82f262fd435beb68a0f5377cfd0f4a8b404df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 04/52] fix: mark the frames assembled by the threaded reader
 as complete

---
 stempy/reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index ffff558..1fb4a80 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -458,6 +458,7 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
           // Now now have the complete frame
           if (++frame.sectorCount == 4) {
             cacheLock.lock();
+            frame.block.header.complete.assign(1, true);
             blocks.emplace_back(frame.block);
             m_frameCache.erase(frameNumber);
             cacheLock.unlock();
-- 
2.43.0


From 3f925380ff81228659c6427bef0af31c2faf43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 05/52] fix: lock the scan position when counting the sample
 blocks

---
 stempy/electron.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index f9e73df..648b1e5 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -759,7 +759,8 @@ ElectronCountedData electronCount(Reader* reader,
   // lambda to process sample and incomplete blocks
   auto countExtraBlock = [&events, &backgroundThreshold, &xRayThreshold,
                           darkReference, gain, applyRowDarkSubtraction,
-                          optimizedMean, applyRowDarkUseMean] (Block& b) {
+                          optimizedMean, applyRowDarkUseMean,
+                          &positionMutexes](Block& b) {
     auto data = b.data.get();
     auto frameDimensions = b.header.frameDimensions;
     for (unsigned j = 0; j < b.header.imagesInBlock; j++) {
@@ -773,6 +774,8 @@ ElectronCountedData electronCount(Reader* reader,
         xRayThreshold, gain, applyRowDarkSubtraction, optimizedMean,
         applyRowDarkUseMean);
       auto position = b.header.imageNumbers[j];
+      // The workers may be counting other frames at this position
+      std::unique_lock<std::mutex> positionLock(positionMutexes[position]);
       events[position].push_back(std::move(frameEvents));
     }
   };
-- 
2.43.0


From 09dad0dccf73cdfc695491d52476b454afade8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 06/52] fix: let the multi pass reader read all the frames more
 than once

---
 stempy/reader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 1fb4a80..60960f2 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -830,6 +830,10 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
   initializePool();
   initializeScanMap();
 
+  // Start from the first frame, we may have already read all of them before
+  m_futures.clear();
+  m_processed = m_scanMapOffset;
+
   // Now enqueue lambda's to read the frames and run processing
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(
-- 
2.43.0


From 03e36614354356f7a2fff29af69a425b41314909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 07/52] fix: raise an error rather than wait forever when there
 are too few frames for the thresholds

---
 stempy/electron.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 648b1e5..b6cb38f 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -683,13 +683,36 @@ ElectronCountedData electronCount(Reader* reader,
 
   auto done = reader->readAll(counter);
 
+  // Used to signal that there are no more blocks to come.
+  bool allBlocksRead = false;
+  auto finished = std::async(std::launch::async, [&done, &sampleMutex,
+                                                  &sampleCondition,
+                                                  &allBlocksRead]() {
+    done.wait();
+    std::unique_lock<std::mutex> sampleLock(sampleMutex);
+    allBlocksRead = true;
+    sampleLock.unlock();
+    sampleCondition.notify_all();
+  });
+
   // Wait for enough blocks to come in to calculate the threshold.
   std::unique_lock<std::mutex> lock(sampleMutex);
-  sampleCondition.wait(lock, [&sampleBlocks, thresholdNumberOfBlocks]() {
+  auto haveSamples = [&sampleBlocks, thresholdNumberOfBlocks]() {
     return sampleBlocks.size() ==
            static_cast<unsigned>(thresholdNumberOfBlocks);
+  };
+  sampleCondition.wait(lock, [&haveSamples, &allBlocksRead]() {
+    return haveSamples() || allBlocksRead;
   });
 
+  if (!haveSamples()) {
+    std::ostringstream msg;
+    msg << "Not enough complete frames to calculate the thresholds: "
+        << thresholdNumberOfBlocks << " required, but only "
+        << sampleBlocks.size() << " available.";
+    throw std::invalid_argument(msg.str());
+  }
+
   auto calculateThreshold = true;
 
 #ifdef USE_MPI
@@ -793,7 +816,7 @@ ElectronCountedData electronCount(Reader* reader,
   }
 
   // Make sure all threads are finished before returning the result
-  done.wait();
+  finished.wait();
 
 #ifdef USE_MPI
   gatherEvents(worldSize, rank, events);
-- 
2.43.0


From 9d63467d65b26c5f04740cbcfc1dfde3c7725bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 08/52] fix: release the workers when the thresholds cannot be
 calculated

---
 stempy/electron.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index b6cb38f..a051a22 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -589,6 +589,9 @@ ElectronCountedData electronCount(Reader* reader,
   // collecting samples to calculate threshold.
   std::atomic<bool> electronCounting = { false };
 
+  // Used to signal that the thresholds could not be calculated.
+  std::atomic<bool> aborted = { false };
+
   // These hold the optimized thresholds.
   double backgroundThreshold;
   double xRayThreshold;
@@ -641,9 +644,9 @@ ElectronCountedData electronCount(Reader* reader,
     }
   };
 
-  auto counter = [&events, &electronCounting, &sampleMutex, &sampleCondition,
-                  &sampleBlocks, &incompleteBlocks, thresholdNumberOfBlocks,
-                  &countBlock](Block& b) {
+  auto counter = [&events, &electronCounting, &aborted, &sampleMutex,
+                  &sampleCondition, &sampleBlocks, &incompleteBlocks,
+                  thresholdNumberOfBlocks, &countBlock](Block& b) {
     // If we are still collecting sample block for calculating the threshold
     if (!electronCounting) {
       std::unique_lock<std::mutex> sampleLock(sampleMutex);
@@ -668,9 +671,12 @@ ElectronCountedData electronCount(Reader* reader,
       // We have our samples, so we should wait for the threshold to be
       // calculated in the main thread, before we can start counting.
       else {
-        sampleCondition.wait(sampleLock, [&electronCounting]() {
-          return electronCounting.load();
+        sampleCondition.wait(sampleLock, [&electronCounting, &aborted]() {
+          return electronCounting.load() || aborted.load();
         });
+        if (aborted) {
+          return;
+        }
         // Make sure we count the block.
         countBlock(b);
       }
@@ -725,9 +731,18 @@ ElectronCountedData electronCount(Reader* reader,
 
   if (calculateThreshold) {
     // Now calculate the threshold
-    threshold = calculateThresholds<Block, FrameType, dark>(
-      sampleBlocks, darkReference, numberOfSamples, backgroundThresholdNSigma,
-      xRayThresholdNSigma, gain);
+    try {
+      threshold = calculateThresholds<Block, FrameType, dark>(
+        sampleBlocks, darkReference, numberOfSamples, backgroundThresholdNSigma,
+        xRayThresholdNSigma, gain);
+    } catch (...) {
+      // The workers are waiting for the thresholds, release them first.
+      aborted = true;
+      lock.unlock();
+      sampleCondition.notify_all();
+      finished.wait();
+      throw;
+    }
 
     if (verbose) {
       std::cout << "****Statistics for calculating electron thresholds****"
-- 
2.43.0


From 1344b8770952f63741933779e6acb7fcbe9b60d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 09/52] fix: reject samples that do not fill a single histogram
 bin

---
 stempy/electronthresholds.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 20d3396..36754d3 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -134,6 +134,10 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
                          static_cast<int>(mean - xrayThreshold * stdDev));
 
   auto numberOfBins = maxBin - minBin;
+  if (numberOfBins < 1) {
+    throw std::runtime_error(
+      "The samples do not vary enough to calculate the thresholds");
+  }
   std::vector<double> histogram(numberOfBins, 0.0);
   std::vector<double> bins(numberOfBins);
 
-- 
2.43.0


From 2be1f520207124ae9c23f7b58e2cbed81b97690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 10/52] fix: support electron counting without a dark reference
 for the serial readers

---
 stempy/electron.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index a051a22..4f3a411 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -478,10 +478,9 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
           // Subtract darkfield reference and apply gain if we have one, this
           // will be based on our template type, it can be evaluated a compile
           // time.
-          if (std::is_integral<FrameType>::value) {
-            frame[j] -= darkReference[j];
-          } else {
-            frame[j] = (frame[j] - darkReference[j]) * gain[j];
+          static_if<dark>([&]() { frame[j] -= darkReference[j]; })();
+          if (!std::is_integral<FrameType>::value) {
+            frame[j] *= gain[j];
           }
           // Threshold the electron events
           if (frame[j] <= backgroundThreshold || frame[j] >= xRayThreshold) {
-- 
2.43.0


From 6d3a71f143e37389dd90a725ba034807d60492af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 11/52] fix: process the rows, not the columns, in the row dark
 algorithm

---
 stempy/electron.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 4f3a411..e1dd22b 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -242,8 +242,8 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
                   double xRayThreshold, const float globalDark[],
                   const float gain[], bool useMean)
 {
-  auto height = frameDimensions.first;
-  auto width = frameDimensions.second;
+  auto width = frameDimensions.first;
+  auto height = frameDimensions.second;
 
   // If the width is an odd number, give the right side the extra one
   auto leftSize = width / 2;
-- 
2.43.0


From d2217b89278932fb494e4f454177a8569ded12da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 12/52] fix: do not splice a truncated block with the data of
 the next file

---
 stempy/reader.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 1f8fe5e..a3fed14 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -111,12 +111,10 @@ istream & StreamReader::read(T* value, streamsize size){
 
   m_stream.read(reinterpret_cast<char*>(value), size);
 
-  // If we are at the end of the file, open up the next file
-  // and try again.
-  if (m_stream.eof()) {
-    openNextFile();
-    return read(value, size);
-  }
+  // A block never continues in the next file, so if we are at the end of the
+  // file it is truncated.
+  if (m_stream.eof())
+    throw EofException();
 
   return m_stream;
 }
-- 
2.43.0


From b2420218f4b0ba309b7128517c98461d7e1a66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 13/52] fix: ignore a truncated sector at the end of a file

---
 stempy/reader.cpp | 31 ++++++++++++++++++++++++-------
 stempy/reader.h   |  4 ++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index a3fed14..f0e3845 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -382,6 +382,26 @@ istream& SectorStreamReader::skip(std::streamoff offset)
   return *stream;
 }
 
+bool SectorStreamReader::atEnd(std::ifstream& stream) const
+{
+  if (stream.peek() == EOF) {
+    return true;
+  }
+
+  auto sectorDimensions = m_version == 4 ? SECTOR_DIMENSIONS_VERSION_4
+                                         : SECTOR_DIMENSIONS_VERSION_5;
+  std::streamoff sectorSize =
+    2 * sizeof(uint32_t) + 4 * sizeof(uint16_t) +
+    sectorDimensions.first * sectorDimensions.second * sizeof(uint16_t);
+
+  auto position = stream.tellg();
+  stream.seekg(0, stream.end);
+  auto remaining = stream.tellg() - position;
+  stream.seekg(position);
+
+  return remaining < sectorSize;
+}
+
 template <typename T>
 istream& SectorStreamReader::read(T& value)
 {
@@ -420,10 +440,9 @@ Block SectorStreamReader::read()
       auto& sectorStream = *m_streamsIterator;
       auto& stream = sectorStream.stream;
       auto sector = sectorStream.sector;
-      auto c = stream->peek();
       // If we have reached the end close the stream and remove if from
       // the list.
-      if (c == EOF) {
+      if (atEnd(*stream)) {
         stream->close();
         m_streamsIterator = m_streams.erase(m_streamsIterator);
         continue;
@@ -583,8 +602,7 @@ void SectorStreamReader::readAll(Functor func)
 
     while (true) {
       // Check if we are done
-      auto c = stream.peek();
-      if (c == EOF) {
+      if (atEnd(stream)) {
         stream.close();
         break;
       }
@@ -809,10 +827,9 @@ bool SectorStreamThreadedReader::nextStream(StreamQueueEntry& streamQueueEntry)
 
   auto stream = streamQueueEntry.stream;
 
-  auto c = stream->peek();
   // If we have reached the end close the stream and remove if from
   // the list.
-  if (c == EOF) {
+  if (atEnd(*stream)) {
     stream->close();
     std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
     auto iter = m_streams.begin();
@@ -867,7 +884,7 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
     auto& stream = sectorStream.stream;
     auto sector = sectorStream.sector;
 
-    while (stream->peek() != EOF) {
+    while (!atEnd(*stream)) {
       // First read the header
       auto header = readHeader(*stream);
       auto dataSize = header.frameDimensions.first *
diff --git a/stempy/reader.h b/stempy/reader.h
index 60960f2..c6914bb 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -259,6 +259,10 @@ protected:
   Header readHeader(std::ifstream& stream);
   void readSectorData(std::ifstream& stream, Block& block, int sector);
 
+  // Whether there are no more complete sectors to read from the stream. The
+  // last sector in a file may be truncated, if the acquisition was interrupted.
+  bool atEnd(std::ifstream& stream) const;
+
 private:
   std::vector<std::string> m_files;
 
-- 
2.43.0


From 714dd63a0ceb98a0c4bed06624242e62545560b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 14/52] fix: read the scan dimensions from the first file that
 is not empty

---
 stempy/reader.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.h b/stempy/reader.h
index c6914bb..15ff8d6 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -712,7 +712,15 @@ inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
     return;
   }
 
-  auto stream = m_streams[0].stream.get();
+  // Use the first file that isn't empty
+  auto iter = std::find_if(
+    m_streams.begin(), m_streams.end(),
+    [this](const SectorStream& s) { return !atEnd(*s.stream); });
+  if (iter == m_streams.end()) {
+    throw std::invalid_argument("There is no data in any of the files!");
+  }
+
+  auto stream = iter->stream.get();
   auto header = readHeader(*stream);
   // Reset the stream
   stream->seekg(0);
-- 
2.43.0


From 66a0ebc510db1337d582ddd98ee2d35251affa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 15/52] fix: read all the frames at a position with fewer
 frames than the others

---
 python/io.cpp                | 1 +
 python/stempy/io/__init__.py | 3 +++
 stempy/reader.h              | 9 +++++++++
 3 files changed, 13 insertions(+)

diff --git a/python/io.cpp b/python/io.cpp
index 5e6c875..a7a4e32 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -128,6 +128,7 @@ PYBIND11_MODULE(_io, m)
     .def(py::init<const std::vector<std::string>&, int>(), py::arg("files"),
          py::arg("threads") = 0)
     .def("_load_frames", &SectorStreamMultiPassThreadedReader::loadFrames)
+    .def("_num_frames", &SectorStreamMultiPassThreadedReader::numFrames)
     .def("_num_frames_per_scan",
          &SectorStreamMultiPassThreadedReader::numFramesPerScan)
     .def("_scan_dimensions",
diff --git a/python/stempy/io/__init__.py b/python/stempy/io/__init__.py
index 34348b6..f08fecc 100644
--- a/python/stempy/io/__init__.py
+++ b/python/stempy/io/__init__.py
@@ -135,6 +135,9 @@ class SectorThreadedMultiPassReader(ReaderMixin, _threaded_multi_pass_reader):
                     f'num_frames "{num_frames}"'
                 )
                 raise IndexError(msg)
+        else:
+            # There may be fewer frames at this position
+            frames = frames[:self._num_frames(image_number)]
 
         blocks = []
 
diff --git a/stempy/reader.h b/stempy/reader.h
index 15ff8d6..c7fb625 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -553,6 +553,15 @@ public:
     return m_scanDimensions;
   }
 
+  // The number of frames at a scan position, which can be less than the number
+  // of frames per scan if frames are missing.
+  uint32_t numFrames(uint32_t imageNumber)
+  {
+    initializeScanMap();
+
+    return imageNumber < m_scanMap.size() ? m_scanMap[imageNumber].size() : 0;
+  }
+
   uint32_t numFramesPerScan()
   {
     if (m_numFramesPerScan != 0) {
-- 
2.43.0


From 6cdcd893674aacfdaafcc3eda53e1db0c4dcaec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 16/52] fix: use the frame width as the row stride of a block

---
 python/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/io.cpp b/python/io.cpp
index a7a4e32..b19d4e7 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -37,7 +37,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
@@ -58,7 +58,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
-- 
2.43.0


From 13095ac3d160d419bfb5e6839ed180890b5b4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 17/52] fix: convert the blocks of the Python reader to
 contiguous arrays

---
 python/pyreader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index d287510..ee3ef62 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -38,7 +38,9 @@ PyBlock PyReader::read()
   }
 
   auto sliceIndex = py::slice(m_currIndex, upperBound, 1);
-  py::array_t<uint16_t> pyarray = getItems(sliceIndex);
+  // The data is accessed through a pointer, so it has to be contiguous
+  py::array_t<uint16_t, py::array::c_style | py::array::forcecast> pyarray =
+    getItems(sliceIndex);
 
   PyBlock b(pyarray);
   Dimensions2D frameDimensions = { pyarray.shape()[2], pyarray.shape()[1] };
-- 
2.43.0


From d7dbefa4b3f0b69cb3b629c50980152b26825c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 18/52] fix: pass the dark reference and the gain to C++ in C
 order

---
 python/stempy/image/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 2f79621..03132c7 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -721,7 +721,8 @@ def _safe_cast(array, dtype, name=None):
     if name is None:
         name = 'array'
 
-    new_array = array.astype(dtype)
+    # The array will be accessed through a pointer in C++
+    new_array = array.astype(dtype, order='C')
     if np.any(new_array.astype(array.dtype) != array):
         msg = f'Cannot cast {name} to {dtype} without loss of precision'
         raise ValueError(msg)
-- 
2.43.0


From 4f43d04f32183499837d9e1b4d2e92fd7707e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 19/52] fix: convert between the frame dimensions and the frame
 shape

---
 python/stempy/image/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 03132c7..70fa770 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -80,7 +80,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
     elif isinstance(input, SparseArray):
         imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
                                          input.scan_shape[::-1],
-                                         input.frame_shape, center)
+                                         input.frame_shape[::-1], center)
     elif all([hasattr(input, x) for x in ecd_attrs]):
         # Handle electron counted data without C++ object
         # Assume this is v1 data and that each frame is one scan position
@@ -341,7 +341,7 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
     kwargs = {
         'data': np_data,
         'scan_shape': data.scan_dimensions[::-1],
-        'frame_shape': data.frame_dimensions,
+        'frame_shape': data.frame_dimensions[::-1],
         'metadata': {'electron_counting': metadata},
     }
     array = SparseArray(**kwargs)
-- 
2.43.0


From a4eb02cd08bba6ac786af904fc4d826af7a22ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 20/52] fix: include the maximum in the last bin of the STEM
 histogram

---
 stempy/image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index b2bb117..e106710 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -294,9 +294,12 @@ std::vector<double> getContainer(const STEMImage& inImage, const int numBins)
 
   std::vector<double> container;
   // push all the intermediate values
-  for (int i = 0; i <= numBins; i++) {
+  for (int i = 0; i < numBins; i++) {
     container.push_back(min + i * length);
   }
+  // The last value must not be affected by rounding, as the maximum would then
+  // fall outside of the bins
+  container.push_back(max);
 
   return container;
 }
-- 
2.43.0


From 1458008249353dab4588b61d0157863d5b9af814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 21/52] fix: accept the average image as the dark reference of
 the maximum diffraction pattern

---
 python/image.cpp |  9 +++++++--
 stempy/image.cpp | 12 ++++++------
 stempy/image.h   |  2 +-
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 894caad..c807ec7 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -590,7 +590,7 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(StreamReader::iterator, StreamReader::iterator,
-                          const Image<float>&)) &
+                          const Image<double>&)) &
           maximumDiffractionPattern<StreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
@@ -599,7 +599,7 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(SectorStreamReader::iterator,
-                          SectorStreamReader::iterator, const Image<float>&)) &
+                          SectorStreamReader::iterator, const Image<double>&)) &
           maximumDiffractionPattern<SectorStreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
@@ -607,6 +607,11 @@ PYBIND11_MODULE(_image, m)
                           SectorStreamReader::iterator)) &
           maximumDiffractionPattern<SectorStreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
+  m.def("maximum_diffraction_pattern",
+        (Image<double>(*)(PyReader::iterator, PyReader::iterator,
+                          const Image<double>&)) &
+          maximumDiffractionPattern<PyReader::iterator>,
+        py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(PyReader::iterator, PyReader::iterator)) &
           maximumDiffractionPattern<PyReader::iterator>,
diff --git a/stempy/image.cpp b/stempy/image.cpp
index e106710..fd122eb 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -585,7 +585,7 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
 
 template <typename InputIt>
 Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
-                                        const Image<float>& darkreference)
+                                        const Image<double>& darkreference)
 {
   auto frameDimensions = first->header.frameDimensions;
   auto numDetectorPixels = frameDimensions.first * frameDimensions.second;
@@ -623,7 +623,7 @@ template <typename InputIt>
 Image<double> maximumDiffractionPattern(InputIt first, InputIt last)
 {
   // Create empty dark reference
-  Image<float> dark;
+  Image<double> dark;
 
   return maximumDiffractionPattern(first, last, dark);
 }
@@ -677,16 +677,16 @@ template RadialSum<uint64_t> radialSum(PyReader::iterator first,
 
 template Image<double> maximumDiffractionPattern(
   StreamReader::iterator first, StreamReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   vector<Block>::iterator first, vector<Block>::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   SectorStreamReader::iterator first, SectorStreamReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   PyReader::iterator first, PyReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(StreamReader::iterator first,
                                                  StreamReader::iterator last);
 template Image<double> maximumDiffractionPattern(vector<Block>::iterator first,
diff --git a/stempy/image.h b/stempy/image.h
index bf95608..6df0159 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -136,7 +136,7 @@ namespace stempy {
 
   template <typename InputIt>
   Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
-                                          const Image<float>& darkreference);
+                                          const Image<double>& darkreference);
 
   template <typename InputIt>
   Image<double> maximumDiffractionPattern(InputIt first, InputIt last);
-- 
2.43.0


From 55f4383102dbe76ad3602e45276b7eb514054321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 22/52] fix: allow empty scan positions in the maximum over the
 frames

---
 python/stempy/io/sparse_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 497f13b..938c980 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -421,7 +421,7 @@ class SparseArray:
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
-                ret[i] = np.max(counts)
+                ret[i] = np.max(counts, initial=0)
             return ret.reshape(self.scan_shape)
 
     @_arithmethic_decorators
-- 
2.43.0


From 4bdad6e87bbeb8f6b86ab00ad5761844612f1ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 23/52] fix: use the number of columns to bin frames that are
 not square

---
 python/stempy/io/sparse_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 938c980..44ca883 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -630,10 +630,10 @@ class SparseArray:
         # Ravel the data for easier manipulation in this function
         data = self.data.ravel()
 
-        rows = data // self.frame_shape[0] // bin_factor
+        rows = data // self.frame_shape[1] // bin_factor
         cols = data % self.frame_shape[1] // bin_factor
 
-        rows *= (self.frame_shape[0] // bin_factor)
+        rows *= (self.frame_shape[1] // bin_factor)
         rows += cols
 
         new_data = rows
-- 
2.43.0


From fc6fa120f1c67df6b4c727deac1d45ba1c0f1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 24/52] fix: support extra frames of equal length when
 separating duplicates

---
 python/stempy/io/compatibility.py | 3 ++-
 python/stempy/io/sparse_array.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/compatibility.py b/python/stempy/io/compatibility.py
index 32ccc85..a18fc8f 100644
--- a/python/stempy/io/compatibility.py
+++ b/python/stempy/io/compatibility.py
@@ -53,7 +53,8 @@ def convert_data_v1_to_v2(data, scan_positions, scan_shape):
         new_size = ret.shape[0] + len(extra_rows)
         new_data = np.empty(new_size, dtype=object)
         new_data[:ret.shape[0]] = ret
-        new_data[ret.shape[0]:] = extra_rows
+        for i, row in enumerate(extra_rows, ret.shape[0]):
+            new_data[i] = row
         new_scan_positions = np.append(scan_positions,
                                        extra_scan_positions)
 
diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 44ca883..a5aac69 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -661,7 +661,8 @@ class SparseArray:
             new_size = rows.shape[0] + len(extra_rows)
             new_data = np.empty(new_size, dtype=object)
             new_data[:rows.shape[0]] = rows
-            new_data[rows.shape[0]:] = extra_rows
+            for i, row in enumerate(extra_rows, rows.shape[0]):
+                new_data[i] = row
             new_scan_positions = np.append(new_scan_positions,
                                            extra_scan_positions)
 
-- 
2.43.0


From 86ed47a753f78cb91e8a8d75a66c5282b3d26770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 25/52] fix: support binning a scan with one dimension

---
 python/stempy/io/sparse_array.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index a5aac69..43fcc4c 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -579,19 +579,17 @@ class SparseArray:
         # No need to modify the data, just the scan shape and the scan
         # positions.
         new_scan_shape = tuple(x // bin_factor for x in self.scan_shape)
-        all_positions = self.scan_positions
-        all_positions_reshaped = all_positions.reshape(
-            new_scan_shape[0], bin_factor, new_scan_shape[1], bin_factor)
+        all_positions_reshaped = self.scan_positions.reshape(
+            [x for n in new_scan_shape for x in (n, bin_factor)])
 
+        num_binned = bin_factor**len(new_scan_shape)
         new_data_shape = (np.prod(new_scan_shape),
-                          bin_factor**2 * self.num_frames_per_scan)
+                          num_binned * self.num_frames_per_scan)
         new_data = np.empty(new_data_shape, dtype=object)
-        for i in range(new_scan_shape[0]):
-            for j in range(new_scan_shape[1]):
-                idx = i * new_scan_shape[1] + j
-                scan_position = all_positions[idx]
-                to_change = all_positions_reshaped[i, :, j, :].ravel()
-                new_data[scan_position] = np.concatenate(self.data[to_change])
+        for scan_position, idx in enumerate(np.ndindex(*new_scan_shape)):
+            selection = tuple(x for i in idx for x in (i, slice(None)))
+            to_change = all_positions_reshaped[selection].ravel()
+            new_data[scan_position] = np.concatenate(self.data[to_change])
 
         if in_place:
             self.scan_shape = new_scan_shape
-- 
2.43.0


From b2e49591b098eed192c1febbb72636210309b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 26/52] fix: write frames that all have the same number of
 electrons

---
 python/stempy/io/sparse_array.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 43fcc4c..a3dd115 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -276,7 +276,12 @@ class SparseArray:
             frames.attrs['Nx'] = self.frame_shape[0]
             frames.attrs['Ny'] = self.frame_shape[1]
 
-            frames[...] = data.ravel()
+            # Use the low-level API, as the high-level API misinterprets
+            # object arrays whose elements all have the same length
+            raveled = np.empty(np.prod(data.shape), dtype=coordinates_type)
+            for i, frame in enumerate(data.ravel()):
+                raveled[i] = np.ascontiguousarray(frame, dtype=np.uint32)
+            frames.id.write(h5py.h5s.ALL, h5py.h5s.ALL, raveled)
 
             # Write out the metadata
             save_dict_to_h5(self.metadata, f.require_group('metadata'))
-- 
2.43.0


From 48a6872552898a08c3e9988c4fa81e7e61da8024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 27/52] fix: support the ellipsis when slicing a sparse array

---
 python/stempy/io/sparse_array.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index a3dd115..d8f2501 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -823,6 +823,20 @@ class SparseArray:
             # Wrap it with a tuple to simplify
             slices = (slices,)
 
+        ellipses = [i for i, x in enumerate(slices) if x is Ellipsis]
+        if len(ellipses) > 1:
+            raise IndexError("an index can only have a single ellipsis ('...')")
+
+        if ellipses:
+            # Replace the ellipsis with the full slices it stands for
+            i = ellipses[0]
+            rest = [np.asarray(x) if isinstance(x, Sequence) else x
+                    for x in slices[:i] + slices[i + 1:]]
+            used = sum(x.ndim if isinstance(x, np.ndarray) and
+                       x.dtype == np.bool_ else 1 for x in rest)
+            full = (slice(None),) * (self.ndim - used)
+            slices = slices[:i] + full + slices[i + 1:]
+
         if not slices:
             # It's an empty tuple
             return tuple(), tuple()
-- 
2.43.0


From dc0ba76e5041aa10b500aae2d871faf4a61439d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 28/52] fix: keep the electrons of every repeated frame index
 when slicing

---
 python/stempy/io/sparse_array.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index d8f2501..67be539 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -985,12 +985,21 @@ class SparseArray:
             new_indices = np.arange(len(valid_flat_frame_indices))
             new_frame_indices_map[valid_flat_frame_indices] = new_indices
 
+            # The map can not represent a frame index that was repeated
+            repeated = np.any(new_frame_indices_map[valid_flat_frame_indices]
+                              != new_indices)
+
             # Allocate the new data
             new_data = np.empty(new_frames.shape, dtype=object)
 
             # Now set it
             for i, scan_frames in enumerate(new_frames):
                 for j, sparse_frame in enumerate(scan_frames):
+                    if repeated:
+                        new_data[i, j] = np.flatnonzero(
+                            np.isin(valid_flat_frame_indices, sparse_frame))
+                        continue
+
                     new_frame = new_frame_indices_map[sparse_frame]
                     new_data[i, j] = copy.deepcopy(new_frame[new_frame >= 0])
         else:
-- 
2.43.0


From 0d794f071ccaad9047857be49dc9af5805a16bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 29/52] fix: compute the center of mass of frames that are not
 square

---
 python/stempy/image/__init__.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 70fa770..43200bb 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -409,7 +409,7 @@ def com_v1_kernel(
     replace_nans: bool = True,
 ) -> np.ndarray:
     num_scans = scan_shape[0] * scan_shape[1]
-    frame_x, frame_y = frame_shape
+    frame_y = frame_shape[1]
 
     com = np.full((2, num_scans), np.nan, dtype=np.float32)
 
@@ -417,16 +417,13 @@ def com_v1_kernel(
         return com.reshape((2, *scan_shape))
 
     # Decode coordinates
-    if frame_x & (frame_x - 1) == 0:  # power of 2
-        shift = int(np.log2(frame_x))
+    if frame_y & (frame_y - 1) == 0:  # power of 2
+        shift = int(np.log2(frame_y))
         x = (all_events_concat >> shift).astype(np.float32)
-    else:
-        x = (all_events_concat // frame_x).astype(np.float32)
-
-    if frame_y & (frame_y - 1) == 0:
         mask = frame_y - 1
         y = (all_events_concat & mask).astype(np.float32)
     else:
+        x = (all_events_concat // frame_y).astype(np.float32)
         y = (all_events_concat % frame_y).astype(np.float32)
 
     # Cropping
@@ -529,7 +526,7 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
         ev = np.hstack(frames)
 
         if len(ev) > 0:
-            x = ev // array.frame_shape[0]
+            x = ev // array.frame_shape[1]
             y = ev % array.frame_shape[1]
             mm0 = len(ev)
             
-- 
2.43.0


From fb346686c91d8e4010ca8ad03b80b661392c0fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 30/52] fix: compute the virtual dark field of frames that are
 not square

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 43200bb..7b662aa 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -837,7 +837,7 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
-            ev_rows = ev // array.frame_shape[0]
+            ev_rows = ev // array.frame_shape[1]
             ev_cols = ev % array.frame_shape[1]
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
                 dist = np.sqrt((ev_rows - cc_1)**2 + (ev_cols - cc_0)**2)
-- 
2.43.0


From d560ec8d0cd81b92f7909541be5535b6f940d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 31/52] fix: do not use stale electron counted data after an in
 place change

---
 python/stempy/io/sparse_array.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 67be539..c30615a 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -371,6 +371,7 @@ class SparseArray:
         # If we made it here, we can perform the reshaping...
         self.scan_shape = scan_shape
         self.frame_shape = frame_shape
+        self._discard_electron_counted_data()
 
         return self
 
@@ -386,6 +387,11 @@ class SparseArray:
         self.shape = (np.prod(self.scan_shape), *self.frame_shape)
         return self
 
+    def _discard_electron_counted_data(self):
+        # The C++ object that electron_count() attaches to the array does not
+        # represent it any longer once the array is modified.
+        self.__dict__.pop('_electron_counted_data', None)
+
     @_arithmethic_decorators
     def max(self, axis=None, dtype=None, **kwargs):
         """Return the maximum along a given axis.
@@ -599,6 +605,7 @@ class SparseArray:
         if in_place:
             self.scan_shape = new_scan_shape
             self.data = new_data
+            self._discard_electron_counted_data()
             return self
 
         kwargs = {
@@ -697,6 +704,7 @@ class SparseArray:
         if in_place:
             self.data = new_data
             self.frame_shape = new_frame_shape
+            self._discard_electron_counted_data()
             return self
 
         kwargs = {
-- 
2.43.0


From 1a2160a544c3163fa5406eef625966e895d1aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 32/52] fix: use the scan positions to crop the flyback column
 of version 2 files

---
 python/stempy/io/sparse_array.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index c30615a..de8eda7 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -198,6 +198,15 @@ class SparseArray:
             if keep_flyback:
                 data = frames[()] # load the full data set
                 scan_positions = scan_positions_group[()]
+            elif version < 3:
+                # The frames do not need to be in the order of their scan
+                # positions, and there may be more than one for a position.
+                scan_positions = scan_positions_group[()]
+                keep = scan_positions % scan_shape[0] != scan_shape[0] - 1
+                data = frames[()][keep]
+                scan_positions = scan_positions[keep]
+                scan_positions = scan_positions - scan_positions // scan_shape[0]
+                scan_shape = (scan_shape[0]-1, scan_shape[1]) # update scan shape
             else:
                 num = frames.shape[0] // np.prod(scan_shape, dtype=int) # number of frames per probe position
                 data = np.empty(((scan_shape[0]-1) * scan_shape[1] * num), dtype=object)
-- 
2.43.0


From fb59ebb679da82f79b73003f17a8b92de2b0bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 33/52] fix: filter bad sectors in the first row and column

---
 python/stempy/image/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 7b662aa..a7f8953 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -634,8 +634,10 @@ def filter_bad_sectors(com, cut_off):
     x, y = np.where(_)
 
     for ii, jj in zip(x, y):
-        com[0, ii, jj] = np.nanmedian(com[0, ii - 1:ii + 2, jj - 1:jj + 2])
-        com[1, ii, jj] = np.nanmedian(com[1, ii - 1:ii + 2, jj - 1:jj + 2])
+        rows = slice(max(ii - 1, 0), ii + 2)
+        cols = slice(max(jj - 1, 0), jj + 2)
+        com[0, ii, jj] = np.nanmedian(com[0, rows, cols])
+        com[1, ii, jj] = np.nanmedian(com[1, rows, cols])
     return com
 
 def com_dense(frames):
-- 
2.43.0


From a12922e31ad36b9e1925e4517fab486ec76616d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 34/52] fix: use the cast dark reference rather than the
 original image

---
 python/stempy/image/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index a7f8953..8541f7a 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -245,7 +245,8 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
 
     if isinstance(darkreference, np.ndarray):
         # Must be float32 for correct conversions
-        darkreference = _safe_cast(darkreference, np.float32, 'dark reference')
+        darkreference = _safe_cast(np.asarray(darkreference), np.float32,
+                                   'dark reference')
 
     # Special case for threaded reader
     if isinstance(reader, (SectorThreadedReader, SectorThreadedMultiPassReader)):
-- 
2.43.0


From 32c419c9882e70f6c996e9068416d7cad4940ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 35/52] fix: pass two dimensional data of electron counted
 tuples to the STEM images

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 8541f7a..1f82be4 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -87,7 +87,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
         data = input.data
         if data.ndim == 1:
             data = data[:, np.newaxis]
-        imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
+        imgs = _image.create_stem_images(data, inner_radii, outer_radii,
                                          input.scan_dimensions,
                                          input.frame_dimensions, center)
     elif isinstance(input, np.ndarray):
-- 
2.43.0


From 06c32d8cf233f45e2c0908f12068e820e8e7869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 36/52] fix: let the threaded reader read all the frames again
 after a reset

---
 stempy/reader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index c7fb625..cd9938a 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -395,6 +395,8 @@ template <typename Functor>
 std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 {
   m_pool = std::make_unique<ThreadPool>(m_threads);
+  // The reader may have been used before it was reset
+  m_futures.clear();
 
   auto streamsIterator = m_streams.begin();
 
-- 
2.43.0


From 4b60b427dc9cc7d25810f972f99868c7dd96f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 37/52] fix: skip the samples below the range of the threshold
 histogram

---
 stempy/electronthresholds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 36754d3..0f08c53 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -150,7 +150,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   for (int i = 0; i < numberSamplePixels; i++) {
     auto binIndex = static_cast<int>(samples[i] - minBin);
     // Skip values outside range
-    if (binIndex >= numberOfBins) {
+    if (binIndex < 0 || binIndex >= numberOfBins) {
       continue;
     }
     histogram[binIndex] += 1;
-- 
2.43.0


From 17098af30986d23b9afcbc8367d44d49fd8b721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 38/52] fix: support floating point types in the minimum

---
 python/stempy/io/sparse_array.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index de8eda7..1355b80 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -472,7 +472,7 @@ class SparseArray:
             dtype = self.dtype
 
         if self._is_scan_axes(axis):
-            ret = np.full(self._frame_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._frame_shape_flat, _max_value(dtype), dtype)
             expanded = np.empty(self._frame_shape_flat, dtype)
             for scan_frames in self.data:
                 expanded[:] = 0
@@ -483,7 +483,7 @@ class SparseArray:
             return ret.reshape(self.frame_shape)
 
         if self._is_frame_axes(axis):
-            ret = np.full(self._scan_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._scan_shape_flat, _max_value(dtype), dtype)
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
@@ -1112,6 +1112,11 @@ def _is_none_slice(x):
     return isinstance(x, slice) and x == NONE_SLICE
 
 
+def _max_value(dtype):
+    info = np.iinfo if np.issubdtype(dtype, np.integer) else np.finfo
+    return info(dtype).max
+
+
 def _warning(msg):
     print(f'Warning: {msg}', file=sys.stderr)
 
-- 
2.43.0


From a413595fb8cc663114c23aeae34607276eab8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 39/52] fix: row dark algorithm for frames with a width of one

The left side of a row is empty then, and the median of no values was read.
---
 stempy/electron.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index e1dd22b..d020ef4 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -280,6 +280,11 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
   }
 
   auto apply = [&](size_t start, size_t stop) {
+    // The left side is empty if the width is one
+    if (start == stop) {
+      return;
+    }
+
     auto statResult = statFunc(frame, start, stop);
 
     for (size_t i = start; i < stop; ++i) {
-- 
2.43.0


From 804ce1f9cfbbda49a252471d5c23bf7a7b687912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 40/52] fix: writing electron counts to an existing file
 changed its version

---
 python/stempy/io/sparse_array.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 1355b80..13e4749 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -267,8 +267,6 @@ class SparseArray:
 
         data = self.data
         with h5py.File(path, 'a') as f:
-            f.attrs['version'] = self.VERSION
-
             group = f.require_group('electron_events')
             scan_positions = group.create_dataset('scan_positions',
                                                   data=self.scan_positions)
@@ -292,6 +290,10 @@ class SparseArray:
                 raveled[i] = np.ascontiguousarray(frame, dtype=np.uint32)
             frames.id.write(h5py.h5s.ALL, h5py.h5s.ALL, raveled)
 
+            # Only now, so that a file that already has electron events,
+            # perhaps in an older version, keeps its version
+            f.attrs['version'] = self.VERSION
+
             # Write out the metadata
             save_dict_to_h5(self.metadata, f.require_group('metadata'))
 
-- 
2.43.0


From 6638100446449f344514e76997c6f987e21eb911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 41/52] fix: annular masks with radii above 46340 were wrong

---
 stempy/mask.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stempy/mask.cpp b/stempy/mask.cpp
index 47bf6b9..ffb3630 100644
--- a/stempy/mask.cpp
+++ b/stempy/mask.cpp
@@ -18,8 +18,9 @@ uint16_t* createAnnularMask(Dimensions2D dimensions, int innerRadius,
   if (center.second < 0)
     center.second = static_cast<int>(round(dimensions.second / 2.0));
 
-  innerRadius = static_cast<int>(pow(innerRadius, 2.0));
-  outerRadius = static_cast<int>(pow(outerRadius, 2.0));
+  // The squares may not fit in an int
+  auto innerSquared = pow(innerRadius, 2.0);
+  auto outerSquared = pow(outerRadius, 2.0);
 
   for (uint32_t i = 0; i < numberOfElements; ++i) {
     // Ensure these are signed ints so we don't underflow below
@@ -27,7 +28,7 @@ uint16_t* createAnnularMask(Dimensions2D dimensions, int innerRadius,
     int y = i / dimensions.first;
 
     auto d = pow((x - center.first), 2.0) + pow((y - center.second), 2.0);
-    mask[i] = d >= innerRadius && d < outerRadius ? 0xFFFF : 0;
+    mask[i] = d >= innerSquared && d < outerSquared ? 0xFFFF : 0;
   }
 
   return mask;
-- 
2.43.0


From 95eb55a5ebe322fdf58877e456d7b52b576093a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 42/52] fix: STEM images of sparse data without scan dimensions
 were written out of bounds

---
 stempy/image.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stempy/image.h b/stempy/image.h
index 6df0159..cfad026 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -92,6 +92,13 @@ namespace stempy {
       throw std::invalid_argument(msg.str());
     }
 
+    if (sparseData.size() >
+        static_cast<uint64_t>(scanDimensions.first) * scanDimensions.second) {
+      std::ostringstream msg;
+      msg << "The scan dimensions are too small for the sparse data!";
+      throw std::invalid_argument(msg.str());
+    }
+
     std::vector<STEMImage> images;
     std::vector<uint16_t*> masks;
     for (size_t i = 0; i < innerRadii.size(); ++i) {
-- 
2.43.0


From 6007d439b6e41294b8de2f87fbae471f02943c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 43/52] fix: STEM images of non-contiguous sparse data were
 wrong

---
 python/image.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index c807ec7..2e41fd0 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -214,9 +214,13 @@ ElectronCountedDataPyArray electronCount(Reader* reader,
   return electronCount(reader, options.toCpp());
 }
 
+// The data of the arrays is accessed directly, it has to be contiguous
+using ContiguousArray =
+  py::array_t<uint32_t, py::array::c_style | py::array::forcecast>;
+
 // Explicitly instantiate version for py::array_t
 template std::vector<STEMImage> createSTEMImages(
-  const std::vector<std::vector<py::array_t<uint32_t>>>& sparseData,
+  const std::vector<std::vector<ContiguousArray>>& sparseData,
   const std::vector<int>& innerRadii, const std::vector<int>& outerRadii,
   Dimensions2D scanDimensions, Dimensions2D frameDimensions,
   Coordinates2D center);
@@ -404,7 +408,7 @@ PYBIND11_MODULE(_image, m)
     py::call_guard<py::gil_scoped_release>());
   m.def("create_stem_images",
         (vector<STEMImage>(*)(
-          const std::vector<std::vector<py::array_t<uint32_t>>>&,
+          const std::vector<std::vector<ContiguousArray>>&,
           const vector<int>&, const vector<int>&, Dimensions2D, Dimensions2D,
           Coordinates2D)) &
           createSTEMImages,
-- 
2.43.0


From f44a17f466a263460194da92100203ba5938af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 44/52] fix: get_scan_path failed if the directory was a str

The documentation allows both a pathlib.Path and a str.
---
 python/stempy/contrib/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index a63d631..44f2363 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -71,7 +71,7 @@ def get_scan_path_version_0(
             else f"data_scan{scan_num}*electrons{file_suffix.value}.{filetype}"
         )
 
-    file_path = list(directory.glob(file_pattern))
+    file_path = list(Path(directory).glob(file_pattern))
 
     check_only_one_filepath(file_path)
 
@@ -133,7 +133,7 @@ def get_scan_path_version_1(
             f"FOURD_*_*_{str(scan_num).zfill(5)}{file_suffix.value}.{filetype}"
         )
 
-    file_path = list(directory.glob(file_pattern))
+    file_path = list(Path(directory).glob(file_pattern))
     check_only_one_filepath(file_path)
     file_path = file_path[0]
     spl = file_path.stem.split("_")
-- 
2.43.0


From 2a27fdeca78e8446c1e3b5fa8d9806f2317029b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 45/52] fix: get_scan_path found the files of other scans

The patterns of version 0 also matched numbers that only start with the same
digits, and files with other suffixes.
---
 python/stempy/contrib/__init__.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index 44f2363..59d3965 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -1,3 +1,4 @@
+import re
 from enum import Enum
 from pathlib import Path
 from typing import Optional, Tuple
@@ -25,6 +26,21 @@ def check_only_one_filepath(file_path):
         raise FileNotFoundError("No file with those parameters can be found.")
 
 
+def filter_file_paths(file_paths, number_pattern, file_suffix):
+    """Keep the paths whose name has exactly the number, as the patterns also
+    match longer numbers that start with the same digits, and exactly the
+    suffix, as the standard one is empty."""
+    other_suffixes = tuple(
+        x.value for x in FileSuffix if x != file_suffix and x.value
+    )
+    return [
+        x
+        for x in file_paths
+        if re.search(number_pattern + r"(?!\d)", x.name)
+        and not x.stem.endswith(other_suffixes)
+    ]
+
+
 def get_scan_path_version_0(
     directory: Path,
     scan_num: Optional[int] = None,
@@ -71,7 +87,12 @@ def get_scan_path_version_0(
             else f"data_scan{scan_num}*electrons{file_suffix.value}.{filetype}"
         )
 
-    file_path = list(Path(directory).glob(file_pattern))
+    number_pattern = (
+        f"_id{scan_id}" if scan_id is not None else f"^data_scan{scan_num}"
+    )
+    file_path = filter_file_paths(
+        Path(directory).glob(file_pattern), number_pattern, file_suffix
+    )
 
     check_only_one_filepath(file_path)
 
-- 
2.43.0


From 16e461da466d1a95537d9f6ff11c2c297e9f1828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:57 +0000
Subject: [PATCH 46/52] fix: a rank without scan positions does not read the
 first header again

With MPI the size of the partition of a rank can be 0 (more ranks than scan
positions), which was taken for a header that has not been read. The rank
then read the frames of all positions again.
---
 stempy/reader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.h b/stempy/reader.h
index cd9938a..0d4312c 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -718,8 +718,9 @@ inline void SectorStreamMultiPassThreadedReader::initializePool()
 
 inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
 {
-  if (m_scanMapSize != 0) {
+  if (m_scanDimensions.first != 0) {
     // We must have already read the first header. Don't do it again.
+    // (m_scanMapSize can be 0 on a rank without any scan positions)
     return;
   }
 
-- 
2.43.0


From 19ea14559d478bf86d2a11f972ddd227fc7a2449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:57 +0000
Subject: [PATCH 47/52] fix: ranks without sample blocks get the dimensions
 from rank 0

With more ranks than sample blocks (the default is one block) the share of
a rank is empty, and its first sample block was accessed all the same.
---
 stempy/electron.cpp     | 13 +++++++++++--
 stempy/electron.h       |  2 ++
 stempy/electron_mpi.cpp | 15 +++++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index d020ef4..617fff8 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -781,11 +781,20 @@ ElectronCountedData electronCount(Reader* reader,
 #endif
 
   // Now setup  electron count output
-  auto frameSize = sampleBlocks[0].header.frameDimensions;
+  Dimensions2D frameSize, headerScanDimensions;
+  if (!sampleBlocks.empty()) {
+    frameSize = sampleBlocks[0].header.frameDimensions;
+    headerScanDimensions = sampleBlocks[0].header.scanDimensions;
+  }
+
+#ifdef USE_MPI
+  // A rank may not have any sample blocks, but rank 0 has those of all ranks
+  broadcastDimensions(frameSize, headerScanDimensions);
+#endif
 
   // If we haven't been provided with width and height, try the header.
   if (scanDimensions.first == 0 || scanDimensions.second == 0) {
-    scanDimensions = sampleBlocks[0].header.scanDimensions;
+    scanDimensions = headerScanDimensions;
   }
 
   auto numberOfScanPositions = scanDimensions.first * scanDimensions.second;
diff --git a/stempy/electron.h b/stempy/electron.h
index 4b9fd5f..cba879a 100644
--- a/stempy/electron.h
+++ b/stempy/electron.h
@@ -81,6 +81,8 @@ void gatherBlocks(int worldSize, int rank, std::vector<Block>& blocks);
 void gatherEvents(int worldSize, int rank, Events& events);
 void broadcastThresholds(double& background, double& xRay,
                          double& optimizedMean);
+void broadcastDimensions(Dimensions2D& frameDimensions,
+                         Dimensions2D& scanDimensions);
 
 #endif
 }
diff --git a/stempy/electron_mpi.cpp b/stempy/electron_mpi.cpp
index bf9463c..163dd34 100644
--- a/stempy/electron_mpi.cpp
+++ b/stempy/electron_mpi.cpp
@@ -197,6 +197,21 @@ void broadcastThresholds(double& background, double& xRay,
   optimizedMean = thresholds[2];
 }
 
+void broadcastDimensions(Dimensions2D& frameDimensions,
+                         Dimensions2D& scanDimensions)
+{
+  std::vector<uint32_t> dimensions = { frameDimensions.first,
+                                       frameDimensions.second,
+                                       scanDimensions.first,
+                                       scanDimensions.second };
+
+  MPI_Bcast(dimensions.data(), dimensions.size(), MPI_UINT32_T, 0,
+            MPI_COMM_WORLD);
+
+  frameDimensions = Dimensions2D(dimensions[0], dimensions[1]);
+  scanDimensions = Dimensions2D(dimensions[2], dimensions[3]);
+}
+
 int getSampleBlocksPerRank(int worldSize, int rank, int thresholdNumberOfBlocks)
 {
   auto sampleBlocksPerRank = thresholdNumberOfBlocks / worldSize;
-- 
2.43.0


From 74bcb87b3c57c9331eca530667dcf2e10a0822cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:09 +0000
Subject: [PATCH 48/52] fix: reading an attribute with several values
 overflowed a single variable

---
 h5cpp/h5readwrite.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index aa11199..230aa3f 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -104,6 +104,14 @@ public:
     return info.num_attrs > 0;
   }
 
+  // Only such an attribute can be read into a single variable.
+  bool hasSingleValue(hid_t attributeId)
+  {
+    hid_t dataSpaceId = H5Aget_space(attributeId);
+    HIDCloser dataSpaceCloser(dataSpaceId, H5Sclose);
+    return H5Sget_simple_extent_npoints(dataSpaceId) == 1;
+  }
+
   bool attribute(const string& path, const string& name, void* value,
                  hid_t dataTypeId, hid_t memTypeId)
   {
@@ -130,6 +138,11 @@ public:
       return false;
     }
 
+    if (!hasSingleValue(attr)) {
+      cerr << "Attribute " << path << name << " has several values." << endl;
+      return false;
+    }
+
     return H5Aread(attr, memTypeId, value) >= 0;
   }
 
@@ -637,6 +650,12 @@ string H5ReadWrite::attribute<string>(const string& path, const string& name,
     cerr << path << name << " is not a string" << endl;
     return result;
   }
+
+  if (!m_impl->hasSingleValue(attr)) {
+    cerr << "Attribute " << path << name << " has several values." << endl;
+    return result;
+  }
+
   char* tmpString;
   int is_var_str = H5Tis_variable_str(type);
   if (is_var_str > 0) { // if it is a variable-length string
-- 
2.43.0


From b94ff7e0e31473e2f4d91f58bcf3eb68d8f709f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 49/52] fix: calculate_thresholds: borrow the dark reference
 and gain arrays

The bindings release the GIL for the whole call, and took the arrays by
value: the references were dropped without the GIL, racing with every
other thread's use of the same arrays' reference counts.
---
 python/image.cpp | 54 +++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 2e41fd0..977b55a 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -137,7 +137,7 @@ struct ElectronCountOptionsPy
 
 template <typename BlockType>
 CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma)
 {
@@ -147,9 +147,9 @@ CalculateThresholdsResults<uint16_t> calculateThresholds(
 
 template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, const py::array_t<float>& gain)
 {
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -160,7 +160,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, Image<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, const py::array_t<float>& gain)
 {
   return calculateThresholds(blocks, darkReference.data.get(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -172,7 +172,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, int numberOfSamples,
   double backgroundThresholdNSigma, double xRayThresholdNSigma,
-  py::array_t<float> gain)
+  const py::array_t<float>& gain)
 {
 
   return calculateThresholds<BlockType, float, false>(
@@ -182,23 +182,23 @@ CalculateThresholdsResults<float> calculateThresholds(
 
 // Only dark reference
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 
 // Gain and darkreference
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, const py::array_t<float>& gain);
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, const py::array_t<float>& gain);
 
 template <typename InputIt>
 ElectronCountedDataPyArray electronCount(
@@ -498,25 +498,29 @@ PYBIND11_MODULE(_image, m)
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<Block>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double,
+                                          const py::array_t<float>&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double,
+                                          const py::array_t<float>&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              const py::array_t<float>&, int,
+                                              double, double,
+                                              const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              const py::array_t<float>&, int,
+                                              double, double,
+                                              const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
@@ -533,34 +537,38 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<Block>&, py::array_t<float>, int, double, double)) &
+          vector<Block>&, const py::array_t<float>&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<PyBlock>&, py::array_t<float>, int, double, double)) &
+          vector<PyBlock>&, const py::array_t<float>&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
   // Calculate thresholds, with gain and without darkreference
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double,
+                                              const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double,
+                                              const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double,
+                                              const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double,
+                                              const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
-- 
2.43.0


From 257cd66784a89168ce1d5b32b7188ede615ecd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 50/52] fix: SparseArray: full expansion does not change the
 array's settings

to_dense() and the full expansion behind the reductions switched
sparse_slicing and allow_full_expand of the array for the time of the
call: slices taken by other threads meanwhile came out dense, and two
calls at once could leave the settings changed.
---
 python/stempy/io/sparse_array.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 13e4749..48fc3d6 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -36,12 +36,8 @@ def _default_full_expansion(func):
             return ret
 
         _warning(f'performing full expansion for {name}')
-        prev_sparse_slicing = self.sparse_slicing
-        self.sparse_slicing = False
-        try:
-            expanded = self[:]
-        finally:
-            self.sparse_slicing = prev_sparse_slicing
+        # The settings are not changed, other threads may be using them
+        expanded = self._slice_dense((NONE_SLICE,), ())
         return getattr(expanded, name)(*args, **kwargs)
     return wrapper
 
@@ -309,16 +305,8 @@ class SparseArray:
         :return: the fully dense array
         :rtype: np.ndarray
         """
-        prev_allow_full_expand = self.allow_full_expand
-        prev_sparse_slicing = self.sparse_slicing
-
-        self.allow_full_expand = True
-        self.sparse_slicing = False
-        try:
-            return self[:]
-        finally:
-            self.allow_full_expand = prev_allow_full_expand
-            self.sparse_slicing = prev_sparse_slicing
+        # The settings are not changed, other threads may be using them
+        return self._slice_dense((NONE_SLICE,), (), allow_full_expand=True)
 
     @property
     def shape(self):
@@ -935,7 +923,10 @@ class SparseArray:
 
         return self.data[scan_ind]
 
-    def _slice_dense(self, scan_slices, frame_slices):
+    def _slice_dense(self, scan_slices, frame_slices, allow_full_expand=None):
+        if allow_full_expand is None:
+            allow_full_expand = self.allow_full_expand
+
         new_scan_shape = np.empty(self.scan_shape,
                                   dtype=bool)[scan_slices].shape
         new_frame_shape = np.empty(self.frame_shape,
@@ -943,7 +934,7 @@ class SparseArray:
 
         result_shape = new_scan_shape + new_frame_shape
 
-        if result_shape == self.shape and not self.allow_full_expand:
+        if result_shape == self.shape and not allow_full_expand:
             raise FullExpansionDenied('Full expansion is not allowed')
 
         # Create the result
-- 
2.43.0


From 43eb77595d9e72c4059035f9f9ba2261ab7ea78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:44 +0000
Subject: [PATCH 51/52] fix: use the values of arrays computed from an average
 image as the dark reference

ImageArray passed the C++ image of an array to the arrays derived from it, so
maximum_diffraction_pattern(reader, 2 * dark) subtracted dark.
---
 python/stempy/image/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 1f82be4..4e411b7 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -175,7 +175,8 @@ class ImageArray(np.ndarray):
 
     def __array_finalize__(self, obj):
         if obj is None: return
-        self._image = getattr(obj, '_image', None)
+        # Not that of obj: the array may be a part of it, or have other values
+        self._image = None
 
 
 def calculate_average(reader):
@@ -389,14 +390,18 @@ def maximum_diffraction_pattern(reader, darkreference=None):
     :return: the maximum diffraction pattern.
     :rtype: stempy.image.ImageArray
     """
-    if darkreference is not None:
-        darkreference = darkreference._image
-        image = _image.maximum_diffraction_pattern(reader.begin(), reader.end(), darkreference)
+    dark_image = getattr(darkreference, '_image', None)
+    if dark_image is not None:
+        image = _image.maximum_diffraction_pattern(reader.begin(), reader.end(), dark_image)
     else:
         image = _image.maximum_diffraction_pattern(reader.begin(), reader.end())
     img = ImageArray(safe_array(image, copy=False))
     img._image = image
 
+    if darkreference is not None and dark_image is None:
+        # For example, an array computed from an average image
+        img -= np.asarray(darkreference)
+
     return img
 
 
-- 
2.43.0


From 537c90bcb86f4ca9a186abbfc388f3f227986db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:44 +0000
Subject: [PATCH 52/52] fix: check the dimensions of the dark reference of the
 maximum diffraction pattern

A dark reference smaller than the frames was read out of bounds.
---
 stempy/image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index fd122eb..ff1991e 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -589,6 +589,12 @@ Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
 {
   auto frameDimensions = first->header.frameDimensions;
   auto numDetectorPixels = frameDimensions.first * frameDimensions.second;
+  if (darkreference.dimensions.first > 0 &&
+      darkreference.dimensions != frameDimensions) {
+    throw invalid_argument(
+      "The dark reference does not have the dimensions of the frames");
+  }
+
   Image<double> maxDiffPattern(frameDimensions);
 
   std::fill(maxDiffPattern.data.get(),
-- 
2.43.0

