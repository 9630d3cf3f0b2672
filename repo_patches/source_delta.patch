From 4244923aabd0e2c890b9da36822391fc9285436c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 01/52] fix: keep term vector positions when vectors are merged
 document by document

The test deciding whether positions are stored was inverted, so a merge that
cannot copy vectors in bulk either dropped the positions or failed with
"Trying to write positions that are null!".
---
 src/core/index/TermVectorsWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/TermVectorsWriter.cpp b/src/core/index/TermVectorsWriter.cpp
index 2f553f4..93578cc 100644
--- a/src/core/index/TermVectorsWriter.cpp
+++ b/src/core/index/TermVectorsWriter.cpp
@@ -65,7 +65,7 @@ void TermVectorsWriter::addAllDocVectors(Collection<TermFreqVectorPtr> vectors)
 
             if (tpVector) {
                 // May have positions & offsets
-                storePositions = (tpVector->size() > 0 && !tpVector->getTermPositions(0));
+                storePositions = (tpVector->size() > 0 && tpVector->getTermPositions(0));
                 storeOffsets = (tpVector->size() > 0 && tpVector->getOffsets(0));
                 bits = (uint8_t)((storePositions ? TermVectorsReader::STORE_POSITIONS_WITH_TERMVECTOR : 0) +
                                  (storeOffsets ? TermVectorsReader::STORE_OFFSET_WITH_TERMVECTOR : 0));
-- 
2.43.0


From d6d64585b22dea5aa3b7413da0860a8217ac62df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 02/52] fix: IndexWriter::close() after prepareCommit() no
 longer waits forever

close() waited for the prepared commit to be finished, which nobody else could
do.  Refuse with IllegalStateException instead: as documented, prepareCommit()
must be followed by commit() or rollback().
---
 src/core/index/IndexWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 8674936..29f7e44 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -699,6 +699,13 @@ void IndexWriter::closeInternal(bool waitForMerges) {
 
     LuceneException finally;
     try {
+        {
+            SyncLock messageLock(commitLock);
+            if (pendingCommit) {
+                boost::throw_exception(IllegalStateException(L"cannot close: prepareCommit was already called with no corresponding call to commit"));
+            }
+        }
+
         if (infoStream) {
             message(L"now flush at close");
         }
-- 
2.43.0


From f5b36c8be9cdfb01e6dbb9a9c2b92531e94c02f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 03/52] fix: isCurrent() of a cloned near-real-time reader no
 longer crashes

The clone kept the writer but not the segment infos the reader started from,
which isCurrent() passes to the writer.
---
 src/core/index/DirectoryReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 8704c32..6a981e0 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -314,6 +314,7 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
     }
 
     newReader->_writer = _writer;
+    newReader->segmentInfosStart = segmentInfosStart;
 
     // If we're cloning a non-readOnly reader, move the writeLock (if there is one) to the new reader
     if (!openReadOnly && writeLock) {
-- 
2.43.0


From f92c72a7f838e47e4e33e5830c3826cb53da1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 04/52] fix: a clone of a stale reader is stale too and cannot
 overwrite newer commits

---
 src/core/index/DirectoryReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 6a981e0..89c0ec9 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -316,6 +316,11 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
     newReader->_writer = _writer;
     newReader->segmentInfosStart = segmentInfosStart;
 
+    if (!openReadOnly) {
+        // The clone shares our point in time: it must be no less stale than we are
+        newReader->maxIndexVersion = readOnly ? segmentInfos->getVersion() : maxIndexVersion;
+    }
+
     // If we're cloning a non-readOnly reader, move the writeLock (if there is one) to the new reader
     if (!openReadOnly && writeLock) {
         // In near real-time search, reader is always readonly
-- 
2.43.0


From c9a8616a268c6f5972511cca05c860a1a32e53a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 05/52] fix: reopened readers keep the deletion policy of the
 reader they come from

---
 src/core/index/DirectoryReader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 89c0ec9..3a90a2d 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -845,7 +845,10 @@ FindSegmentsReopen::~FindSegmentsReopen() {
 DirectoryReaderPtr FindSegmentsReopen::doBody(const String& segmentFileName) {
     SegmentInfosPtr segmentInfos(_segmentInfos);
     segmentInfos->read(directory, segmentFileName);
-    return DirectoryReaderPtr(_reader)->doReopen(segmentInfos, false, openReadOnly);
+    DirectoryReaderPtr reader(_reader);
+    DirectoryReaderPtr newReader(reader->doReopen(segmentInfos, false, openReadOnly));
+    newReader->deletionPolicy = reader->deletionPolicy;
+    return newReader;
 }
 
 MultiTermEnum::MultiTermEnum(const IndexReaderPtr& topReader, Collection<IndexReaderPtr> readers, Collection<int32_t> starts, const TermPtr& t) {
-- 
2.43.0


From 8f988c712db03baa25585177513ef65c05f39483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 06/52] fix: commit racing the first flush no longer reads past
 the start of the segment list

---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 29f7e44..c584336 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3164,7 +3164,7 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
 
                 String dss(docWriter->getDocStoreSegment());
                 if (!dss.empty()) {
-                    while (true) {
+                    while (!toSync->empty()) {
                         String dss2(toSync->info(toSync->size() - 1)->getDocStoreSegment());
                         if (dss2.empty() || dss2 != dss) {
                             break;
-- 
2.43.0


From 216c2415da1c3b1f9766c8ea9e7b22581ce4e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 07/52] fix: a commit waiting for another thread's failed sync
 no longer waits forever

---
 include/lucene++/IndexWriter.h | 2 +-
 src/core/index/IndexWriter.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lucene++/IndexWriter.h b/include/lucene++/IndexWriter.h
index 5ace809..cfff12b 100644
--- a/include/lucene++/IndexWriter.h
+++ b/include/lucene++/IndexWriter.h
@@ -1078,7 +1078,7 @@ protected:
     virtual void finishSync(const String& fileName, bool success);
 
     /// Blocks until all files in syncing are sync'd
-    bool waitForAllSynced(HashSet<String> syncing);
+    bool waitForAllSynced(HashSet<String> pending);
     void doWait();
 
     /// Walk through all files referenced by the current segmentInfos and ask the Directory to sync each
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index c584336..bd74c21 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3087,9 +3087,9 @@ void IndexWriter::finishSync(const String& fileName, bool success) {
     synced.notifyAll();
 }
 
-bool IndexWriter::waitForAllSynced(HashSet<String> syncing) {
+bool IndexWriter::waitForAllSynced(HashSet<String> pending) {
     SyncLock syncedLock(&synced);
-    for (HashSet<String>::iterator fileName = syncing.begin(); fileName != syncing.end(); ++fileName) {
+    for (HashSet<String>::iterator fileName = pending.begin(); fileName != pending.end(); ++fileName) {
         while (!synced.contains(*fileName)) {
             if (!syncing.contains(*fileName)) {
                 // There was an error because a file that was previously syncing failed to appear in synced
@@ -3164,7 +3164,7 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
 
                 String dss(docWriter->getDocStoreSegment());
                 if (!dss.empty()) {
-                    while (!toSync->empty()) {
+                    while (toSync->size() > 0) {
                         String dss2(toSync->info(toSync->size() - 1)->getDocStoreSegment());
                         if (dss2.empty() || dss2 != dss) {
                             break;
-- 
2.43.0


From 19b89fe70d457feb86e45bb429d441c68f00151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 08/52] fix: report failed writes of SimpleFSDirectory and
 MMapDirectory files

---
 src/core/store/SimpleFSDirectory.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index 88d3949..38d3dc9 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -211,8 +211,13 @@ SimpleFSIndexOutput::~SimpleFSIndexOutput() {
 }
 
 void SimpleFSIndexOutput::flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
-    file->write(b, offset, length);
+    if (!file->write(b, offset, length)) {
+        boost::throw_exception(IOException(L"Write failure"));
+    }
     file->flush();
+    if (!file->isValid()) {
+        boost::throw_exception(IOException(L"Write failure"));
+    }
 }
 
 void SimpleFSIndexOutput::close() {
-- 
2.43.0


From 491d4528258d3955072ed9f60312ae67f50ffc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 09/52] fix: MMapDirectory reads empty files and reports reads
 past the end of a file

---
 src/core/include/_MMapDirectory.h |  1 +
 src/core/store/MMapDirectory.cpp  | 29 ++++++++++++++++++-----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/core/include/_MMapDirectory.h b/src/core/include/_MMapDirectory.h
index 3438f66..cb491f7 100644
--- a/src/core/include/_MMapDirectory.h
+++ b/src/core/include/_MMapDirectory.h
@@ -22,6 +22,7 @@ public:
 protected:
     int32_t _length;
     bool isClone;
+    bool isOpen;
     boost::iostreams::mapped_file_source file;
     int32_t bufferPosition; // next byte to read
 
diff --git a/src/core/store/MMapDirectory.cpp b/src/core/store/MMapDirectory.cpp
index 46156e3..349a6e7 100644
--- a/src/core/store/MMapDirectory.cpp
+++ b/src/core/store/MMapDirectory.cpp
@@ -34,7 +34,11 @@ IndexOutputPtr MMapDirectory::createOutput(const String& name) {
 MMapIndexInput::MMapIndexInput(const String& path) {
     _length = path.empty() ? 0 : (int32_t)FileUtils::fileLength(path);
     bufferPosition = 0;
-    if (!path.empty()) {
+    isOpen = !path.empty();
+    if (isOpen && !FileUtils::fileExists(path)) {
+        boost::throw_exception(FileNotFoundException(path));
+    }
+    if (isOpen && _length > 0) { // an empty file cannot be mapped
         try {
             file.open(boost::filesystem::path(path), _length);
         } catch (...) {
@@ -48,20 +52,19 @@ MMapIndexInput::~MMapIndexInput() {
 }
 
 uint8_t MMapIndexInput::readByte() {
-    try {
-        return file.data()[bufferPosition++];
-    } catch (...) {
+    if (bufferPosition < 0 || bufferPosition >= _length) {
         boost::throw_exception(IOException(L"Read past EOF"));
-        return 0;
     }
+    return file.data()[bufferPosition++];
 }
 
 void MMapIndexInput::readBytes(uint8_t* b, int32_t offset, int32_t length) {
-    try {
+    if (bufferPosition < 0 || length > _length - bufferPosition) {
+        boost::throw_exception(IOException(L"Read past EOF"));
+    }
+    if (length > 0) {
         MiscUtils::arrayCopy(file.data(), bufferPosition, b, offset, length);
         bufferPosition += length;
-    } catch (...) {
-        boost::throw_exception(IOException(L"Read past EOF"));
     }
 }
 
@@ -78,21 +81,25 @@ int64_t MMapIndexInput::length() {
 }
 
 void MMapIndexInput::close() {
-    if (isClone || !file.is_open()) {
+    if (isClone || !isOpen) {
         return;
     }
+    isOpen = false;
     _length = 0;
     bufferPosition = 0;
-    file.close();
+    if (file.is_open()) {
+        file.close();
+    }
 }
 
 LuceneObjectPtr MMapIndexInput::clone(const LuceneObjectPtr& other) {
-    if (!file.is_open()) {
+    if (!isOpen) {
         boost::throw_exception(AlreadyClosedException(L"MMapIndexInput already closed"));
     }
     LuceneObjectPtr clone = IndexInput::clone(other ? other : newLucene<MMapIndexInput>());
     MMapIndexInputPtr cloneIndexInput(boost::dynamic_pointer_cast<MMapIndexInput>(clone));
     cloneIndexInput->_length = _length;
+    cloneIndexInput->isOpen = isOpen;
     cloneIndexInput->file = file;
     cloneIndexInput->bufferPosition = bufferPosition;
     cloneIndexInput->isClone = true;
-- 
2.43.0


From 0eb29036683e8b39f07eeae7e618adbda83e8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 10/52] fix: near-real-time readers no longer follow later
 changes of the writer's segment list

---
 src/core/index/DirectoryReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 3a90a2d..5dde59b 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -92,7 +92,8 @@ DirectoryReader::DirectoryReader(const IndexWriterPtr& writer, const SegmentInfo
 
     this->_directory = writer->getDirectory();
     this->readOnly = true;
-    this->segmentInfos = infos;
+    // keep our own copy: the writer goes on changing its infos
+    this->segmentInfos = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
     this->segmentInfosStart = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
     this->termInfosIndexDivisor = termInfosIndexDivisor;
 
-- 
2.43.0


From 2e4077ce1404fa63278ae245ef57f500a66ba806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 11/52] fix: isCurrent() of a near-real-time reader notices
 deletions applied since it was opened

---
 include/lucene++/DirectoryReader.h | 1 +
 include/lucene++/IndexWriter.h     | 3 ++-
 src/core/index/DirectoryReader.cpp | 7 ++++++-
 src/core/index/IndexWriter.cpp     | 5 ++++-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/lucene++/DirectoryReader.h b/include/lucene++/DirectoryReader.h
index dfe1944..28f11ce 100644
--- a/include/lucene++/DirectoryReader.h
+++ b/include/lucene++/DirectoryReader.h
@@ -42,6 +42,7 @@ protected:
     LockPtr writeLock;
     SegmentInfosPtr segmentInfos;
     SegmentInfosPtr segmentInfosStart;
+    int64_t changeCountStart; // the writer's change count when it handed out this near-real-time reader
     bool stale;
     int32_t termInfosIndexDivisor;
 
diff --git a/include/lucene++/IndexWriter.h b/include/lucene++/IndexWriter.h
index cfff12b..6adca0a 100644
--- a/include/lucene++/IndexWriter.h
+++ b/include/lucene++/IndexWriter.h
@@ -950,7 +950,7 @@ public:
     ///   startMergeInit
     virtual bool testPoint(const String& name);
 
-    virtual bool nrtIsCurrent(const SegmentInfosPtr& infos);
+    virtual bool nrtIsCurrent(const SegmentInfosPtr& infos, int64_t changeCountStart);
     virtual bool isClosed();
 
 protected:
@@ -1089,6 +1089,7 @@ protected:
     virtual LuceneException handleOOM(const std::bad_alloc& oom, const String& location);
 
     friend class ReaderPool;
+    friend class DirectoryReader;
 };
 
 /// If {@link #getReader} has been called (ie, this writer is in near real-time mode), then after
diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 5dde59b..81786f6 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -37,6 +37,7 @@ DirectoryReader::DirectoryReader(const DirectoryPtr& directory, const SegmentInf
     synced = HashSet<String>::newInstance();
     stale = false;
     rollbackHasChanges = false;
+    changeCountStart = 0;
 
     this->_directory = directory;
     this->readOnly = readOnly;
@@ -89,12 +90,14 @@ DirectoryReader::DirectoryReader(const IndexWriterPtr& writer, const SegmentInfo
     synced = HashSet<String>::newInstance();
     stale = false;
     rollbackHasChanges = false;
+    changeCountStart = 0;
 
     this->_directory = writer->getDirectory();
     this->readOnly = true;
     // keep our own copy: the writer goes on changing its infos
     this->segmentInfos = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
     this->segmentInfosStart = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
+    this->changeCountStart = writer->changeCount;
     this->termInfosIndexDivisor = termInfosIndexDivisor;
 
     if (!readOnly) {
@@ -157,6 +160,7 @@ DirectoryReader::DirectoryReader(const DirectoryPtr& directory, const SegmentInf
     synced = HashSet<String>::newInstance();
     stale = false;
     rollbackHasChanges = false;
+    changeCountStart = 0;
 
     this->_directory = directory;
     this->readOnly = readOnly;
@@ -316,6 +320,7 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
 
     newReader->_writer = _writer;
     newReader->segmentInfosStart = segmentInfosStart;
+    newReader->changeCountStart = changeCountStart;
 
     if (!openReadOnly) {
         // The clone shares our point in time: it must be no less stale than we are
@@ -723,7 +728,7 @@ bool DirectoryReader::isCurrent() {
         // we loaded SegmentInfos from the directory
         return (SegmentInfos::readCurrentVersion(_directory) == segmentInfos->getVersion());
     } else {
-        return writer->nrtIsCurrent(segmentInfosStart);
+        return writer->nrtIsCurrent(segmentInfosStart, changeCountStart);
     }
 }
 
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index bd74c21..d03feb9 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3344,7 +3344,7 @@ bool IndexWriter::testPoint(const String& name) {
     return true;
 }
 
-bool IndexWriter::nrtIsCurrent(const SegmentInfosPtr& infos) {
+bool IndexWriter::nrtIsCurrent(const SegmentInfosPtr& infos, int64_t changeCountStart) {
     SyncLock syncLock(this);
     if (!infos->equals(segmentInfos)) {
         // if any structural changes (new segments), we are stale
@@ -3352,6 +3352,9 @@ bool IndexWriter::nrtIsCurrent(const SegmentInfosPtr& infos) {
     } else if (infos->getGeneration() != segmentInfos->getGeneration()) {
         // if any commit took place since we were opened, we are stale
         return false;
+    } else if (changeCount != changeCountStart) {
+        // if any change took place since we were opened (eg deletes applied to a pooled reader), we are stale
+        return false;
     } else {
         return !docWriter->anyChanges();
     }
-- 
2.43.0


From c28d0ee8415b9ed4fdf859f78f1e6dfed3692ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 12/52] fix: deleteAll() no longer deletes the segments file of
 a prepared commit

---
 src/core/index/IndexWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index d03feb9..58e06ba 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1456,6 +1456,7 @@ void IndexWriter::rollbackInternal() {
 
             if (pendingCommit) {
                 pendingCommit->rollbackCommit(directory);
+                deleter->decRef(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", pendingCommit->getGeneration()));
                 deleter->decRef(pendingCommit);
                 pendingCommit.reset();
                 notifyAll();
@@ -2057,6 +2058,7 @@ void IndexWriter::finishCommit() {
             finally = e;
         }
 
+        deleter->decRef(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", pendingCommit->getGeneration()));
         deleter->decRef(pendingCommit);
         pendingCommit.reset();
         notifyAll();
@@ -3277,6 +3279,8 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
                             BOOST_ASSERT(!pendingCommit);
                             setPending = true;
                             pendingCommit = toSync;
+                            // Protect the pending segments_N file until the commit is finished or rolled back
+                            deleter->incRef(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", pendingCommit->getGeneration()));
                             pendingCommitChangeCount = myChangeCount;
                             success = true;
                         } catch (LuceneException& e) {
-- 
2.43.0


From aa6a56afa9a6d1967f83151d31c748951607ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 13/52] fix: a commit whose segments file cannot be synced
 fails instead of being silently dropped

---
 src/core/index/SegmentInfos.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 2593152..4555eec 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -599,12 +599,18 @@ void SegmentInfos::finishCommit(const DirectoryPtr& dir) {
     try {
         dir->sync(fileName);
         success = true;
-    } catch (...) {
+    } catch (LuceneException& e) {
+        finally = e;
     }
 
     if (!success) {
-        dir->deleteFile(fileName);
+        try {
+            dir->deleteFile(fileName);
+        } catch (...) {
+            // Suppress so we keep throwing the original exception
+        }
     }
+    finally.throwException();
 
     lastGeneration = generation;
     IndexOutputPtr genOutput;
-- 
2.43.0


From 4eb9ea021d77174bcc2ce223a4706bc2a7710aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 14/52] fix: deletions and norms written from an older commit
 no longer overwrite files of newer commits

---
 src/core/index/SegmentInfo.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/index/SegmentInfo.cpp b/src/core/index/SegmentInfo.cpp
index ed8deb3..a2558fd 100644
--- a/src/core/index/SegmentInfo.cpp
+++ b/src/core/index/SegmentInfo.cpp
@@ -217,6 +217,10 @@ void SegmentInfo::advanceDelGen() {
     } else {
         delGen++;
     }
+    // never overwrite a file that another commit still refers to
+    while (dir->fileExists(getDelFileName())) {
+        delGen++;
+    }
     clearFiles();
 }
 
@@ -309,6 +313,10 @@ void SegmentInfo::advanceNormGen(int32_t fieldIndex) {
     } else {
         normGen[fieldIndex]++;
     }
+    // never overwrite a file that another commit still refers to
+    while (dir->fileExists(getNormFileName(fieldIndex))) {
+        normGen[fieldIndex]++;
+    }
     clearFiles();
 }
 
-- 
2.43.0


From 38014fab2728f407bcb2f8eeb0db57dbd9066da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 15/52] fix: near-real-time readers whose writer is gone reopen
 without sharing uncommitted segments

---
 include/lucene++/DirectoryReader.h |  1 +
 src/core/index/DirectoryReader.cpp | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/lucene++/DirectoryReader.h b/include/lucene++/DirectoryReader.h
index 28f11ce..4c6c116 100644
--- a/include/lucene++/DirectoryReader.h
+++ b/include/lucene++/DirectoryReader.h
@@ -42,6 +42,7 @@ protected:
     LockPtr writeLock;
     SegmentInfosPtr segmentInfos;
     SegmentInfosPtr segmentInfosStart;
+    SegmentInfosPtr segmentInfosWriter; // the infos of the writer, as the writer last left them
     int64_t changeCountStart; // the writer's change count when it handed out this near-real-time reader
     bool stale;
     int32_t termInfosIndexDivisor;
diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 81786f6..73050fa 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -97,6 +97,7 @@ DirectoryReader::DirectoryReader(const IndexWriterPtr& writer, const SegmentInfo
     // keep our own copy: the writer goes on changing its infos
     this->segmentInfos = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
     this->segmentInfosStart = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
+    this->segmentInfosWriter = infos;
     this->changeCountStart = writer->changeCount;
     this->termInfosIndexDivisor = termInfosIndexDivisor;
 
@@ -320,6 +321,7 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
 
     newReader->_writer = _writer;
     newReader->segmentInfosStart = segmentInfosStart;
+    newReader->segmentInfosWriter = segmentInfosWriter;
     newReader->changeCountStart = changeCountStart;
 
     if (!openReadOnly) {
@@ -378,6 +380,10 @@ IndexReaderPtr DirectoryReader::doReopen(bool openReadOnly, const IndexCommitPtr
     // If we were obtained by writer.getReader(), re-ask the writer to get a new reader.
     if (writer) {
         return doReopenFromWriter(openReadOnly, commit);
+    } else if (segmentInfosStart) {
+        // Our writer is gone. Our segments may never have been committed and a later writer may have reused their
+        // names, so we cannot share anything with the new reader
+        return open(_directory, deletionPolicy, commit, openReadOnly, termInfosIndexDivisor);
     } else {
         return doReopenNoWriter(openReadOnly, commit);
     }
@@ -724,7 +730,19 @@ MapStringString DirectoryReader::getCommitUserData() {
 bool DirectoryReader::isCurrent() {
     ensureOpen();
     IndexWriterPtr writer(_writer.lock());
-    if (!writer || writer->isClosed()) {
+    if (segmentInfosStart && (!writer || writer->isClosed())) {
+        // Our segments may never have been committed: we are current only if our writer left the index the way we see it,
+        // and nobody changed it since
+        if (!segmentInfosStart->equals(segmentInfosWriter)) {
+            return false;
+        }
+        for (int32_t i = 0; i < subReaders.size(); ++i) {
+            if (segmentInfosWriter->info(i)->getDelCount() != subReaders[i]->maxDoc() - subReaders[i]->numDocs()) {
+                return false;
+            }
+        }
+        return (SegmentInfos::readCurrentVersion(_directory) == segmentInfosWriter->getVersion());
+    } else if (!writer || writer->isClosed()) {
         // we loaded SegmentInfos from the directory
         return (SegmentInfos::readCurrentVersion(_directory) == segmentInfos->getVersion());
     } else {
-- 
2.43.0


From 8d3898b1527a883f2f713f857238fa7f18555316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:03 +0000
Subject: [PATCH 16/52] fix: a file name waiting for deletion is not deleted
 once a new segment uses it again

---
 src/core/index/IndexFileDeleter.cpp | 30 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index cb30e2f..8de0f77 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -238,12 +238,22 @@ void IndexFileDeleter::checkpoint(const SegmentInfosPtr& segmentInfos, bool isCo
         message(L"now checkpoint \"" + segmentInfos->getCurrentSegmentFileName() + L"\" [" + StringUtils::toString(segmentInfos->size()) + L" segments; isCommit = " + StringUtils::toString(isCommit) + L"]");
     }
 
-    // Try again now to delete any previously un-deletable files (because they were in use, on Windows)
-    deletePendingFiles();
-
     // Incref the files
     incRef(segmentInfos, isCommit);
 
+    HashSet<String> docWriterFiles;
+    if (!isCommit && docWriter) {
+        docWriterFiles = docWriter->openFiles();
+        if (docWriterFiles) {
+            // We must incRef these files before decRef'ing last files to make sure we
+            // don't accidentally delete them
+            incRef(docWriterFiles);
+        }
+    }
+
+    // Try again now to delete any previously un-deletable files (because they were in use, on Windows)
+    deletePendingFiles();
+
     if (isCommit) {
         // Append to our commits list
         commits.add(newLucene<CommitPoint>(commitsToDelete, directory, segmentInfos));
@@ -254,16 +264,6 @@ void IndexFileDeleter::checkpoint(const SegmentInfosPtr& segmentInfos, bool isCo
         // Decref files for commits that were deleted by the policy
         deleteCommits();
     } else {
-        HashSet<String> docWriterFiles;
-        if (docWriter) {
-            docWriterFiles = docWriter->openFiles();
-            if (docWriterFiles) {
-                // We must incRef these files before decRef'ing last files to make sure we
-                // don't accidentally delete them
-                incRef(docWriterFiles);
-            }
-        }
-
         // DecRef old files from the last checkpoint, if any
         for (Collection< HashSet<String> >::iterator file = lastFiles.begin(); file != lastFiles.end(); ++file) {
             decRef(*file);
@@ -294,6 +294,10 @@ void IndexFileDeleter::incRef(HashSet<String> files) {
 }
 
 void IndexFileDeleter::incRef(const String& fileName) {
+    if (deletable) {
+        // The name of a file that could not be deleted earlier is in use again
+        deletable.remove(fileName);
+    }
     RefCountPtr rc(getRefCount(fileName));
     if (infoStream && VERBOSE_REF_COUNTS) {
         message(L"  IncRef \"" + fileName + L"\": pre-incr count is " + StringUtils::toString(rc->count));
-- 
2.43.0


From 69db263d04641cdad06dc0b9b9929d45963b5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:26 +0000
Subject: [PATCH 17/52] fix: deletions buffered after addIndexes(readers) apply
 to the documents they are meant for

---
 src/core/index/IndexWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 58e06ba..f3168e2 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1886,8 +1886,8 @@ void IndexWriter::addIndexes(Collection<IndexReaderPtr> readers) {
                     segmentInfos->add(info);
                 }
 
-                // Notify DocumentsWriter that the flushed count just increased
-                docWriter->updateFlushedDocCount(docCount);
+                // Notify DocumentsWriter of the new flushed count: the merged segment also holds our existing documents
+                docWriter->setFlushedDocCount(docCount);
 
                 success = true;
             } catch (LuceneException& e) {
-- 
2.43.0


From 62785fd54cbdcb1f86efb56ec481aced76e2e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 18/52] fix: norms changed through a reader no longer show in
 clones taken before

---
 src/core/index/SegmentReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 201da19..5d17dce 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -1117,6 +1117,11 @@ LuceneObjectPtr Norm::clone(const LuceneObjectPtr& other) {
     SyncLock syncLock(this);
 
     BOOST_ASSERT(refCount > 0 && (!origNorm || origNorm->refCount > 0));
+    if (!_bytes && !origNorm && !SegmentReaderPtr(_reader)->readOnly) {
+        // Our reader may still change these norms, so the clone cannot wait for us to load them: share the bytes instead,
+        // copyOnWrite then keeps our changes to ourselves
+        bytes();
+    }
     LuceneObjectPtr clone = other ? other : newLucene<Norm>();
     NormPtr cloneNorm(boost::dynamic_pointer_cast<Norm>(clone));
     cloneNorm->_reader = _reader;
-- 
2.43.0


From 3aa10382f75ae3d2f014b87b9f0071f318761ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 19/52] fix: reopening a changed reader on another commit no
 longer shows the uncommitted changes

---
 src/core/index/DirectoryReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 73050fa..7fd8c47 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -425,6 +425,10 @@ IndexReaderPtr DirectoryReader::doReopenNoWriter(bool openReadOnly, const IndexC
                 return shared_from_this();
             }
         }
+        if (_hasChanges) {
+            // our segments hold changes that are not part of that commit, so we cannot share them with the new reader
+            return open(_directory, deletionPolicy, commit, openReadOnly, termInfosIndexDivisor);
+        }
     }
 
     return newLucene<FindSegmentsReopen>(shared_from_this(), openReadOnly, newLucene<SegmentInfos>(), _directory)->run(commit);
-- 
2.43.0


From c1bfba0a51cc6420bb7d0a60f765dca7a201ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 20/52] fix: names of files that could not be deleted are not
 given to new segments

---
 src/core/index/IndexFileDeleter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index 8de0f77..7512008 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -124,6 +124,17 @@ IndexFileDeleter::IndexFileDeleter(const DirectoryPtr& directory, const IndexDel
         }
     }
 
+    // Files that could not be deleted (because they are in use, on Windows) must not be mistaken for files of new segments:
+    // never hand out the names of their segments again
+    if (deletable) {
+        for (HashSet<String>::iterator fileName = deletable.begin(); fileName != deletable.end(); ++fileName) {
+            if (boost::starts_with(*fileName, L"_")) {
+                String segmentName(fileName->substr(1, fileName->find_first_of(L"._", 1) - 1));
+                segmentInfos->counter = std::max(segmentInfos->counter, (int32_t)StringUtils::toLong(segmentName, StringUtils::CHARACTER_MAX_RADIX) + 1);
+            }
+        }
+    }
+
     // Finally, give policy a chance to remove things on startup
     policy->onInit(commits);
 
-- 
2.43.0


From 37fabd4b2c3e47543610c7732a0a1ef04c348809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:45 +0000
Subject: [PATCH 21/52] fix: remove the compound doc store file that no segment
 uses any more

---
 src/core/index/IndexWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index f3168e2..d4d53c8 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2252,6 +2252,13 @@ bool IndexWriter::doFlushInternal(bool flushDocStores, bool flushDeletes) {
             checkpoint();
         }
 
+        if (docStoreIsCompoundFile) {
+            // All segments sharing the doc store may have been merged away before it was closed
+            HashSet<String> compoundDocStore(HashSet<String>::newInstance());
+            compoundDocStore.add(docStoreSegment + L"." + IndexFileNames::COMPOUND_FILE_STORE_EXTENSION());
+            deleter->deleteNewFiles(compoundDocStore);
+        }
+
         if (flushDeletes) {
             applyDeletes();
         }
-- 
2.43.0


From 90695e6fcc28a17a1d16aa273966eb7efb4ac787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 22/52] fix: closing the shared doc store no longer marks
 segments of other directories as using it

---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index d4d53c8..7d73366 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -848,7 +848,7 @@ bool IndexWriter::flushDocStores() {
 
         for (int32_t i = 0; i < numSegments; ++i) {
             SegmentInfoPtr si(segmentInfos->info(i));
-            if (si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
+            if (si->dir == directory && si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
                 si->setDocStoreIsCompoundFile(true);
             }
         }
-- 
2.43.0


From bd3cae3af0851aa659c12af4aafc680d6a761020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 23/52] fix: a clone of a changed reader no longer carries the
 uncommitted changes into a reopened reader

---
 include/lucene++/DirectoryReader.h |  1 +
 src/core/index/DirectoryReader.cpp | 15 +++++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/lucene++/DirectoryReader.h b/include/lucene++/DirectoryReader.h
index 4c6c116..e784e1a 100644
--- a/include/lucene++/DirectoryReader.h
+++ b/include/lucene++/DirectoryReader.h
@@ -45,6 +45,7 @@ protected:
     SegmentInfosPtr segmentInfosWriter; // the infos of the writer, as the writer last left them
     int64_t changeCountStart; // the writer's change count when it handed out this near-real-time reader
     bool stale;
+    bool diverged; // our segments show changes that were made through the reader we are a clone of, or taken over by our clone
     int32_t termInfosIndexDivisor;
 
     bool rollbackHasChanges;
diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 7fd8c47..9550f07 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -36,6 +36,7 @@ DirectoryReader::DirectoryReader(const DirectoryPtr& directory, const SegmentInf
     _hasDeletions = false;
     synced = HashSet<String>::newInstance();
     stale = false;
+    diverged = false;
     rollbackHasChanges = false;
     changeCountStart = 0;
 
@@ -89,6 +90,7 @@ DirectoryReader::DirectoryReader(const IndexWriterPtr& writer, const SegmentInfo
     _hasDeletions = false;
     synced = HashSet<String>::newInstance();
     stale = false;
+    diverged = false;
     rollbackHasChanges = false;
     changeCountStart = 0;
 
@@ -160,6 +162,7 @@ DirectoryReader::DirectoryReader(const DirectoryPtr& directory, const SegmentInf
     _hasDeletions = false;
     synced = HashSet<String>::newInstance();
     stale = false;
+    diverged = false;
     rollbackHasChanges = false;
     changeCountStart = 0;
 
@@ -329,6 +332,8 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
         newReader->maxIndexVersion = readOnly ? segmentInfos->getVersion() : maxIndexVersion;
     }
 
+    newReader->diverged = (diverged || (openReadOnly && _hasChanges));
+
     // If we're cloning a non-readOnly reader, move the writeLock (if there is one) to the new reader
     if (!openReadOnly && writeLock) {
         // In near real-time search, reader is always readonly
@@ -337,6 +342,7 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
         newReader->_hasChanges = _hasChanges;
         newReader->_hasDeletions = _hasDeletions;
         writeLock.reset();
+        diverged = (diverged || _hasChanges);
         _hasChanges = false;
     }
 
@@ -425,10 +431,11 @@ IndexReaderPtr DirectoryReader::doReopenNoWriter(bool openReadOnly, const IndexC
                 return shared_from_this();
             }
         }
-        if (_hasChanges) {
-            // our segments hold changes that are not part of that commit, so we cannot share them with the new reader
-            return open(_directory, deletionPolicy, commit, openReadOnly, termInfosIndexDivisor);
-        }
+    }
+
+    if (_hasChanges || diverged) {
+        // our segments hold changes that are not part of any commit, so we cannot share them with the new reader
+        return open(_directory, deletionPolicy, commit, openReadOnly, termInfosIndexDivisor);
     }
 
     return newLucene<FindSegmentsReopen>(shared_from_this(), openReadOnly, newLucene<SegmentInfos>(), _directory)->run(commit);
-- 
2.43.0


From c939cf319200222ffe8d74cc2ddc4a4df49e7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 24/52] fix: norms whose reading failed are read again, not
 taken for loaded

---
 src/core/index/SegmentReader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 5d17dce..df82dca 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -1070,7 +1070,7 @@ ByteArray Norm::bytes() {
         } else {
             // We are the origNorm, so load the bytes for real ourself
             int32_t count = SegmentReaderPtr(_reader)->maxDoc();
-            _bytes = ByteArray::newInstance(count);
+            ByteArray loaded(ByteArray::newInstance(count));
 
             // Since we are orig, in must not be null
             BOOST_ASSERT(in);
@@ -1079,9 +1079,11 @@ ByteArray Norm::bytes() {
             {
                 SyncLock instancesLock(in);
                 in->seek(normSeek);
-                in->readBytes(_bytes.get(), 0, count, false);
+                in->readBytes(loaded.get(), 0, count, false);
             }
 
+            // Only now: after a failed read there are still no bytes
+            _bytes = loaded;
             _bytesRef = newLucene<SegmentReaderRef>();
             closeInput();
         }
-- 
2.43.0


From f90f8effa1b620b74597e89aefa2e4a5dcba04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 25/52] fix: after a failed commit and a power failure during
 the next one, the last commit is found

---
 src/core/index/SegmentInfos.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 4555eec..f7d048f 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -485,7 +485,25 @@ void FindSegmentsFile::doRun(const IndexCommitPtr& commit) {
                 // segments_(N-1) (because gen > 1). So, check if the segments_(N-1) exists and try it if so.
                 String prevSegmentFileName(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", gen - 1));
 
-                if (directory->fileExists(prevSegmentFileName)) {
+                bool prevExists = directory->fileExists(prevSegmentFileName);
+                if (!prevExists) {
+                    // a commit that failed leaves a gap in the generations: the prior commit may be older than N-1
+                    HashSet<String> files(directory->listAll());
+                    HashSet<String> olderFiles(HashSet<String>::newInstance());
+                    for (HashSet<String>::iterator file = files.begin(); file != files.end(); ++file) {
+                        if (boost::starts_with(*file, IndexFileNames::SEGMENTS()) && *file != IndexFileNames::SEGMENTS_GEN() &&
+                                SegmentInfos::generationFromSegmentsFileName(*file) < gen) {
+                            olderFiles.add(*file);
+                        }
+                    }
+                    int64_t prevGen = segmentInfos->getCurrentSegmentGeneration(olderFiles);
+                    if (prevGen != -1) {
+                        prevSegmentFileName = IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", prevGen);
+                        prevExists = true;
+                    }
+                }
+
+                if (prevExists) {
                     segmentInfos->message(L"fallback to prior segment file '" + prevSegmentFileName + L"'");
 
                     try {
-- 
2.43.0


From 0ee47509244617ffb51039033ecc8884b943dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 26/52] fix: a failure to open the term vectors no longer makes
 them disappear silently

---
 src/core/index/SegmentReader.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index df82dca..7040c6d 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -906,18 +906,21 @@ void CoreReaders::openDocStores(const SegmentInfoPtr& si) {
 
         String storesSegment(si->getDocStoreOffset() != -1 ? si->getDocStoreSegment() : segment);
 
-        fieldsReaderOrig = newLucene<FieldsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount);
+        FieldsReaderPtr fieldsReader(newLucene<FieldsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount));
 
         // Verify two sources of "maxDoc" agree
-        if (si->getDocStoreOffset() == -1 && fieldsReaderOrig->size() != si->docCount) {
+        if (si->getDocStoreOffset() == -1 && fieldsReader->size() != si->docCount) {
             boost::throw_exception(CorruptIndexException(L"doc counts differ for segment " + segment +
-                                   L": fieldsReader shows " + StringUtils::toString(fieldsReaderOrig->size()) +
+                                   L": fieldsReader shows " + StringUtils::toString(fieldsReader->size()) +
                                    L" but segmentInfo shows " + StringUtils::toString(si->docCount)));
         }
 
         if (fieldInfos->hasVectors()) { // open term vector files only as needed
             termVectorsReaderOrig = newLucene<TermVectorsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount);
         }
+
+        // Only now that everything is open: after an exception above the stores are opened again
+        fieldsReaderOrig = fieldsReader;
     }
 }
 
-- 
2.43.0


From 4a572f68cd130a60c2ee52a94d3e6dfdc2aca5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 27/52] fix: deletions performed before a failure are committed
 rather than forgotten

---
 src/core/index/IndexWriter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 7d73366..0fa516f 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3028,11 +3028,13 @@ bool IndexWriter::applyDeletes() {
         message(L"hit exception flushing deletes");
     }
 
-    finally.throwException();
-
-    if (changed) {
+    // After an exception some segments may have changed already; applying the deletes again would not tell
+    if (changed || !success) {
         checkpoint();
     }
+
+    finally.throwException();
+
     return changed;
 }
 
-- 
2.43.0


From f2988b5ad36109a8b8ab76b8905140348ccbcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 28/52] fix: names of files removed when a writer opens on a
 crashed index are forgotten, so their successors are cleaned up

---
 src/core/index/IndexFileDeleter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index 7512008..bf3c56b 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -115,15 +115,22 @@ IndexFileDeleter::IndexFileDeleter(const DirectoryPtr& directory, const IndexDel
     std::sort(commits.begin(), commits.end(), luceneCompare<IndexCommitPtr>());
 
     // Now delete anything with ref count at 0.  These are presumably abandoned files eg due to crash of IndexWriter.
+    HashSet<String> unreferenced(HashSet<String>::newInstance());
     for (MapStringRefCount::iterator entry = refCounts.begin(); entry != refCounts.end(); ++entry) {
         if (entry->second->count == 0) {
             if (infoStream) {
                 message(L"init: removing unreferenced file \"" + entry->first + L"\"");
             }
             deleteFile(entry->first);
+            unreferenced.add(entry->first);
         }
     }
 
+    // Forget about them: their names may be used again, and a file that is known is not taken for an abandoned one
+    for (HashSet<String>::iterator fileName = unreferenced.begin(); fileName != unreferenced.end(); ++fileName) {
+        refCounts.remove(*fileName);
+    }
+
     // Files that could not be deleted (because they are in use, on Windows) must not be mistaken for files of new segments:
     // never hand out the names of their segments again
     if (deletable) {
-- 
2.43.0


From e3d33d21814391b675289e67f1959a132064d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 29/52] fix: a failed flush no longer forgets deletions of
 documents flushed before

---
 include/lucene++/DocumentsWriter.h | 3 ++-
 src/core/index/DocumentsWriter.cpp | 6 ++++--
 src/core/index/IndexWriter.cpp     | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/lucene++/DocumentsWriter.h b/include/lucene++/DocumentsWriter.h
index a33a29e..d94b900 100644
--- a/include/lucene++/DocumentsWriter.h
+++ b/include/lucene++/DocumentsWriter.h
@@ -243,7 +243,8 @@ public:
 
     /// Called if we hit an exception at a bad time (when updating the index files) and must discard all
     /// currently buffered docs.  This resets our state, discarding any docs added since last flush.
-    void abort();
+    /// @param discardFlushedDeletes also forget the deletions that are still to be applied to flushed segments.
+    void abort(bool discardFlushedDeletes = false);
 
     /// Returns true if an abort is in progress
     bool pauseAllThreads();
diff --git a/src/core/index/DocumentsWriter.cpp b/src/core/index/DocumentsWriter.cpp
index 67d107e..8addf3b 100644
--- a/src/core/index/DocumentsWriter.cpp
+++ b/src/core/index/DocumentsWriter.cpp
@@ -331,7 +331,7 @@ void DocumentsWriter::setAborting() {
     aborting = true;
 }
 
-void DocumentsWriter::abort() {
+void DocumentsWriter::abort(bool discardFlushedDeletes) {
     TestScope testScope(L"DocumentsWriter", L"abort");
     SyncLock syncLock(this);
     LuceneException finally;
@@ -358,7 +358,9 @@ void DocumentsWriter::abort() {
             }
 
             deletesInRAM->clear();
-            deletesFlushed->clear();
+            if (discardFlushedDeletes) {
+                deletesFlushed->clear();
+            }
             _openFiles.clear();
 
             for (Collection<DocumentsWriterThreadStatePtr>::iterator threadState = threadStates.begin(); threadState != threadStates.end(); ++threadState) {
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 0fa516f..dbc389d 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1469,7 +1469,7 @@ void IndexWriter::rollbackInternal() {
 
             BOOST_ASSERT(!hasExternalSegments());
 
-            docWriter->abort();
+            docWriter->abort(true);
 
             bool test = testPoint(L"rollback before checkpoint");
             BOOST_ASSERT(test);
@@ -1517,7 +1517,7 @@ void IndexWriter::deleteAll() {
         finishMerges(false);
 
         // Remove any buffered docs
-        docWriter->abort();
+        docWriter->abort(true);
         docWriter->setFlushedDocCount(0);
 
         // Remove all segments
-- 
2.43.0


From d2fa9b90e94854c6fb2db5528547cddfe6a4e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 30/52] fix: a failure to write the placeholder of a rejected
 document is reported

---
 src/core/index/DocumentsWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/DocumentsWriter.cpp b/src/core/index/DocumentsWriter.cpp
index 8addf3b..36b03c2 100644
--- a/src/core/index/DocumentsWriter.cpp
+++ b/src/core/index/DocumentsWriter.cpp
@@ -700,7 +700,7 @@ bool DocumentsWriter::updateDocument(const DocumentPtr& doc, const AnalyzerPtr&
                 state->isIdle = true;
                 notifyAll();
                 abort();
-                return false;
+                finally.throwException();
             }
 
             state->isIdle = true;
-- 
2.43.0


From a8440912451ea5c120be58052983d0393e86d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:45 +0000
Subject: [PATCH 31/52] fix: reading a torn segments file fails with an I/O
 error instead of an oversized allocation

---
 src/core/index/SegmentInfo.cpp | 3 +++
 src/core/store/IndexInput.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/index/SegmentInfo.cpp b/src/core/index/SegmentInfo.cpp
index a2558fd..4b80a64 100644
--- a/src/core/index/SegmentInfo.cpp
+++ b/src/core/index/SegmentInfo.cpp
@@ -101,6 +101,9 @@ SegmentInfo::SegmentInfo(const DirectoryPtr& dir, int32_t format, const IndexInp
         }
         int32_t numNormGen = input->readInt();
         if (numNormGen != NO) {
+            if (numNormGen < 0 || numNormGen > (input->length() - input->getFilePointer()) / 8) {
+                boost::throw_exception(CorruptIndexException(L"Invalid number of norm generations: " + StringUtils::toString(numNormGen)));
+            }
             normGen = Collection<int64_t>::newInstance(numNormGen);
             for (int32_t j = 0; j < numNormGen; ++j) {
                 normGen[j] = input->readLong();
diff --git a/src/core/store/IndexInput.cpp b/src/core/store/IndexInput.cpp
index 319f316..61caf45 100644
--- a/src/core/store/IndexInput.cpp
+++ b/src/core/store/IndexInput.cpp
@@ -69,6 +69,9 @@ String IndexInput::readString() {
         return readModifiedUTF8String();
     }
     int32_t length = readVInt();
+    if (length < 0 || length > this->length() - getFilePointer()) {
+        boost::throw_exception(IOException(L"Read past EOF"));
+    }
     ByteArray bytes(ByteArray::newInstance(length));
     readBytes(bytes.get(), 0, length);
     return StringUtils::toUnicode(bytes.get(), length);
-- 
2.43.0


From a7a7477b5210c019deae3c25c0a62330e383f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 32/52] fix: BitSet::clear of the bit just past the end wrote
 out of bounds

---
 src/core/util/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/BitSet.cpp b/src/core/util/BitSet.cpp
index 0cbe753..e0975a2 100644
--- a/src/core/util/BitSet.cpp
+++ b/src/core/util/BitSet.cpp
@@ -31,7 +31,7 @@ void BitSet::clear() {
 }
 
 void BitSet::clear(uint32_t bitIndex) {
-    if (bitIndex <= bitSet.size()) {
+    if (bitIndex < bitSet.size()) {
         bitSet.set(bitIndex, false);
     }
 }
-- 
2.43.0


From 782ea785d92ed9230c93de909b86b289638f5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 33/52] fix: equal BitSets of different sizes had different
 hash codes

---
 src/core/util/BitSet.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/util/BitSet.cpp b/src/core/util/BitSet.cpp
index e0975a2..3ed57ee 100644
--- a/src/core/util/BitSet.cpp
+++ b/src/core/util/BitSet.cpp
@@ -6,9 +6,9 @@
 
 #include "LuceneInc.h"
 #include "BitSet.h"
+#include "MiscUtils.h"
 #include "BitUtil.h"
 #include <boost/version.hpp>
-#include <boost/iterator/function_output_iterator.hpp>
 
 namespace Lucene {
 
@@ -233,11 +233,13 @@ int32_t BitSet::hashCode() {
     // Start with a zero hash and use a mix that results in zero if the input is zero.
     // This effectively truncates trailing zeros without an explicit check.
     int64_t hash = 0;
-    auto computeHash = [&hash](bitset_type::block_type block) {
-        hash ^= block;
-        hash = (hash << 1) | (hash >> 63); // rotate left
-    };
-    to_block_range(bitSet, boost::make_function_output_iterator(std::ref(computeHash)));
+    // Trailing zero blocks must not count: equal sets may have different sizes
+    std::vector<bitset_type::block_type> blocks(bitSet.num_blocks());
+    boost::to_block_range(bitSet, blocks.begin());
+    for (std::vector<bitset_type::block_type>::reverse_iterator block = blocks.rbegin(); block != blocks.rend(); ++block) {
+        hash ^= *block;
+        hash = (hash << 1) | MiscUtils::unsignedShift(hash, (int64_t)63); // rotate left
+    }
     // Fold leftmost bits into right and add a constant to prevent empty sets from
     // returning 0, which is too common.
     return (int32_t)((hash >> 32) ^ hash) + 0x98761234;
-- 
2.43.0


From b5af008cf5a08a3b2188d7f64f51348fe0a28bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:14 +0000
Subject: [PATCH 34/52] fix: RAMInputStream keeps its position and the end of
 file when positioned at the end or reading past it

---
 src/core/store/RAMInputStream.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/store/RAMInputStream.cpp b/src/core/store/RAMInputStream.cpp
index 0cf173e..7420fab 100644
--- a/src/core/store/RAMInputStream.cpp
+++ b/src/core/store/RAMInputStream.cpp
@@ -75,19 +75,22 @@ void RAMInputStream::readBytes(uint8_t* b, int32_t offset, int32_t length) {
 }
 
 void RAMInputStream::switchCurrentBuffer(bool enforceEOF) {
-    if (currentBufferIndex >= file->numBuffers()) {
-        // end of file reached, no more buffers left
+    int64_t start = (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex;
+    if (currentBufferIndex >= file->numBuffers() || start >= _length) {
+        // end of file reached, nothing left to read
         if (enforceEOF) {
+            --currentBufferIndex;
             boost::throw_exception(IOException(L"Read past EOF"));
         } else {
             // force eof if a read takes place at this position
-            --currentBufferIndex;
-            bufferPosition = BUFFER_SIZE;
+            currentBuffer.reset();
+            bufferStart = start;
+            bufferLength = 0;
         }
     } else {
         currentBuffer = file->getBuffer(currentBufferIndex);
         bufferPosition = 0;
-        bufferStart = (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex;
+        bufferStart = start;
         int64_t buflen = _length - bufferStart;
         bufferLength = buflen > BUFFER_SIZE ? BUFFER_SIZE : (int32_t)buflen;
     }
-- 
2.43.0


From 8c4521c9ecc6edc75ff989113cbaac13d2429819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:23 +0000
Subject: [PATCH 35/52] fix: a document enumeration over all documents never
 goes back or repeats a document after skipTo or bulk reads

---
 src/core/index/AbstractAllTermDocs.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/core/index/AbstractAllTermDocs.cpp b/src/core/index/AbstractAllTermDocs.cpp
index aa6edcc..9a8bd80 100644
--- a/src/core/index/AbstractAllTermDocs.cpp
+++ b/src/core/index/AbstractAllTermDocs.cpp
@@ -44,19 +44,16 @@ bool AbstractAllTermDocs::next() {
 int32_t AbstractAllTermDocs::read(Collection<int32_t>& docs, Collection<int32_t>& freqs) {
     int32_t length = docs.size();
     int32_t i = 0;
-    while (i < length && _doc < maxDoc) {
-        if (!isDeleted(_doc)) {
-            docs[i] = _doc;
-            freqs[i] = 1;
-            ++i;
-        }
-        ++_doc;
+    while (i < length && next()) {
+        docs[i] = _doc;
+        freqs[i] = 1;
+        ++i;
     }
     return i;
 }
 
 bool AbstractAllTermDocs::skipTo(int32_t target) {
-    _doc = target;
+    _doc = std::max(target, _doc + 1);
     while (_doc < maxDoc) {
         if (!isDeleted(_doc)) {
             return true;
-- 
2.43.0


From 07aa0fa0f0fa2951c7f17fc574c7eb13d4776c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:00 +0000
Subject: [PATCH 36/52] fix: decompressing the compression of nothing returns
 an empty array, not a null one

---
 src/core/document/CompressionTools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/document/CompressionTools.cpp b/src/core/document/CompressionTools.cpp
index 227fb61..c56fb44 100644
--- a/src/core/document/CompressionTools.cpp
+++ b/src/core/document/CompressionTools.cpp
@@ -131,6 +131,9 @@ ByteArray CompressionTools::decompress(ByteArray value) {
         boost::throw_exception(CompressionException(L"deflate failure: " + ZLibToMessage(err.error())));
     }
 
+    if (position == 0) {
+        return ByteArray::newInstance(0);    // nothing was compressed (an array resized to 0 has no storage)
+    }
     buffer.resize((int32_t)position);
 
     return buffer;
-- 
2.43.0


From 8a924fbf2f165661bbbbd52149fa7d83b438e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:00 +0000
Subject: [PATCH 37/52] fix: PositionBasedTermVectorMapper keeps every field of
 the document it maps

---
 src/core/index/PositionBasedTermVectorMapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/index/PositionBasedTermVectorMapper.cpp b/src/core/index/PositionBasedTermVectorMapper.cpp
index 3bb8dde..e2f139c 100644
--- a/src/core/index/PositionBasedTermVectorMapper.cpp
+++ b/src/core/index/PositionBasedTermVectorMapper.cpp
@@ -38,7 +38,9 @@ void PositionBasedTermVectorMapper::setExpectations(const String& field, int32_t
     if (storeOffsets == true) {
         // ignoring offsets
     }
-    this->fieldToTerms = MapStringMapIntTermVectorsPositionInfo::newInstance();
+    if (!fieldToTerms) {
+        this->fieldToTerms = MapStringMapIntTermVectorsPositionInfo::newInstance();
+    }
     this->storeOffsets = storeOffsets;
     currentField = field;
     this->currentPositions = MapIntTermVectorsPositionInfo::newInstance();
-- 
2.43.0


From 3bd5146e9ab81ff2be6b2c6f76200edab3a86b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 38/52] fix: the coordination factor and explanations count
 clauses that have no scorer in a segment

---
 include/lucene++/BooleanScorer.h   |  3 ++-
 include/lucene++/BooleanScorer2.h  |  4 +++-
 src/core/search/BooleanQuery.cpp   | 18 +++++++++++++-----
 src/core/search/BooleanScorer.cpp  | 11 +++++------
 src/core/search/BooleanScorer2.cpp |  6 +++---
 5 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/include/lucene++/BooleanScorer.h b/include/lucene++/BooleanScorer.h
index 9009e19..76e8b9e 100644
--- a/include/lucene++/BooleanScorer.h
+++ b/include/lucene++/BooleanScorer.h
@@ -29,7 +29,8 @@ namespace Lucene {
 /// conjunction can reduce the number of priority queue updates for the optional terms.
 class LPPAPI BooleanScorer : public Scorer {
 public:
-    BooleanScorer(const SimilarityPtr& similarity, int32_t minNrShouldMatch, Collection<ScorerPtr> optionalScorers, Collection<ScorerPtr> prohibitedScorers);
+    /// @param maxCoord The number of non prohibited clauses, or -1 to count the given required and optional scorers.
+    BooleanScorer(const SimilarityPtr& similarity, int32_t minNrShouldMatch, Collection<ScorerPtr> optionalScorers, Collection<ScorerPtr> prohibitedScorers, int32_t maxCoord = -1);
     virtual ~BooleanScorer();
 
     LUCENE_CLASS(BooleanScorer);
diff --git a/include/lucene++/BooleanScorer2.h b/include/lucene++/BooleanScorer2.h
index b4f4bbc..9bc3415 100644
--- a/include/lucene++/BooleanScorer2.h
+++ b/include/lucene++/BooleanScorer2.h
@@ -30,7 +30,8 @@ public:
     /// @param required The list of required scorers.
     /// @param prohibited The list of prohibited scorers.
     /// @param optional The list of optional scorers.
-    BooleanScorer2(const SimilarityPtr& similarity, int32_t minNrShouldMatch, Collection<ScorerPtr> required, Collection<ScorerPtr> prohibited, Collection<ScorerPtr> optional);
+    /// @param maxCoord The number of non prohibited clauses, or -1 to count the given required and optional scorers.
+    BooleanScorer2(const SimilarityPtr& similarity, int32_t minNrShouldMatch, Collection<ScorerPtr> required, Collection<ScorerPtr> prohibited, Collection<ScorerPtr> optional, int32_t maxCoord = -1);
 
     virtual ~BooleanScorer2();
 
@@ -41,6 +42,7 @@ protected:
     Collection<ScorerPtr> optionalScorers;
     Collection<ScorerPtr> prohibitedScorers;
 
+    int32_t maxCoord;
     CoordinatorPtr coordinator;
 
     /// The scorer to which all scoring will be delegated, except for computing and using the coordination factor.
diff --git a/src/core/search/BooleanQuery.cpp b/src/core/search/BooleanQuery.cpp
index 1376d24..84f5f1b 100644
--- a/src/core/search/BooleanQuery.cpp
+++ b/src/core/search/BooleanQuery.cpp
@@ -254,13 +254,17 @@ ExplanationPtr BooleanWeight::explain(const IndexReaderPtr& reader, int32_t doc)
     int32_t shouldMatchCount = 0;
     Collection<BooleanClausePtr>::iterator c = query->clauses.begin();
     for (Collection<WeightPtr>::iterator w = weights.begin(); w != weights.end(); ++w, ++c) {
+        if (!(*c)->isProhibited()) {
+            ++maxCoord;
+        }
         if (!(*w)->scorer(reader, true, true)) {
+            if ((*c)->isRequired()) {
+                sumExpl->addDetail(newLucene<Explanation>(0.0, L"no match on required clause (" + (*c)->getQuery()->toString() + L")"));
+                fail = true;
+            }
             continue;
         }
         ExplanationPtr e((*w)->explain(reader, doc));
-        if (!(*c)->isProhibited()) {
-            ++maxCoord;
-        }
         if (e->isMatch()) {
             if (!(*c)->isProhibited()) {
                 sumExpl->addDetail(e);
@@ -311,8 +315,12 @@ ScorerPtr BooleanWeight::scorer(const IndexReaderPtr& reader, bool scoreDocsInOr
     Collection<ScorerPtr> required(Collection<ScorerPtr>::newInstance());
     Collection<ScorerPtr> prohibited(Collection<ScorerPtr>::newInstance());
     Collection<ScorerPtr> optional(Collection<ScorerPtr>::newInstance());
+    int32_t maxCoord = 0; // all non prohibited clauses, including those without a scorer for this reader
     Collection<BooleanClausePtr>::iterator c = query->clauses.begin();
     for (Collection<WeightPtr>::iterator w = weights.begin(); w != weights.end(); ++w, ++c) {
+        if (!(*c)->isProhibited()) {
+            ++maxCoord;
+        }
         ScorerPtr subScorer((*w)->scorer(reader, true, false));
         if (!subScorer) {
             if ((*c)->isRequired()) {
@@ -329,7 +337,7 @@ ScorerPtr BooleanWeight::scorer(const IndexReaderPtr& reader, bool scoreDocsInOr
 
     // Check if we can return a BooleanScorer
     if (!scoreDocsInOrder && topScorer && required.empty() && prohibited.size() < 32) {
-        return newLucene<BooleanScorer>(similarity, query->minNrShouldMatch, optional, prohibited);
+        return newLucene<BooleanScorer>(similarity, query->minNrShouldMatch, optional, prohibited, maxCoord);
     }
 
     if (required.empty() && optional.empty()) {
@@ -342,7 +350,7 @@ ScorerPtr BooleanWeight::scorer(const IndexReaderPtr& reader, bool scoreDocsInOr
     }
 
     // Return a BooleanScorer2
-    return newLucene<BooleanScorer2>(similarity, query->minNrShouldMatch, required, prohibited, optional);
+    return newLucene<BooleanScorer2>(similarity, query->minNrShouldMatch, required, prohibited, optional, maxCoord);
 }
 
 bool BooleanWeight::scoresDocsOutOfOrder() {
diff --git a/src/core/search/BooleanScorer.cpp b/src/core/search/BooleanScorer.cpp
index ace799d..57f941f 100644
--- a/src/core/search/BooleanScorer.cpp
+++ b/src/core/search/BooleanScorer.cpp
@@ -10,9 +10,9 @@
 
 namespace Lucene {
 
-BooleanScorer::BooleanScorer(const SimilarityPtr& similarity, int32_t minNrShouldMatch, Collection<ScorerPtr> optionalScorers, Collection<ScorerPtr> prohibitedScorers) : Scorer(similarity) {
+BooleanScorer::BooleanScorer(const SimilarityPtr& similarity, int32_t minNrShouldMatch, Collection<ScorerPtr> optionalScorers, Collection<ScorerPtr> prohibitedScorers, int32_t maxCoord) : Scorer(similarity) {
     this->bucketTable = newLucene<BucketTable>();
-    this->maxCoord = 1;
+    this->maxCoord = maxCoord < 0 ? (optionalScorers ? optionalScorers.size() : 0) : maxCoord;
     this->requiredMask = 0;
     this->prohibitedMask = 0;
     this->nextMask = 1;
@@ -22,7 +22,6 @@ BooleanScorer::BooleanScorer(const SimilarityPtr& similarity, int32_t minNrShoul
 
     if (optionalScorers && !optionalScorers.empty()) {
         for (Collection<ScorerPtr>::iterator scorer = optionalScorers.begin(); scorer != optionalScorers.end(); ++scorer) {
-            ++maxCoord;
             if ((*scorer)->nextDoc() != NO_MORE_DOCS) {
                 scorers = newLucene<SubScorer>(*scorer, false, false, bucketTable->newCollector(0), scorers);
             }
@@ -40,10 +39,10 @@ BooleanScorer::BooleanScorer(const SimilarityPtr& similarity, int32_t minNrShoul
         }
     }
 
-    coordFactors = Collection<double>::newInstance(maxCoord);
+    coordFactors = Collection<double>::newInstance(this->maxCoord + 1);
     SimilarityPtr sim(getSimilarity());
-    for (int32_t i = 0; i < maxCoord; ++i) {
-        coordFactors[i] = sim->coord(i, maxCoord - 1);
+    for (int32_t i = 0; i <= this->maxCoord; ++i) {
+        coordFactors[i] = sim->coord(i, this->maxCoord);
     }
 }
 
diff --git a/src/core/search/BooleanScorer2.cpp b/src/core/search/BooleanScorer2.cpp
index 81010f0..9bddd66 100644
--- a/src/core/search/BooleanScorer2.cpp
+++ b/src/core/search/BooleanScorer2.cpp
@@ -13,11 +13,12 @@
 
 namespace Lucene {
 
-BooleanScorer2::BooleanScorer2(const SimilarityPtr& similarity, int32_t minNrShouldMatch, Collection<ScorerPtr> required, Collection<ScorerPtr> prohibited, Collection<ScorerPtr> optional) : Scorer(similarity) {
+BooleanScorer2::BooleanScorer2(const SimilarityPtr& similarity, int32_t minNrShouldMatch, Collection<ScorerPtr> required, Collection<ScorerPtr> prohibited, Collection<ScorerPtr> optional, int32_t maxCoord) : Scorer(similarity) {
     this->minNrShouldMatch = minNrShouldMatch;
     this->requiredScorers = required;
     this->prohibitedScorers = prohibited;
     this->optionalScorers = optional;
+    this->maxCoord = maxCoord;
     this->doc = -1;
 }
 
@@ -30,8 +31,7 @@ void BooleanScorer2::initialize() {
     }
 
     coordinator = newLucene<Coordinator>(shared_from_this());
-    coordinator->maxCoord += optionalScorers.size();
-    coordinator->maxCoord += requiredScorers.size();
+    coordinator->maxCoord = maxCoord < 0 ? optionalScorers.size() + requiredScorers.size() : maxCoord;
 
     coordinator->init();
     countingSumScorer = makeCountingSumScorer();
-- 
2.43.0


From 31addaa7d39cceb11247a2815a1a22aa4dac4f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 39/52] fix: FieldCacheTermsFilter skips deleted documents

---
 src/core/include/_FieldCacheTermsFilter.h |  6 ++++--
 src/core/search/FieldCacheTermsFilter.cpp | 15 +++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/core/include/_FieldCacheTermsFilter.h b/src/core/include/_FieldCacheTermsFilter.h
index 68708bd..c03f65d 100644
--- a/src/core/include/_FieldCacheTermsFilter.h
+++ b/src/core/include/_FieldCacheTermsFilter.h
@@ -14,12 +14,13 @@ namespace Lucene {
 
 class FieldCacheTermsFilterDocIdSet : public DocIdSet {
 public:
-    FieldCacheTermsFilterDocIdSet(Collection<String> terms, const StringIndexPtr& fcsi);
+    FieldCacheTermsFilterDocIdSet(const IndexReaderPtr& reader, Collection<String> terms, const StringIndexPtr& fcsi);
     virtual ~FieldCacheTermsFilterDocIdSet();
 
     LUCENE_CLASS(FieldCacheTermsFilterDocIdSet);
 
 protected:
+    IndexReaderPtr reader;
     StringIndexPtr fcsi;
     OpenBitSetPtr openBitSet;
 
@@ -32,12 +33,13 @@ public:
 
 class FieldCacheTermsFilterDocIdSetIterator : public DocIdSetIterator {
 public:
-    FieldCacheTermsFilterDocIdSetIterator(const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet);
+    FieldCacheTermsFilterDocIdSetIterator(const IndexReaderPtr& reader, const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet);
     virtual ~FieldCacheTermsFilterDocIdSetIterator();
 
     LUCENE_CLASS(FieldCacheTermsFilterDocIdSetIterator);
 
 protected:
+    IndexReaderPtr reader;
     StringIndexPtr fcsi;
     OpenBitSetPtr openBitSet;
     int32_t doc;
diff --git a/src/core/search/FieldCacheTermsFilter.cpp b/src/core/search/FieldCacheTermsFilter.cpp
index 32ca0a4..673451c 100644
--- a/src/core/search/FieldCacheTermsFilter.cpp
+++ b/src/core/search/FieldCacheTermsFilter.cpp
@@ -9,6 +9,7 @@
 #include "_FieldCacheTermsFilter.h"
 #include "FieldCache.h"
 #include "OpenBitSet.h"
+#include "IndexReader.h"
 
 namespace Lucene {
 
@@ -25,10 +26,11 @@ FieldCachePtr FieldCacheTermsFilter::getFieldCache() {
 }
 
 DocIdSetPtr FieldCacheTermsFilter::getDocIdSet(const IndexReaderPtr& reader) {
-    return newLucene<FieldCacheTermsFilterDocIdSet>(terms, getFieldCache()->getStringIndex(reader, field));
+    return newLucene<FieldCacheTermsFilterDocIdSet>(reader, terms, getFieldCache()->getStringIndex(reader, field));
 }
 
-FieldCacheTermsFilterDocIdSet::FieldCacheTermsFilterDocIdSet(Collection<String> terms, const StringIndexPtr& fcsi) {
+FieldCacheTermsFilterDocIdSet::FieldCacheTermsFilterDocIdSet(const IndexReaderPtr& reader, Collection<String> terms, const StringIndexPtr& fcsi) {
+    this->reader = reader;
     this->fcsi = fcsi;
     openBitSet = newLucene<OpenBitSet>(this->fcsi->lookup.size());
     for (Collection<String>::iterator term = terms.begin(); term != terms.end(); ++term) {
@@ -43,14 +45,15 @@ FieldCacheTermsFilterDocIdSet::~FieldCacheTermsFilterDocIdSet() {
 }
 
 DocIdSetIteratorPtr FieldCacheTermsFilterDocIdSet::iterator() {
-    return newLucene<FieldCacheTermsFilterDocIdSetIterator>(fcsi, openBitSet);
+    return newLucene<FieldCacheTermsFilterDocIdSetIterator>(reader, fcsi, openBitSet);
 }
 
 bool FieldCacheTermsFilterDocIdSet::isCacheable() {
     return true;
 }
 
-FieldCacheTermsFilterDocIdSetIterator::FieldCacheTermsFilterDocIdSetIterator(const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet) {
+FieldCacheTermsFilterDocIdSetIterator::FieldCacheTermsFilterDocIdSetIterator(const IndexReaderPtr& reader, const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet) {
+    this->reader = reader;
     this->fcsi = fcsi;
     this->openBitSet = openBitSet;
     this->doc = -1;
@@ -68,7 +71,7 @@ int32_t FieldCacheTermsFilterDocIdSetIterator::nextDoc() {
         if (++doc >= fcsi->order.size()) {
             boost::throw_exception(IndexOutOfBoundsException());
         }
-        while (!openBitSet->fastGet(fcsi->order[doc])) {
+        while (!openBitSet->fastGet(fcsi->order[doc]) || reader->isDeleted(doc)) {
             if (++doc >= fcsi->order.size()) {
                 boost::throw_exception(IndexOutOfBoundsException());
             }
@@ -85,7 +88,7 @@ int32_t FieldCacheTermsFilterDocIdSetIterator::advance(int32_t target) {
         if (doc < 0 || doc >= fcsi->order.size()) {
             boost::throw_exception(IndexOutOfBoundsException());
         }
-        while (!openBitSet->fastGet(fcsi->order[doc])) {
+        while (!openBitSet->fastGet(fcsi->order[doc]) || reader->isDeleted(doc)) {
             if (++doc >= fcsi->order.size()) {
                 boost::throw_exception(IndexOutOfBoundsException());
             }
-- 
2.43.0


From 8f1f3ca8204fc0ef16a025547642dfcc09f3750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 40/52] fix: FieldCacheRangeFilter iterators keep their set
 alive, skip deleted documents, and an exclusive bound at 0 is a range

---
 src/core/include/_FieldCacheRangeFilter.h |  6 +++---
 src/core/search/FieldCacheRangeFilter.cpp | 20 +++++++++++---------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 22b52fd..5438ff4 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -105,7 +105,7 @@ public:
         }
         int64_t inclusiveLowerPoint = (int64_t)(includeLower ? lowerVal : (lowerVal + 1));
 
-        if (!includeUpper && upperVal == 0) {
+        if (!includeUpper && upperVal == std::numeric_limits<TYPE>::min()) {
             return DocIdSet::EMPTY_DOCIDSET();
         }
         int64_t inclusiveUpperPoint = (int64_t)(includeUpper ? upperVal : (upperVal - 1));
@@ -229,7 +229,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorTermDocs);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr cacheDocIdSet;
     TermDocsPtr termDocs;
     int32_t doc;
 
@@ -249,7 +249,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorIncrement);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr cacheDocIdSet;
     int32_t doc;
 
 public:
diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index 7a3e1ae..6d5b11c 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -215,12 +215,18 @@ DocIdSetPtr FieldCacheRangeFilterDouble::getDocIdSet(const IndexReaderPtr& reade
     }
     int64_t lower = NumericUtils::doubleToSortableLong(lowerVal);
     double inclusiveLowerPoint = NumericUtils::sortableLongToDouble(includeLower ? lower : (lower + 1));
+    if (!includeLower && inclusiveLowerPoint == lowerVal) {
+        inclusiveLowerPoint = NumericUtils::sortableLongToDouble(lower + 2);    // 0.0 follows, and equals, -0.0
+    }
 
     if (!includeUpper && upperVal < 0.0 && MiscUtils::isInfinite(upperVal)) {
         return DocIdSet::EMPTY_DOCIDSET();
     }
     int64_t upper = NumericUtils::doubleToSortableLong(upperVal);
     double inclusiveUpperPoint = NumericUtils::sortableLongToDouble(includeUpper ? upper : (upper - 1));
+    if (!includeUpper && inclusiveUpperPoint == upperVal) {
+        inclusiveUpperPoint = NumericUtils::sortableLongToDouble(upper - 2);    // -0.0 precedes, and equals, 0.0
+    }
 
     if (inclusiveLowerPoint > inclusiveUpperPoint) {
         return DocIdSet::EMPTY_DOCIDSET();
@@ -248,12 +254,12 @@ bool FieldCacheDocIdSet::isCacheable() {
 
 DocIdSetIteratorPtr FieldCacheDocIdSet::iterator() {
     // Synchronization needed because deleted docs BitVector can change after call to hasDeletions until
-    // TermDocs creation.  We only use an iterator with termDocs, when this was requested (eg. range
-    // contains 0) and the index has deletions
+    // TermDocs creation.  We use an iterator with termDocs whenever the index has deletions: the values were
+    // possibly cached before the documents were deleted, so a deleted document can have any value
     TermDocsPtr termDocs;
     {
         SyncLock instancesLock(reader);
-        termDocs = isCacheable() ? TermDocsPtr() : reader->termDocs(TermPtr());
+        termDocs = reader->hasDeletions() ? reader->termDocs(TermPtr()) : TermDocsPtr();
     }
     if (termDocs) {
         // a DocIdSetIterator using TermDocs to iterate valid docIds
@@ -282,7 +288,7 @@ bool FieldCacheDocIdSetString::matchDoc(int32_t doc) {
 }
 
 FieldDocIdSetIteratorTermDocs::FieldDocIdSetIteratorTermDocs(const FieldCacheDocIdSetPtr& cacheDocIdSet, const TermDocsPtr& termDocs) {
-    this->_cacheDocIdSet = cacheDocIdSet;
+    this->cacheDocIdSet = cacheDocIdSet;
     this->termDocs = termDocs;
     this->doc = -1;
 }
@@ -295,7 +301,6 @@ int32_t FieldDocIdSetIteratorTermDocs::docID() {
 }
 
 int32_t FieldDocIdSetIteratorTermDocs::nextDoc() {
-    FieldCacheDocIdSetPtr cacheDocIdSet(_cacheDocIdSet);
     do {
         if (!termDocs->next()) {
             doc = NO_MORE_DOCS;
@@ -306,7 +311,6 @@ int32_t FieldDocIdSetIteratorTermDocs::nextDoc() {
 }
 
 int32_t FieldDocIdSetIteratorTermDocs::advance(int32_t target) {
-    FieldCacheDocIdSetPtr cacheDocIdSet(_cacheDocIdSet);
     if (!termDocs->skipTo(target)) {
         doc = NO_MORE_DOCS;
         return doc;
@@ -321,7 +325,7 @@ int32_t FieldDocIdSetIteratorTermDocs::advance(int32_t target) {
 }
 
 FieldDocIdSetIteratorIncrement::FieldDocIdSetIteratorIncrement(const FieldCacheDocIdSetPtr& cacheDocIdSet) {
-    this->_cacheDocIdSet = cacheDocIdSet;
+    this->cacheDocIdSet = cacheDocIdSet;
     this->doc = -1;
 }
 
@@ -333,7 +337,6 @@ int32_t FieldDocIdSetIteratorIncrement::docID() {
 }
 
 int32_t FieldDocIdSetIteratorIncrement::nextDoc() {
-    FieldCacheDocIdSetPtr cacheDocIdSet(_cacheDocIdSet);
     try {
         do {
             ++doc;
@@ -346,7 +349,6 @@ int32_t FieldDocIdSetIteratorIncrement::nextDoc() {
 }
 
 int32_t FieldDocIdSetIteratorIncrement::advance(int32_t target) {
-    FieldCacheDocIdSetPtr cacheDocIdSet(_cacheDocIdSet);
     try {
         doc = target;
         while (!cacheDocIdSet->matchDoc(doc)) {
-- 
2.43.0


From 0a96f3f0fa3437a93c7673aa62232dc184ba38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 41/52] fix: MultiSearcher rewrites a query against all its
 readers at once

---
 src/core/search/MultiSearcher.cpp | 33 +++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/core/search/MultiSearcher.cpp b/src/core/search/MultiSearcher.cpp
index d327690..166104b 100644
--- a/src/core/search/MultiSearcher.cpp
+++ b/src/core/search/MultiSearcher.cpp
@@ -7,6 +7,8 @@
 #include "LuceneInc.h"
 #include "MultiSearcher.h"
 #include "_MultiSearcher.h"
+#include "IndexSearcher.h"
+#include "MultiReader.h"
 #include "Term.h"
 #include "ReaderUtil.h"
 #include "HitQueue.h"
@@ -128,7 +130,38 @@ void MultiSearcher::search(const WeightPtr& weight, const FilterPtr& filter, con
     }
 }
 
+static bool collectReaders(Collection<SearchablePtr> searchables, Collection<IndexReaderPtr> readers) {
+    for (Collection<SearchablePtr>::iterator searchable = searchables.begin(); searchable != searchables.end(); ++searchable) {
+        IndexSearcherPtr indexSearcher(boost::dynamic_pointer_cast<IndexSearcher>(*searchable));
+        MultiSearcherPtr multiSearcher(boost::dynamic_pointer_cast<MultiSearcher>(*searchable));
+        if (indexSearcher) {
+            readers.add(indexSearcher->getIndexReader());
+        } else if (!multiSearcher || !collectReaders(multiSearcher->getSearchables(), readers)) {
+            return false;
+        }
+    }
+    return true;
+}
+
 QueryPtr MultiSearcher::rewrite(const QueryPtr& query) {
+    // rewriting against all of the readers at once gives one query that is right for each of them; the queries
+    // rewritten one by one cannot always be combined into one (eg. with prohibited or required clauses)
+    Collection<IndexReaderPtr> readers(Collection<IndexReaderPtr>::newInstance());
+    if (collectReaders(searchables, readers)) {
+        IndexReaderPtr reader(newLucene<MultiReader>(readers, false));
+        QueryPtr rewritten(query);
+        LuceneException finally;
+        try {
+            for (QueryPtr next(rewritten->rewrite(reader)); next != rewritten; next = rewritten->rewrite(reader)) {
+                rewritten = next;
+            }
+        } catch (LuceneException& e) {
+            finally = e;
+        }
+        reader->close();
+        finally.throwException();
+        return rewritten;
+    }
     Collection<QueryPtr> queries(Collection<QueryPtr>::newInstance(searchables.size()));
     for (int32_t i = 0; i < searchables.size(); ++i) {
         queries[i] = searchables[i]->rewrite(query);
-- 
2.43.0


From dc50d4ed7d66d02ce131712c6fff3fc914579642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 42/52] fix: MatchAllDocsQuery explains norms and compares its
 norms field

---
 src/core/search/MatchAllDocsQuery.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/core/search/MatchAllDocsQuery.cpp b/src/core/search/MatchAllDocsQuery.cpp
index 8b0364c..db0002c 100644
--- a/src/core/search/MatchAllDocsQuery.cpp
+++ b/src/core/search/MatchAllDocsQuery.cpp
@@ -13,6 +13,7 @@
 #include "ComplexExplanation.h"
 #include "Searcher.h"
 #include "MiscUtils.h"
+#include "StringUtils.h"
 
 namespace Lucene {
 
@@ -37,11 +38,16 @@ String MatchAllDocsQuery::toString(const String& field) {
 }
 
 bool MatchAllDocsQuery::equals(const LuceneObjectPtr& other) {
-    return Query::equals(other);
+    if (!Query::equals(other)) {
+        return false;
+    }
+
+    MatchAllDocsQueryPtr otherMatchAllDocsQuery(boost::dynamic_pointer_cast<MatchAllDocsQuery>(other));
+    return (otherMatchAllDocsQuery && normsField == otherMatchAllDocsQuery->normsField);
 }
 
 int32_t MatchAllDocsQuery::hashCode() {
-    return MiscUtils::doubleToIntBits(getBoost()) ^ 0x1aa71190;
+    return MiscUtils::doubleToIntBits(getBoost()) ^ StringUtils::hashCode(normsField) ^ 0x1aa71190;
 }
 
 LuceneObjectPtr MatchAllDocsQuery::clone(const LuceneObjectPtr& other) {
@@ -91,11 +97,16 @@ ScorerPtr MatchAllDocsWeight::scorer(const IndexReaderPtr& reader, bool scoreDoc
 
 ExplanationPtr MatchAllDocsWeight::explain(const IndexReaderPtr& reader, int32_t doc) {
     // explain query weight
-    ExplanationPtr queryExpl(newLucene<ComplexExplanation>(true, getValue(), L"MatchAllDocsQuery, product of:"));
+    ByteArray norms(!query->normsField.empty() ? reader->norms(query->normsField) : ByteArray());
+    double norm = norms ? Similarity::decodeNorm(norms[doc]) : 1.0;
+    ExplanationPtr queryExpl(newLucene<ComplexExplanation>(true, getValue() * norm, L"MatchAllDocsQuery, product of:"));
     if (getQuery()->getBoost() != 1.0) {
         queryExpl->addDetail(newLucene<Explanation>(getQuery()->getBoost(), L"boost"));
     }
     queryExpl->addDetail(newLucene<Explanation>(queryNorm, L"queryNorm"));
+    if (norms) {
+        queryExpl->addDetail(newLucene<Explanation>(norm, L"fieldNorm(field=" + query->normsField + L", doc=" + StringUtils::toString(doc) + L")"));
+    }
     return queryExpl;
 }
 
-- 
2.43.0


From 645df2d97b1c667a7a40bfdbdaaad99a795fbb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 43/52] fix: sloppy phrases whose first term has a positive
 offset compute the right match length

---
 src/core/search/SloppyPhraseScorer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/search/SloppyPhraseScorer.cpp b/src/core/search/SloppyPhraseScorer.cpp
index 5c4283c..c57bffd 100644
--- a/src/core/search/SloppyPhraseScorer.cpp
+++ b/src/core/search/SloppyPhraseScorer.cpp
@@ -32,7 +32,7 @@ double SloppyPhraseScorer::phraseFreq() {
     int32_t end = initPhrasePositions();
 
     double freq = 0.0;
-    bool done = (end < 0);
+    bool done = (end == INT_MIN);
     while (!done) {
         auto* __pp = pq->pop();
         int32_t start = __pp->position;
@@ -86,7 +86,7 @@ PhrasePositions* SloppyPhraseScorer::flip(PhrasePositions* __pp, PhrasePositions
 }
 
 int32_t SloppyPhraseScorer::initPhrasePositions() {
-    int32_t end = 0;
+    int32_t end = INT_MIN; // positions are relative to the offsets in the phrase, so they can be negative
 
     // no repeats at all (most common case is also the simplest one)
     if (checkedRepeats && !repeats) {
@@ -141,7 +141,7 @@ int32_t SloppyPhraseScorer::initPhrasePositions() {
             PhrasePositions* pp2 = nullptr;
             while ((pp2 = termPositionsDiffer(*pp))) {
                 if (!pp2->nextPosition()) { // out of pps that do not differ, advance the pp with higher offset
-                    return -1;    // ran out of a term - done
+                    return INT_MIN;    // ran out of a term - done
                 }
             }
         }
-- 
2.43.0


From 708405178f090099dd85967efcedf43c745eb095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 44/52] fix: MemoryIndex term positions skipTo respects its
 target

---
 src/contrib/memory/MemoryIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index e1e50d9..9df825c 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -580,7 +580,7 @@ int32_t MemoryIndexTermPositions::read(Collection<int32_t>& docs, Collection<int
 }
 
 bool MemoryIndexTermPositions::skipTo(int32_t target) {
-    return next();
+    return next() && doc() >= target;
 }
 
 void MemoryIndexTermPositions::close() {
-- 
2.43.0


From 34497f82d9ea26cadc06bb7dcb8e2f86ca7490aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 45/52] fix: the field cache distinguishes parsers of one type

---
 src/core/search/FieldCacheImpl.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/core/search/FieldCacheImpl.cpp b/src/core/search/FieldCacheImpl.cpp
index aabcbff..0db3ff5 100644
--- a/src/core/search/FieldCacheImpl.cpp
+++ b/src/core/search/FieldCacheImpl.cpp
@@ -116,6 +116,22 @@ Entry::Entry(const String& field, const boost::any& custom) {
 Entry::~Entry() {
 }
 
+static ParserPtr getParser(const boost::any& custom) {
+    if (VariantUtils::typeOf<ByteParserPtr>(custom)) {
+        return VariantUtils::get<ByteParserPtr>(custom);
+    }
+    if (VariantUtils::typeOf<IntParserPtr>(custom)) {
+        return VariantUtils::get<IntParserPtr>(custom);
+    }
+    if (VariantUtils::typeOf<LongParserPtr>(custom)) {
+        return VariantUtils::get<LongParserPtr>(custom);
+    }
+    if (VariantUtils::typeOf<DoubleParserPtr>(custom)) {
+        return VariantUtils::get<DoubleParserPtr>(custom);
+    }
+    return VariantUtils::get<ParserPtr>(custom);
+}
+
 bool Entry::equals(const LuceneObjectPtr& other) {
     if (LuceneObject::equals(other)) {
         return true;
@@ -124,7 +140,12 @@ bool Entry::equals(const LuceneObjectPtr& other) {
     EntryPtr otherEntry(boost::dynamic_pointer_cast<Entry>(other));
     if (otherEntry) {
         if (otherEntry->field == field) {
-            return VariantUtils::equalsType(custom, otherEntry->custom);
+            if (!VariantUtils::equalsType(custom, otherEntry->custom)) {
+                return false;
+            }
+            ParserPtr parser(getParser(custom));
+            ParserPtr otherParser(getParser(otherEntry->custom));
+            return parser ? (otherParser && parser->equals(otherParser)) : !otherParser;
         }
     }
     return false;
-- 
2.43.0


From d875350b2c5725dae6e84b90958e8db53aea8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 46/52] fix: FilterCleaner allocates the map it sorts filters
 with

---
 src/core/search/FilterManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/search/FilterManager.cpp b/src/core/search/FilterManager.cpp
index c598bc4..14dd110 100644
--- a/src/core/search/FilterManager.cpp
+++ b/src/core/search/FilterManager.cpp
@@ -72,6 +72,7 @@ FilterItem::~FilterItem() {
 FilterCleaner::FilterCleaner(const FilterManagerPtr& manager) {
     _manager = manager;
     running = true;
+    sortedFilterItems = MapLongInt::newInstance();
 }
 
 FilterCleaner::~FilterCleaner() {
-- 
2.43.0


From 4bf889e2052ccac66d6a771398dbfb42d0574387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 47/52] fix: FilterManager does not give out a different filter
 with the same hash code

---
 src/core/search/FilterManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/search/FilterManager.cpp b/src/core/search/FilterManager.cpp
index 14dd110..97926ca 100644
--- a/src/core/search/FilterManager.cpp
+++ b/src/core/search/FilterManager.cpp
@@ -53,7 +53,8 @@ void FilterManager::setCleanThreadSleepTime(int64_t cleanSleepTime) {
 FilterPtr FilterManager::getFilter(const FilterPtr& filter) {
     SyncLock parentLock(&cache);
     FilterItemPtr fi(cache.get(filter->hashCode()));
-    if (fi) {
+    // different filters can have the same hash code
+    if (fi && fi->filter->equals(filter)) {
         fi->timestamp = MiscUtils::currentTimeMillis();
         return fi->filter;
     }
-- 
2.43.0


From 3fdb7f2a08494fe7e945f810a9b8bed0eaf7761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 48/52] fix: rewriting a boosted query with one clause does not
 change the boost of the original

---
 src/core/search/BooleanQuery.cpp        | 5 ++---
 src/core/search/DisjunctionMaxQuery.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/search/BooleanQuery.cpp b/src/core/search/BooleanQuery.cpp
index 84f5f1b..e75ff60 100644
--- a/src/core/search/BooleanQuery.cpp
+++ b/src/core/search/BooleanQuery.cpp
@@ -91,9 +91,8 @@ QueryPtr BooleanQuery::rewrite(const IndexReaderPtr& reader) {
             QueryPtr query(c->getQuery()->rewrite(reader)); // rewrite first
 
             if (getBoost() != 1.0) { // incorporate boost
-                if (query == c->getQuery()) { // if rewrite was no-op
-                    query = boost::dynamic_pointer_cast<Query>(query->clone());    // then clone before boost
-                }
+                // always clone before boost: the rewritten query can be part of the clause even if it is not the clause itself
+                query = boost::dynamic_pointer_cast<Query>(query->clone());
                 query->setBoost(getBoost() * query->getBoost());
             }
 
diff --git a/src/core/search/DisjunctionMaxQuery.cpp b/src/core/search/DisjunctionMaxQuery.cpp
index b35f1fe..caca63d 100644
--- a/src/core/search/DisjunctionMaxQuery.cpp
+++ b/src/core/search/DisjunctionMaxQuery.cpp
@@ -57,9 +57,8 @@ QueryPtr DisjunctionMaxQuery::rewrite(const IndexReaderPtr& reader) {
         QueryPtr singleton(disjuncts[0]);
         QueryPtr result(singleton->rewrite(reader));
         if (getBoost() != 1.0) {
-            if (result == singleton) {
-                result = boost::dynamic_pointer_cast<Query>(result->clone());
-            }
+            // always clone before boost: the result can be part of the singleton even if it is not the singleton itself
+            result = boost::dynamic_pointer_cast<Query>(result->clone());
             result->setBoost(getBoost() * result->getBoost());
         }
         return result;
-- 
2.43.0


From 046fb6e2c4556fd8366f67120ff068fc4e478cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:45 +0000
Subject: [PATCH 49/52] fix: sets over cached fields are not cacheable while
 the reader has deletions

---
 src/core/search/FieldCacheRangeFilter.cpp | 3 ++-
 src/core/search/FieldCacheTermsFilter.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index 6d5b11c..de370fc 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -249,7 +249,8 @@ FieldCacheDocIdSet::~FieldCacheDocIdSet() {
 }
 
 bool FieldCacheDocIdSet::isCacheable() {
-    return !(mayUseTermDocs && reader->hasDeletions());
+    // with deletions the iterator asks the reader, that a cached set could outlive
+    return !reader->hasDeletions();
 }
 
 DocIdSetIteratorPtr FieldCacheDocIdSet::iterator() {
diff --git a/src/core/search/FieldCacheTermsFilter.cpp b/src/core/search/FieldCacheTermsFilter.cpp
index 673451c..1ff091b 100644
--- a/src/core/search/FieldCacheTermsFilter.cpp
+++ b/src/core/search/FieldCacheTermsFilter.cpp
@@ -49,7 +49,8 @@ DocIdSetIteratorPtr FieldCacheTermsFilterDocIdSet::iterator() {
 }
 
 bool FieldCacheTermsFilterDocIdSet::isCacheable() {
-    return true;
+    // with deletions the iterator asks the reader, that a cached set could outlive
+    return !reader->hasDeletions();
 }
 
 FieldCacheTermsFilterDocIdSetIterator::FieldCacheTermsFilterDocIdSetIterator(const IndexReaderPtr& reader, const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet) {
-- 
2.43.0


From 1014e34cd29a11167fbd2094096611bf5760db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:45 +0000
Subject: [PATCH 50/52] fix: a cached set with deletions merged in is not
 cacheable itself

---
 src/core/include/_CachingWrapperFilter.h | 2 ++
 src/core/search/CachingWrapperFilter.cpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/core/include/_CachingWrapperFilter.h b/src/core/include/_CachingWrapperFilter.h
index 7cf76e6..e14d5cf 100644
--- a/src/core/include/_CachingWrapperFilter.h
+++ b/src/core/include/_CachingWrapperFilter.h
@@ -52,6 +52,8 @@ protected:
     IndexReaderPtr reader;
 
 protected:
+    virtual bool isCacheable();
+
     virtual bool match(int32_t docid);
 };
 
diff --git a/src/core/search/CachingWrapperFilter.cpp b/src/core/search/CachingWrapperFilter.cpp
index c04f965..2b9f266 100644
--- a/src/core/search/CachingWrapperFilter.cpp
+++ b/src/core/search/CachingWrapperFilter.cpp
@@ -148,6 +148,10 @@ FilteredCacheDocIdSet::FilteredCacheDocIdSet(const IndexReaderPtr& reader, const
 FilteredCacheDocIdSet::~FilteredCacheDocIdSet() {
 }
 
+bool FilteredCacheDocIdSet::isCacheable() {
+    return false; // asks the reader, that a cached set could outlive
+}
+
 bool FilteredCacheDocIdSet::match(int32_t docid) {
     return !reader->isDeleted(docid);
 }
-- 
2.43.0


From bbdf853ff19de76b604a24c942d9d2abe645f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:24 +0000
Subject: [PATCH 51/52] fix: a filter cached in DYNAMIC mode by a reader with
 deletions is not reused for other readers

---
 src/core/search/CachingWrapperFilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/search/CachingWrapperFilter.cpp b/src/core/search/CachingWrapperFilter.cpp
index 2b9f266..f147e70 100644
--- a/src/core/search/CachingWrapperFilter.cpp
+++ b/src/core/search/CachingWrapperFilter.cpp
@@ -126,7 +126,8 @@ void FilterCache::put(const LuceneObjectPtr& coreKey, const LuceneObjectPtr& del
     } else if (deletesMode == CachingWrapperFilter::DELETES_RECACHE) {
         cache.put(delCoreKey, value);
     } else {
-        cache.put(coreKey, value);
+        // with deletions the value can lack documents that other readers of the same core still have; the two
+        // keys are the same only without deletions
         cache.put(delCoreKey, value);
     }
 }
-- 
2.43.0


From 22f33764556570630e66fc4c7a004da9a3c8f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:22 +0000
Subject: [PATCH 52/52] fix: sets over cached fields stay cacheable with
 deletions, and remember them

---
 src/core/include/_FieldCacheRangeFilter.h |  5 ++++
 src/core/search/FieldCacheRangeFilter.cpp | 28 +++++++++++++++++------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 5438ff4..82be276 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -11,6 +11,7 @@
 #include "DocIdSet.h"
 #include "DocIdSetIterator.h"
 #include "MiscUtils.h"
+#include "OpenBitSet.h"
 #include "StringUtils.h"
 
 namespace Lucene {
@@ -44,8 +45,12 @@ public:
 protected:
     IndexReaderPtr reader;
     bool mayUseTermDocs;
+    OpenBitSetPtr deletedDocs;
 
 public:
+    /// Whether a doc is a hit and not deleted.
+    bool matchLiveDoc(int32_t doc);
+
     /// This method checks, if a doc is a hit, should throw ArrayIndexOutOfBounds, when position invalid
     virtual bool matchDoc(int32_t doc) = 0;
 
diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index de370fc..200f1ba 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -243,24 +243,38 @@ Collection<double> FieldCacheRangeFilterDouble::getValues(const IndexReaderPtr&
 FieldCacheDocIdSet::FieldCacheDocIdSet(const IndexReaderPtr& reader, bool mayUseTermDocs) {
     this->reader = reader;
     this->mayUseTermDocs = mayUseTermDocs;
+    if (!mayUseTermDocs && reader->hasDeletions()) {
+        // the set is cacheable and can outlive the reader: remember what is deleted, as the values were possibly
+        // cached before the documents were deleted
+        int32_t maxDoc = reader->maxDoc();
+        deletedDocs = newLucene<OpenBitSet>(maxDoc);
+        for (int32_t doc = 0; doc < maxDoc; ++doc) {
+            if (reader->isDeleted(doc)) {
+                deletedDocs->set(doc);
+            }
+        }
+    }
 }
 
 FieldCacheDocIdSet::~FieldCacheDocIdSet() {
 }
 
 bool FieldCacheDocIdSet::isCacheable() {
-    // with deletions the iterator asks the reader, that a cached set could outlive
-    return !reader->hasDeletions();
+    return !(mayUseTermDocs && reader->hasDeletions());
+}
+
+bool FieldCacheDocIdSet::matchLiveDoc(int32_t doc) {
+    return matchDoc(doc) && !(deletedDocs && deletedDocs->get(doc));
 }
 
 DocIdSetIteratorPtr FieldCacheDocIdSet::iterator() {
     // Synchronization needed because deleted docs BitVector can change after call to hasDeletions until
-    // TermDocs creation.  We use an iterator with termDocs whenever the index has deletions: the values were
-    // possibly cached before the documents were deleted, so a deleted document can have any value
+    // TermDocs creation.  We only use an iterator with termDocs, when this was requested (eg. range
+    // contains 0) and the index has deletions
     TermDocsPtr termDocs;
     {
         SyncLock instancesLock(reader);
-        termDocs = reader->hasDeletions() ? reader->termDocs(TermPtr()) : TermDocsPtr();
+        termDocs = isCacheable() ? TermDocsPtr() : reader->termDocs(TermPtr());
     }
     if (termDocs) {
         // a DocIdSetIterator using TermDocs to iterate valid docIds
@@ -341,7 +355,7 @@ int32_t FieldDocIdSetIteratorIncrement::nextDoc() {
     try {
         do {
             ++doc;
-        } while (!cacheDocIdSet->matchDoc(doc));
+        } while (!cacheDocIdSet->matchLiveDoc(doc));
         return doc;
     } catch (IndexOutOfBoundsException&) {
         doc = NO_MORE_DOCS;
@@ -352,7 +366,7 @@ int32_t FieldDocIdSetIteratorIncrement::nextDoc() {
 int32_t FieldDocIdSetIteratorIncrement::advance(int32_t target) {
     try {
         doc = target;
-        while (!cacheDocIdSet->matchDoc(doc)) {
+        while (!cacheDocIdSet->matchLiveDoc(doc)) {
             ++doc;
         }
         return doc;
-- 
2.43.0

