From 574d6354e83e6466a5e2e353291e6b73880ba3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 01/39] fix: look up catalogue records under the catalogue lock

Contains and Rehash read the index map (and may fill in a record's progress
file) without holding the lock, racing with every other operation.
---
 catalogue/catalogue.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ac718a7..bab039e 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -168,7 +168,9 @@ func (c *Cat) ListFiles() ([]IndexRecordExport, error) {
 // Rehash attempts to recalculate the hash for a given indexRecord. If it fails, a blank hash and an
 // error are returned.
 func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
+	c.lock.Lock()
 	rec, err := c.getIndexRecord(hash)
+	c.lock.Unlock()
 	if err != nil {
 		return nil, err
 	}
@@ -182,6 +184,8 @@ func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
 // Contains returns the IndexRecordExport of the file specified by the hash, or an error if the file
 // cannot be accessed for any reason.
 func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	record, err := c.getIndexRecord(hash)
 	if err != nil {
 		return nil, err
@@ -191,8 +195,6 @@ func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
 
 // Get is the same as contains, except that if the record does not exist it will panic.
 func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
-	c.lock.Lock()
-	defer c.lock.Unlock()
 	result, err := c.Contains(hash)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 95b27ae30e2175fae4b0f1d16d103e8e77ac8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 02/39] fix: Rehash returns the documented blank hash when the
 record is unavailable

The clean command dereferences the returned hash even on error, so a record
that disappeared meanwhile crashed the daemon.
---
 catalogue/catalogue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index bab039e..374c589 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -172,7 +172,7 @@ func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
 	rec, err := c.getIndexRecord(hash)
 	c.lock.Unlock()
 	if err != nil {
-		return nil, err
+		return (&common.Sha1Hash{}).Blank(), err
 	}
 	currentHash, err := common.HashFile(rec.FilePath)
 	if err != nil {
-- 
2.43.0


From 0667ccaafc8fecc8f71552014f1000f883fd5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 03/39] fix: report a failure to store the progress file of a
 new download

---
 catalogue/catalogue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 374c589..3e8f6cc 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -134,7 +134,7 @@ func (c *Cat) RegisterDownload(
 	}
 
 	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
-	indexRecord.ProgressFile.save()
+	err = indexRecord.ProgressFile.save()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5c4ae5408ee8e99794553dec0eae3eab5b35eab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 04/39] fix: never index a file whose progress file is not
 stored

The index was written before the progress file (and kept after deleting it), so
a crash or error in between left a record without progress file, after which
every listing failed. Progress files are now stored before their record is
indexed and deleted after it is removed.
---
 catalogue/catalogue.go | 18 ++++++++++++++----
 catalogue/indexFile.go | 12 ++++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 3e8f6cc..37060e0 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -69,7 +69,7 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
-	err = c.indexFile.AddIndexRecord(record)
+	err = c.indexFile.checkNotIndexed(record)
 	if err != nil {
 		return nil, err
 	}
@@ -81,6 +81,11 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
+	err = c.indexFile.AddIndexRecord(record)
+	if err != nil {
+		return nil, err
+	}
+
 	return record, nil
 }
 
@@ -95,12 +100,12 @@ func (c *Cat) UnshareFile(hash *common.Sha1Hash) error {
 		return err
 	}
 
-	err = rec.ProgressFile.delete()
+	err = c.indexFile.RemoveIndexRecord(rec)
 	if err != nil {
 		return err
 	}
 
-	err = c.indexFile.RemoveIndexRecord(rec)
+	err = rec.ProgressFile.delete()
 	if err != nil {
 		return err
 	}
@@ -128,7 +133,7 @@ func (c *Cat) RegisterDownload(
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
-	err := c.indexFile.AddIndexRecord(&indexRecord)
+	err := c.indexFile.checkNotIndexed(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
@@ -139,6 +144,11 @@ func (c *Cat) RegisterDownload(
 		return nil, err
 	}
 
+	err = c.indexFile.AddIndexRecord(&indexRecord)
+	if err != nil {
+		return nil, err
+	}
+
 	return indexRecord.export(), nil
 }
 
diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index c29d583..06e0f3f 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -93,13 +93,21 @@ func (ind *indexFile) save() error {
 // representation of the data so that change is reflected. If an identical file has already been
 // shared, this will safely return an error
 func (ind *indexFile) AddIndexRecord(record *indexRecord) error {
-	if extantRecord, exists := ind.index[record.Sha1Hash]; exists {
-		return fmt.Errorf("identical file already shared: %s", extantRecord.FilePath)
+	if err := ind.checkNotIndexed(record); err != nil {
+		return err
 	}
 	ind.index[record.Sha1Hash] = record
 	return ind.save()
 }
 
+// checkNotIndexed returns an error if an identical file has already been indexed
+func (ind *indexFile) checkNotIndexed(record *indexRecord) error {
+	if extantRecord, exists := ind.index[record.Sha1Hash]; exists {
+		return fmt.Errorf("identical file already shared: %s", extantRecord.FilePath)
+	}
+	return nil
+}
+
 // RemoveIndexRecord removes an indexRecord from the underlying file, and reloads the in-memory
 // representation of the data so that change is reflected.
 func (ind *indexFile) RemoveIndexRecord(record *indexRecord) error {
-- 
2.43.0


From 03c2d8ddb69e8d72b0b594dab3030479f244e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 05/39] fix: replace catalogue files atomically

Both the index and the progress files were truncated and rewritten in place, so
a crash while saving left a truncated file and the catalogue could not be
loaded again.
---
 catalogue/indexFile.go    | 13 ++++++++++++-
 catalogue/progressFile.go |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 06e0f3f..88d9586 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -81,7 +81,7 @@ func (ind *indexFile) save() error {
 	}
 
 	indexFilePath := filepath.Join(ind.dataDir, indexFileName)
-	err = os.WriteFile(indexFilePath, data, 0664)
+	err = replaceFile(indexFilePath, data)
 	if err != nil {
 		return err
 	}
@@ -89,6 +89,17 @@ func (ind *indexFile) save() error {
 	return nil
 }
 
+// replaceFile atomically replaces the contents of the file at path, so a crash leaves either the old
+// or the new contents in place, never a truncated file.
+func replaceFile(path string, data []byte) error {
+	tmpPath := path + ".tmp"
+	err := os.WriteFile(tmpPath, data, 0664)
+	if err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, path)
+}
+
 // AddIndexRecord adds an indexRecord to the underlying file, and reloads the in-memory
 // representation of the data so that change is reflected. If an identical file has already been
 // shared, this will safely return an error
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index ba14d80..8b3ab9f 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -92,7 +92,7 @@ func newProgressFile(record *indexRecord, dataDir string) *progressFile {
 func (p *progressFile) save() error {
 	data := p.progress.Serialize()
 	progressFilePath := filepath.Join(p.filePath)
-	err := os.WriteFile(progressFilePath, data, 0664)
+	err := replaceFile(progressFilePath, data)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d17206331a049096537bbeb39e65d60c9dd702f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 06/39] fix: keep saving the index to the directory it was
 loaded from

The data directory stored in the index replaced the configured one, so after
the directory was moved, changes went to (or failed at) the old location while
the next start read the new one.
---
 catalogue/indexFile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 88d9586..d8ba1fe 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -70,6 +70,7 @@ func (ind *indexFile) Init(dataDir string) error {
 	}
 
 	err = ind.UnmarshalJSON(data)
+	ind.dataDir = dataDir // keep saving to where the index was loaded from
 	// TODO: assert ownership
 	return err
 }
-- 
2.43.0


From eaabbe5df2ad54eae449818402aa371462fff229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 07/39] fix: keep downloads inside the downloads directory

The file name announced by a peer was joined to the downloads directory as is,
so a name like ../../.bashrc let a peer write anywhere.
---
 catalogue/catalogue.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 37060e0..3356243 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -125,6 +125,12 @@ func (c *Cat) RegisterDownload(
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	// the name comes from a peer: reduce it to a plain name inside the downloads directory
+	filename = filepath.Base(filename)
+	if filename == "." || filename == ".." || filename == string(filepath.Separator) {
+		return nil, fmt.Errorf("invalid file name")
+	}
+
 	indexRecord := indexRecord{
 		FilePath:     filepath.Join(c.DefaultDownloadsDir, filename),
 		SizeInBytes:  int64(sizeInBytes),
-- 
2.43.0


From 7ee1277a858ab3d22a83de7a92b399061c826567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 08/39] fix: reject download metadata with impossible sizes

A chunk size of zero announced by a peer crashed the daemon with a division by
zero, and huge sizes made it allocate a bitset it could never fill.
---
 catalogue/catalogue.go   | 5 +++++
 catalogue/indexRecord.go | 1 +
 2 files changed, 6 insertions(+)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 3356243..0f9d347 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -125,6 +125,11 @@ func (c *Cat) RegisterDownload(
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	// reject sizes no progress file can describe. Chunk numbers are limited to 16 bits
+	if chunkSizeInBytes == 0 || sizeInBytes > uint64(chunkSizeInBytes)*maxChunkCount {
+		return nil, fmt.Errorf("invalid size %d or chunk size %d", sizeInBytes, chunkSizeInBytes)
+	}
+
 	// the name comes from a peer: reduce it to a plain name inside the downloads directory
 	filename = filepath.Base(filename)
 	if filename == "." || filename == ".." || filename == string(filepath.Separator) {
diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0b114b8..0024da2 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -11,6 +11,7 @@ import (
 )
 
 const defaultChunkSize = int(1 << 22) // 4mb in bytes
+const maxChunkCount = 1 << 16         // chunk numbers are 16 bits wide
 
 // indexRecord describes a file that is 'known' by the flu client. The existence of an indexRecord
 // does not imply that the file exists locally. To find out which chunks of the file are
-- 
2.43.0


From d65a9f43169cac37052c1d098e4ead2e8b6158c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 09/39] fix: create the downloads directory before downloading
 into it

Nothing created it, so saving the first chunk of the first download failed.
---
 catalogue/catalogue.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 0f9d347..ca33309 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -2,6 +2,7 @@ package catalogue
 
 import (
 	"fmt"
+	"os"
 	"path/filepath"
 	"sync"
 
@@ -144,7 +145,12 @@ func (c *Cat) RegisterDownload(
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
-	err := c.indexFile.checkNotIndexed(&indexRecord)
+	err := os.MkdirAll(c.DefaultDownloadsDir, os.ModePerm)
+	if err != nil {
+		return nil, err
+	}
+
+	err = c.indexFile.checkNotIndexed(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a4371824c5c79f2722792813f7a1ba83fc29ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 10/39] fix: refuse to save data that does not fit its chunk

The size of a chunk is announced by the peer that sends it; larger data
overwrote neighbouring chunks, and data for chunks past the end grew the file
and its bitset.
---
 catalogue/indexRecord.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0024da2..0a8d30a 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -51,12 +51,20 @@ func (ir *indexRecord) export() *IndexRecordExport {
 }
 
 func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
+	start := chunk * int64(ir.ChunkSize)
+	size := ir.SizeInBytes - start // bytes from the start of this chunk to the end of the file
+	if size > int64(ir.ChunkSize) {
+		size = int64(ir.ChunkSize)
+	}
+	if size <= 0 || int64(len(data)) != size {
+		return fmt.Errorf("%d bytes do not fit chunk %d", len(data), chunk)
+	}
+
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
 	}
 	defer fd.Close()
-	start := chunk * int64(ir.ChunkSize)
 	wrote, err := fd.WriteAt(data, start)
 	if err != nil {
 		return err
-- 
2.43.0


From a4f89f3dba6d6340421d565e313e293196c63a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 11/39] fix: do not crash the daemon when a download fails

Unsharing a file while it was being downloaded, failing to save a chunk (e.g.
on a full disk) or failing to reach a peer all panicked in the download
goroutine, which ends the daemon.
---
 catalogue/catalogue.go     | 15 ++++++++-------
 flu/serverStartDownload.go | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ca33309..70d0460 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -229,25 +229,26 @@ func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
 	return result
 }
 
-func (c *Cat) FileComplete(hash *common.Sha1Hash) bool {
+// FileComplete returns true if all chunks of the file with the given hash are present
+func (c *Cat) FileComplete(hash *common.Sha1Hash) (bool, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return false, err
 	}
-	return ir.ProgressFile.Full()
+	return ir.ProgressFile.Full(), nil
 }
 
 // MissingChunks returns a list of ranges of missing chunks for the given hash
-func (c *Cat) MissingChunks(hash *common.Sha1Hash, maxCount int) []common.Range {
+func (c *Cat) MissingChunks(hash *common.Sha1Hash, maxCount int) ([]common.Range, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return ir.ProgressFile.progress.UnfilledRanges()
+	return ir.ProgressFile.progress.UnfilledRanges(), nil
 }
 
 func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error {
@@ -255,7 +256,7 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return err
 	}
 
 	err = ir.saveChunk(int64(chunk), data)
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 60a2b28..b4f48a0 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -47,12 +47,23 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 	}
 
 	go func() { // TODO: make interruptiple with a channel
-		for !s.cat.FileComplete(hash) {
+		for {
+			complete, err := s.cat.FileComplete(hash)
+			if err != nil {
+				fmt.Printf("Download stopped: %v\n", err)
+				return
+			}
+			if complete {
+				break
+			}
 
 			// MARK: MASSIVE HACK. Fix this first!
-			wantedChunks := s.cat.MissingChunks(hash, 1) // TOOD: something much better than just
+			wantedChunks, err := s.cat.MissingChunks(hash, 1) // TOOD: something much better than just
 			// getting the next wanted chunk. This runs the entire download serially!
 			// Find the least-known chunk from each host and download them
+			if err != nil || len(wantedChunks) == 0 {
+				continue // completed or unshared meanwhile
+			}
 			c := wantedChunks[0]
 			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
 
@@ -97,7 +108,9 @@ func (s *Server) downloadMetaData(
 func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Hash, chunk uint16) {
 	conn, err := DialPeer(ip, port, sha1Hash, chunk)
 	if err != nil {
-		panic(err) // TODO: log somewhere and move on...
+		fmt.Printf("Failed to dial peer %v: %v\n", ip, err)
+		delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
+		return
 	}
 
 	start := time.Now()
@@ -130,7 +143,8 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 				}
 				err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
 				if err != nil {
-					panic(err)
+					fmt.Printf("Failed to save chunk %d: %v\n", chunk, err)
+					break
 				}
 				downloadTime := float64(time.Since(start).Seconds())
 				speed := 4.0 / downloadTime
-- 
2.43.0


From 15d5cb6416f1a09472a51518da5d9f4a8174afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 12/39] fix: do not save chunks whose hash does not match

The mismatch was detected and reported as being retried, but the corrupted data
was still written and its chunk marked as downloaded.
---
 flu/serverStartDownload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index b4f48a0..449098c 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -140,6 +140,7 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 				if finalHash.Data != conn.hash.Data {
 					// TODO: Handle this a little more gracefully...
 					fmt.Println("Sha1 hashes did not match. Download was corrupted. Retrying.")
+					break
 				}
 				err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
 				if err != nil {
-- 
2.43.0


From 1cee2adcce1e493a08ffb413fead284dbdf434be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:19 +0000
Subject: [PATCH 13/39] fix: verify the whole file before reporting a download
 as complete

Chunks are checked only against hashes announced by the peers that send them,
so a peer could complete a download with different contents.
---
 flu/serverStartDownload.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 449098c..d3ae698 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -82,6 +82,11 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 				s.transferLock.Unlock()
 			}
 		}
+		currentHash, err := s.cat.Rehash(hash)
+		if err != nil || *currentHash != *hash {
+			fmt.Printf("Download corrupted: %v now hashes to %v\n", hash, currentHash)
+			return
+		}
 		fmt.Println("Download complete")
 	}()
 
-- 
2.43.0


From b088748007a3ff3ce42f2be060fbcd0eba728145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 14/39] fix: do not exit when a peer asks for an unknown file
 or the network is down

log.Fatal ended the daemon whenever any peer asked to list a hash that is not in
the catalogue, and whenever discovery or listing ran without a network.
---
 flu/server.go                | 7 -------
 flu/serverDiscoverHosts.go   | 7 ++++++-
 flu/serverListFilesOnHost.go | 9 +++++----
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/flu/server.go b/flu/server.go
index 8582be7..279ae7d 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"sync"
 
@@ -173,9 +172,3 @@ func (s *Server) LocalIP() *net.IP {
 
 	return nil
 }
-
-func check(e error) {
-	if e != nil {
-		log.Fatal(e)
-	}
-}
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index 9c47701..8d592c3 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -1,6 +1,7 @@
 package flu
 
 import (
+	"fmt"
 	"net"
 	"time"
 
@@ -32,7 +33,11 @@ func (s *Server) DiscoverHosts(
 	}
 
 	conn, err := net.DialUDP("udp", nil, &broadcastAddress)
-	check(err)
+	if err != nil {
+		fmt.Printf("Failed to discover hosts: %v\n", err)
+		s.unregisterResponseChan(req.RequestID, req.ResponseType())
+		return nil
+	}
 	defer conn.Close()
 	conn.Write(req.Serialize())
 
diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 8095805..de2602d 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"path"
 	"time"
@@ -23,7 +22,9 @@ func (s *Server) ListFilesOnHost(
 	req := messages.ListFilesRequest{RequestID: s.generateRequestID(), Sha1Hash: hash}
 	targetAddr := net.UDPAddr{IP: ipv4[:], Port: int(port)}
 	conn, err := net.DialUDP("udp", nil, &targetAddr)
-	check(err)
+	if err != nil {
+		return nil, err
+	}
 	defer conn.Close()
 
 	// setup response harness. Buffered so we don't deadlock
@@ -75,12 +76,12 @@ func (s *Server) RespondToListFilesOnHost(
 	if req.Sha1Hash.IsBlank() {
 		files, err = s.cat.ListFiles()
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 	} else {
 		file, err := s.cat.Contains(req.Sha1Hash)
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 		files = append(files, *file)
 	}
-- 
2.43.0


From 27697b998459c6b0aa506318da1f650dd72a2931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 15/39] fix: survive having no local IPv4 address

LocalIP returns nil without a LAN address; starting the daemon, starting a
download and answering a discovery then dereferenced it and crashed.
---
 flu/ipv4.go                | 5 ++++-
 flu/server.go              | 2 +-
 flu/serverDiscoverHosts.go | 3 +++
 main.go                    | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/flu/ipv4.go b/flu/ipv4.go
index c3dfde8..91ba188 100644
--- a/flu/ipv4.go
+++ b/flu/ipv4.go
@@ -8,8 +8,11 @@ import (
 type ipv4 [4]byte
 
 func newIpv4(netIP *net.IP) (ipv4, error) {
-	converted := netIP.To4()
 	result := [4]byte{}
+	if netIP == nil {
+		return result, fmt.Errorf("no IP address available")
+	}
+	converted := netIP.To4()
 	if converted == nil {
 		return result, fmt.Errorf("provided IP address is not an IPV4 address")
 	}
diff --git a/flu/server.go b/flu/server.go
index 279ae7d..862fa55 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -158,7 +158,7 @@ func (s *Server) HandleMessage(message []byte, conn *net.UDPConn, returnAddr *ne
 func (s *Server) LocalIP() *net.IP {
 	addrs, err := net.InterfaceAddrs()
 	if err != nil {
-		panic(err)
+		return nil
 	}
 
 	for _, a := range addrs {
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index 8d592c3..ccaf18e 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -64,6 +64,9 @@ func (s *Server) RespondToDiscoverHosts(
 	returnAddr *net.UDPAddr,
 ) error {
 	ip := s.LocalIP()
+	if ip == nil {
+		return fmt.Errorf("no local IP address to respond with")
+	}
 	resp := messages.DiscoverHostResponse{
 		Address:   [4]byte{(*ip)[0], (*ip)[1], (*ip)[2], (*ip)[3]},
 		Port:      uint16(s.port),
diff --git a/main.go b/main.go
index 9da2737..81431f8 100644
--- a/main.go
+++ b/main.go
@@ -85,7 +85,7 @@ func startDaemon() {
 		c1, err := net.ListenUDP("udp", &addr)
 		failHard(err)
 		defer c1.Close()
-		fmt.Printf("UDP Interface available at: %s:%d\n", fluServer.LocalIP().String(), udpPort)
+		fmt.Printf("UDP Interface available at: %s:%d\n", fluServer.LocalIP(), udpPort)
 
 		for {
 			buffer := make([]byte, 1024)
-- 
2.43.0


From ae72e25e8df76a18e3ca388bf2bc93a4cc68e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 16/39] fix: convert IPv4 addresses by value, not by capacity
 of their slice

A 4-byte address in a larger buffer was read from the wrong place, or crashed
the daemon.
---
 flu/ipv4.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/flu/ipv4.go b/flu/ipv4.go
index 91ba188..f752737 100644
--- a/flu/ipv4.go
+++ b/flu/ipv4.go
@@ -17,14 +17,6 @@ func newIpv4(netIP *net.IP) (ipv4, error) {
 		return result, fmt.Errorf("provided IP address is not an IPV4 address")
 	}
 
-	switch cap(*netIP) {
-	case 4:
-		copy(result[:], (*netIP)[0:4])
-	case 16:
-		copy(result[:], (*netIP)[12:16])
-	default:
-		panic(fmt.Errorf("unknown net.IP %v", netIP))
-	}
-
+	copy(result[:], converted)
 	return result, nil
 }
-- 
2.43.0


From 0d8c435c0b15277d4018b76dca37e34cab5f092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 17/39] fix: never block on a response channel while holding
 the response table

A response arriving while its request timed out blocked on the full channel with
the lock held, while the request waited for the same lock: from then on every
request and response hung.
---
 flu/server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flu/server.go b/flu/server.go
index 862fa55..76fe9d8 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -83,7 +83,7 @@ func (s *Server) registerResponseChan(reqID uint16, msgType uint8) chan messages
 	key := requestKey{reqID: reqID, messageType: msgType}
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
-	responseChan := make(chan messages.Message, 1)
+	responseChan := make(chan messages.Message, 256)
 	s.resMap[key] = responseChan
 	return responseChan
 }
@@ -101,8 +101,12 @@ func (s *Server) deliverResponse(reqID uint16, msg messages.Message) error {
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
 	if responseChan, ok := s.resMap[key]; ok {
-		responseChan <- msg
-		return nil
+		select { // never block: the lock is held, and the receiver may be about to unregister
+		case responseChan <- msg:
+			return nil
+		default:
+			return fmt.Errorf("ResponseChan {%d:%d} full", reqID, msg)
+		}
 	}
 	return fmt.Errorf("ResponseChan {%d:%d} expired", reqID, msg)
 }
-- 
2.43.0


From 0bd74718dd6595f763df7116e87cfa1a59c8ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 18/39] fix: do not hold the transfer lock while downloading a
 chunk

The lock was held across the whole network transfer, so one silent peer stalled
every other download.
---
 flu/serverStartDownload.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index d3ae698..23032d4 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -74,12 +74,13 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 
 				// start downloading from this host if not doing that already
 				s.transferLock.Lock()
-				if _, ok := s.downloads[key]; !ok {
+				_, ok := s.downloads[key]
+				s.downloads[key] = struct{}{}
+				s.transferLock.Unlock()
+				if !ok {
 					fmt.Printf("Getting chunk: %v\n", c.Start)
-					s.downloads[key] = struct{}{}
 					s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
 				}
-				s.transferLock.Unlock()
 			}
 		}
 		currentHash, err := s.cat.Rehash(hash)
@@ -114,7 +115,7 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 	conn, err := DialPeer(ip, port, sha1Hash, chunk)
 	if err != nil {
 		fmt.Printf("Failed to dial peer %v: %v\n", ip, err)
-		delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
+		s.endDownload(sha1Hash, ip)
 		return
 	}
 
@@ -161,6 +162,12 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		conn.Ack(packet.Offset)
 	}
 
+	s.endDownload(sha1Hash, ip)
+}
+
+func (s *Server) endDownload(sha1Hash *common.Sha1Hash, ip ipv4) {
+	s.transferLock.Lock()
+	defer s.transferLock.Unlock()
 	delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
 }
 
-- 
2.43.0


From e130ac4770209ea29b58f2c4660838bfa1eb69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 19/39] fix: refuse truncated messages instead of crashing

Parsing a message that ends early indexed past the end of the datagram, so any
peer could crash the daemon with a file list announcing more entries than it
contains. Datagrams were also padded with zeroes up to the size of the buffer,
and file lists of more than 1024 bytes were always cut short.
---
 flu/messages/parse.go        |  5 +++++
 flu/messages/utils.go        | 34 ++++++++++++++++++++--------------
 flu/serverListFilesOnHost.go |  6 +++---
 main.go                      |  4 ++--
 4 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/flu/messages/parse.go b/flu/messages/parse.go
index 3329ac9..556fb6f 100644
--- a/flu/messages/parse.go
+++ b/flu/messages/parse.go
@@ -5,6 +5,11 @@ import "fmt"
 // Parse attempts to parse a serialized message into a flu messages.Message
 func Parse(data []byte) (msg Message, err error) {
 	reader := byteReader{Data: data}
+	defer func() {
+		if err == nil && reader.err != nil {
+			msg, err = nil, reader.err
+		}
+	}()
 	msgType := reader.readByte()
 
 	switch msgType {
diff --git a/flu/messages/utils.go b/flu/messages/utils.go
index 4c58135..cc3da63 100644
--- a/flu/messages/utils.go
+++ b/flu/messages/utils.go
@@ -2,6 +2,7 @@ package messages
 
 import (
 	"encoding/binary"
+	"fmt"
 
 	"github.com/flu-network/client/common"
 )
@@ -12,41 +13,47 @@ import (
 type byteReader struct {
 	Data  []byte
 	index int
+	err   error // set once more bytes were requested than there are
+}
+
+// next consumes the next count bytes. If there are fewer left, it sets err and returns zeroes.
+func (b *byteReader) next(count int) []byte {
+	if count > len(b.Data)-b.index {
+		b.err = fmt.Errorf("message of %d bytes is too short", len(b.Data))
+		return make([]byte, count)
+	}
+	result := b.Data[b.index : b.index+count]
+	b.index += count
+	return result
 }
 
 func (b *byteReader) readByte() uint8 {
-	result := b.Data[b.index]
-	b.index++
+	result := b.next(1)[0]
 	return result
 }
 
 func (b *byteReader) readBytes(count int) []byte {
-	result := b.Data[b.index : b.index+count]
-	b.index += count
+	result := b.next(count)
 	return result
 }
 
 func (b *byteReader) readSha1Hash() *common.Sha1Hash {
-	hashData := b.Data[b.index : b.index+20]
-	b.index += 20
+	hashData := b.next(20)
 	return (&common.Sha1Hash{}).FromSlice(hashData)
 }
 
 func (b *byteReader) readUint16() uint16 {
-	result := binary.BigEndian.Uint16(b.Data[b.index : b.index+2])
-	b.index += 2
+	result := binary.BigEndian.Uint16(b.next(2))
 	return result
 }
 
 func (b *byteReader) readUint32() uint32 {
-	result := binary.BigEndian.Uint32(b.Data[b.index : b.index+4])
-	b.index += 4
+	result := binary.BigEndian.Uint32(b.next(4))
 	return result
 }
 
 func (b *byteReader) readUint64() uint64 {
-	result := binary.BigEndian.Uint64(b.Data[b.index : b.index+8])
-	b.index += 8
+	result := binary.BigEndian.Uint64(b.next(8))
 	return result
 }
 
@@ -61,8 +68,7 @@ func (b *byteReader) readSliceUint16() []uint16 {
 
 func (b *byteReader) readString256() string {
 	length := int(b.readByte())
-	result := string(b.Data[b.index : b.index+length])
-	b.index += length
+	result := string(b.next(length))
 	return result
 }
 
diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index de2602d..66f198c 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -38,12 +38,12 @@ func (s *Server) ListFilesOnHost(
 			errorChan <- err
 		} else {
 			conn.Write(req.Serialize())
-			rawResponseBuffer := make([]byte, 1024)
-			_, err = conn.Read(rawResponseBuffer)
+			rawResponseBuffer := make([]byte, 1<<16)
+			n, err := conn.Read(rawResponseBuffer)
 			if err != nil {
 				errorChan <- err
 			} else {
-				responseChan <- rawResponseBuffer
+				responseChan <- rawResponseBuffer[:n]
 			}
 		}
 	}()
diff --git a/main.go b/main.go
index 81431f8..abd8125 100644
--- a/main.go
+++ b/main.go
@@ -89,10 +89,10 @@ func startDaemon() {
 
 		for {
 			buffer := make([]byte, 1024)
-			_, returnAddress, err := c1.ReadFromUDP(buffer)
+			n, returnAddress, err := c1.ReadFromUDP(buffer)
 			failHard(err)
 			go func() {
-				err := fluServer.HandleMessage(buffer, c1, returnAddress)
+				err := fluServer.HandleMessage(buffer[:n], c1, returnAddress)
 				if err != nil {
 					fmt.Println(err)
 				}
-- 
2.43.0


From 0022dbff2ead3942219279bca454145a102fc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 20/39] fix: check the packets of a download before using them

Packets that are too short, that come before the first packet or that lie beyond
the announced size crashed the daemon, and the announced size was allocated
whatever it was.
---
 flu/messages/msgDataPacket.go | 15 +++++++++++----
 flu/recvConnection.go         |  6 +++++-
 flu/serverStartDownload.go    | 15 ++++++++++++++-
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/flu/messages/msgDataPacket.go b/flu/messages/msgDataPacket.go
index fa36434..fce79b1 100644
--- a/flu/messages/msgDataPacket.go
+++ b/flu/messages/msgDataPacket.go
@@ -2,6 +2,7 @@ package messages
 
 import (
 	"encoding/binary"
+	"fmt"
 
 	"github.com/flu-network/client/common"
 )
@@ -44,22 +45,28 @@ func (r *DataPacket) Serialize() []byte {
 // Split interprets the DataPacket as the first message with a zero offset and returns the
 // the individual components of that message, namely: a hash of its contents, the size of the
 // overall data being transmitted in this connection, and the raw data itself
-func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte) {
+func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte, error) {
+	if len(r.Data) < 24 {
+		return nil, 0, nil, fmt.Errorf("first data packet of %d bytes is too short", len(r.Data))
+	}
 	hash := common.Sha1Hash{Data: [20]byte{}}
 	copy(hash.Data[:], r.Data[0:20]) // copy hash
 	chunkSize := binary.BigEndian.Uint32(r.Data[20:24])
 	data := r.Data[24:]
-	return &hash, chunkSize, data
+	return &hash, chunkSize, data, nil
 }
 
 // ParseAsDataPacket takes raw bytes from the wire and parses them as a DataPacket. It skips over
 // the first byte since that's used to indicate what type the message is, and this function assumes
 // the caller already has good reason to know this is a DataPacket and not something else.
-func ParseAsDataPacket(data []byte) *DataPacket {
+func ParseAsDataPacket(data []byte) (*DataPacket, error) {
+	if len(data) < 5 {
+		return nil, fmt.Errorf("data packet of %d bytes is too short", len(data))
+	}
 	return &DataPacket{
 		Offset: binary.BigEndian.Uint32(data[1:5]),
 		Data:   data[5:],
-	}
+	}, nil
 }
 
 // DataPacketAck is sent by the receiver to the sender with flow control and retransmission
diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index 67e7f86..4665caf 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -62,7 +62,11 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 				fmt.Printf("Connection closed: %v-%d:%v\n", hash, chunk, err)
 				break
 			} else {
-				result.outChan <- messages.ParseAsDataPacket(buffer[:n])
+				packet, err := messages.ParseAsDataPacket(buffer[:n])
+				if err != nil {
+					continue // not a data packet
+				}
+				result.outChan <- packet
 			}
 		}
 	}()
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 23032d4..0bb911d 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -112,6 +112,13 @@ func (s *Server) downloadMetaData(
 }
 
 func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Hash, chunk uint16) {
+	record, err := s.cat.Contains(sha1Hash)
+	if err != nil {
+		fmt.Printf("Download stopped: %v\n", err)
+		s.endDownload(sha1Hash, ip)
+		return
+	}
+
 	conn, err := DialPeer(ip, port, sha1Hash, chunk)
 	if err != nil {
 		fmt.Printf("Failed to dial peer %v: %v\n", ip, err)
@@ -129,11 +136,17 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 
 		if packet.Offset == 0 {
 			// By convention the 0-offset packet contains the hash and chunk size
-			hash, size, data := packet.Split()
+			hash, size, data, err := packet.Split()
+			if err != nil || uint64(size) > uint64(record.ChunkSize) {
+				fmt.Printf("Invalid first packet for chunk %d from peer %v\n", chunk, ip)
+				break
+			}
 			conn.hash = hash
 			conn.buffer = make([]byte, size)
 			copy(conn.buffer, data) // start at zero offset
 			conn.bytesReceived += len(data)
+		} else if conn.hash == nil || int64(packet.Offset) > int64(len(conn.buffer)) {
+			continue // came before the first packet, or lies beyond the data it announced
 		} else {
 			conn.bytesReceived += len(packet.Data)
 			if len(packet.Data) > 0 {
-- 
2.43.0


From 637aa273ebc9fa81d17de43cc81c6ddeadb92d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 21/39] fix: end the receiving goroutine and socket of a
 finished download

After the last packet nobody read from the connection any more, so its goroutine
blocked on the full channel and, with its socket, was leaked for every chunk.
---
 flu/recvConnection.go      | 20 ++++++++++++++++++--
 flu/serverStartDownload.go |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index 4665caf..f8b2fb1 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -16,6 +16,21 @@ type RecvConnection struct {
 	buffer        []byte
 	windowCap     int
 	outChan       chan *messages.DataPacket
+	done          chan struct{} // closed once nobody reads from outChan any longer
+}
+
+// Close ends the connection. It must be called once the caller is done reading from it.
+func (r *RecvConnection) Close() {
+	close(r.done)
+	r.conn.Close()
+}
+
+// deliver passes a packet to the reader, unless the connection is closed
+func (r *RecvConnection) deliver(packet *messages.DataPacket) {
+	select {
+	case r.outChan <- packet:
+	case <-r.done:
+	}
 }
 
 func (r *RecvConnection) Ack(offset uint32) {
@@ -46,6 +61,7 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 		buffer:        nil,
 		windowCap:     1024,
 		outChan:       make(chan *messages.DataPacket, 10),
+		done:          make(chan struct{}),
 	}
 
 	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: 1024}
@@ -58,7 +74,7 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 			n, _, err := result.conn.ReadFromUDP(buffer)
 			if err != nil {
 				result.conn.Close()
-				result.outChan <- nil
+				result.deliver(nil)
 				fmt.Printf("Connection closed: %v-%d:%v\n", hash, chunk, err)
 				break
 			} else {
@@ -66,7 +82,7 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 				if err != nil {
 					continue // not a data packet
 				}
-				result.outChan <- packet
+				result.deliver(packet)
 			}
 		}
 	}()
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 0bb911d..eef0e30 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -126,6 +126,8 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		return
 	}
 
+	defer conn.Close()
+
 	start := time.Now()
 
 	for { // returns false when done or errored
-- 
2.43.0


From cd3d565cc5fbcb611037c10f31d8a0d95853b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 22/39] fix: do not block forever on upload sessions that are
 ending

At the end of a file the worker signalled its own cancellation once per empty
packet and blocked on the second one; acks arriving after that filled the
channel and blocked their handlers forever.
---
 flu/senderConnection.go     | 5 ++++-
 flu/serverContinueUpload.go | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index e618dcb..330bb8c 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -88,7 +88,10 @@ func (sc *SenderConnection) kickstart(
 }
 
 func (sc *SenderConnection) terminate() {
-	sc.cancelChan <- struct{}{}
+	select { // never block: the worker calls this itself, possibly more than once
+	case sc.cancelChan <- struct{}{}:
+	default:
+	}
 }
 
 // kick receives an ack from the client and responds accordingly. Passed by value because acks are
diff --git a/flu/serverContinueUpload.go b/flu/serverContinueUpload.go
index a29395f..6c8c6a0 100644
--- a/flu/serverContinueUpload.go
+++ b/flu/serverContinueUpload.go
@@ -27,6 +27,10 @@ func (s *Server) ContinueUpload(
 		return fmt.Errorf("no upload corresponds to %v:%d", key.remoteHost, key.remotePort)
 	}
 
-	sc.packetChan <- *ack
-	return nil
+	select { // never block: the upload may have ended already
+	case sc.packetChan <- *ack:
+		return nil
+	default:
+		return fmt.Errorf("upload to %v:%d takes no more acks", key.remoteHost, key.remotePort)
+	}
 }
-- 
2.43.0


From 8105e4b0dc1059ba0fba1db0eae8613bfd920b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 23/39] fix: ignore surplus acks instead of wrapping the send
 window around

An ack received while no packet was outstanding (e.g. a duplicate) wrapped the
16-bit window size around and stalled the upload.
---
 flu/senderConnection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index 330bb8c..85e2e27 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -97,7 +97,9 @@ func (sc *SenderConnection) terminate() {
 // kick receives an ack from the client and responds accordingly. Passed by value because acks are
 // << 64 bits
 func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
-	sc.windowSize--
+	if sc.windowSize > 0 { // duplicate acks must not wrap it around
+		sc.windowSize--
+	}
 
 	packet := messages.DataPacket{Offset: 0, Data: nil}
 	packetBuffer := make([]byte, 1024)
-- 
2.43.0


From 8f7be2adb70e041281911aa453565376cfc065c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 24/39] fix: guard the table of uploads and start a new session
 per request

The table was accessed by concurrent handlers without its lock, and a request
from an address and port used before continued the old session: the data of the
old chunk under the hash of the new one, sent by two workers at once.
---
 flu/serverContinueUpload.go |  2 ++
 flu/serverStartUpload.go    | 11 ++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/flu/serverContinueUpload.go b/flu/serverContinueUpload.go
index 6c8c6a0..0229a42 100644
--- a/flu/serverContinueUpload.go
+++ b/flu/serverContinueUpload.go
@@ -22,7 +22,9 @@ func (s *Server) ContinueUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
+	s.transferLock.Lock()
 	sc, ok := s.uploads[key]
+	s.transferLock.Unlock()
 	if !ok {
 		return fmt.Errorf("no upload corresponds to %v:%d", key.remoteHost, key.remotePort)
 	}
diff --git a/flu/serverStartUpload.go b/flu/serverStartUpload.go
index 2b2b013..9fac70e 100644
--- a/flu/serverStartUpload.go
+++ b/flu/serverStartUpload.go
@@ -39,9 +39,14 @@ func (s *Server) StartUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
-	if _, ok := s.uploads[key]; !ok {
-		s.uploads[key] = NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	sc := NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+
+	s.transferLock.Lock()
+	if previous, ok := s.uploads[key]; ok {
+		previous.terminate()
 	}
+	s.uploads[key] = sc
+	s.transferLock.Unlock()
 
-	return s.uploads[key].kickstart(&reader.Hash, int64(reader.Size))
+	return sc.kickstart(&reader.Hash, int64(reader.Size))
 }
-- 
2.43.0


From e42292c9daf7a8e63476afbb1c601e5cb3ea181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 25/39] fix: end uploads on errors and silent peers instead of
 crashing or leaking

An error while sending ended the daemon, and a peer that stopped acknowledging
left the upload goroutine waiting forever.
---
 flu/senderConnection.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index 85e2e27..34da26b 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -2,13 +2,18 @@ package flu
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 	"net"
+	"time"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/flu/messages"
 )
 
+// uploadTimeout is how long an upload waits for an ack before it gives up on its peer
+const uploadTimeout = 10 * time.Second
+
 type SenderConnection struct {
 	reader     *common.ChunkReader
 	windowSize uint16
@@ -76,10 +81,13 @@ func (sc *SenderConnection) kickstart(
 			case ack := <-sc.packetChan:
 				err := sc.kick(ack)
 				if err != nil {
-					panic(err) // TODO: Do something with these errors
+					fmt.Printf("Upload to %v failed: %v\n", sc.addr, err)
+					return
 				}
 			case <-sc.cancelChan:
 				return
+			case <-time.After(uploadTimeout):
+				return // the peer fell silent
 			}
 		}
 	}()
-- 
2.43.0


From ede1ded60088f939114f9b2dad6ba3b3dd808d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 26/39] fix: close the file and forget the session when an
 upload ends

Every uploaded chunk kept its file descriptor and session for the lifetime of
the daemon, until it ran out of descriptors after about a thousand chunks.
---
 catalogue/indexRecord.go |  4 +++-
 common/chunkReader.go    |  9 +++++++++
 flu/senderConnection.go  |  2 ++
 flu/serverStartUpload.go | 21 ++++++++++++++++++++-
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0a8d30a..3feedc0 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -93,7 +93,9 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		return nil, err
 	}
 
-	return common.NewChunkReader(secReader), nil
+	chunkReader := common.NewChunkReader(secReader)
+	chunkReader.Closer = fd
+	return chunkReader, nil
 }
 
 func generateIndexRecordForFile(path string) (*indexRecord, error) {
diff --git a/common/chunkReader.go b/common/chunkReader.go
index 64b2e30..f756e5c 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -13,6 +13,15 @@ type ChunkReader struct {
 	Reader io.SectionReader
 	Hash   Sha1Hash
 	Size   int64
+	Closer io.Closer // closes whatever the Reader reads from, if anything
+}
+
+// Close closes whatever the ChunkReader reads from
+func (cr *ChunkReader) Close() error {
+	if cr.Closer == nil {
+		return nil
+	}
+	return cr.Closer.Close()
 }
 
 func (cr *ChunkReader) Offset() uint32 {
diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index 34da26b..b76a8cb 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -22,6 +22,7 @@ type SenderConnection struct {
 	addr       *net.UDPAddr
 	packetChan chan messages.DataPacketAck
 	cancelChan chan struct{}
+	onEnd      func() // called once the connection has ended
 }
 
 func NewSenderConnection(reader *common.ChunkReader,
@@ -76,6 +77,7 @@ func (sc *SenderConnection) kickstart(
 	sc.windowSize++
 
 	go func() {
+		defer sc.onEnd()
 		for {
 			select {
 			case ack := <-sc.packetChan:
diff --git a/flu/serverStartUpload.go b/flu/serverStartUpload.go
index 9fac70e..a8e25f2 100644
--- a/flu/serverStartUpload.go
+++ b/flu/serverStartUpload.go
@@ -25,12 +25,14 @@ func (s *Server) StartUpload(
 	}
 
 	if reader.Size > math.MaxUint32 {
+		reader.Close()
 		err = fmt.Errorf("chunk size (%d) exceeds max 32-bit int (%d)", reader.Size, math.MaxInt32)
 		return err
 	}
 
 	remoteHostIP, err := newIpv4(&returnAddr.IP)
 	if err != nil {
+		reader.Close()
 		return err
 	}
 
@@ -40,6 +42,10 @@ func (s *Server) StartUpload(
 	}
 
 	sc := NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	sc.onEnd = func() {
+		reader.Close()
+		s.endUpload(key, sc)
+	}
 
 	s.transferLock.Lock()
 	if previous, ok := s.uploads[key]; ok {
@@ -48,5 +54,18 @@ func (s *Server) StartUpload(
 	s.uploads[key] = sc
 	s.transferLock.Unlock()
 
-	return sc.kickstart(&reader.Hash, int64(reader.Size))
+	err = sc.kickstart(&reader.Hash, int64(reader.Size))
+	if err != nil {
+		sc.onEnd()
+	}
+	return err
+}
+
+// endUpload forgets about an upload, unless a newer one has taken its place
+func (s *Server) endUpload(key uploadKey, sc *SenderConnection) {
+	s.transferLock.Lock()
+	defer s.transferLock.Unlock()
+	if s.uploads[key] == sc {
+		delete(s.uploads, key)
+	}
 }
-- 
2.43.0


From e8443e303b06be0fd273b697e3de493553b205cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 27/39] fix: stop reading a chunk at a read error

A read error other than EOF, e.g. because the shared file was replaced by a
directory, was retried forever with the catalogue lock held.
---
 catalogue/indexRecord.go | 4 ++++
 common/chunkReader.go    | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 3feedc0..13aa9c3 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -94,6 +94,10 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 	}
 
 	chunkReader := common.NewChunkReader(secReader)
+	if chunkReader.Err != nil {
+		fd.Close()
+		return nil, chunkReader.Err
+	}
 	chunkReader.Closer = fd
 	return chunkReader, nil
 }
diff --git a/common/chunkReader.go b/common/chunkReader.go
index f756e5c..559b92d 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -13,6 +13,7 @@ type ChunkReader struct {
 	Reader io.SectionReader
 	Hash   Sha1Hash
 	Size   int64
+	Err    error     // set if hashing stopped at a read error
 	Closer io.Closer // closes whatever the Reader reads from, if anything
 }
 
@@ -64,6 +65,7 @@ func (cr *ChunkReader) Reset() error {
 func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 	hash := sha1.New()
 	size := 0
+	var readErr error
 
 	hashBuffer := make([]byte, 4096) // A reasonably-recent mac's block size
 
@@ -84,6 +86,9 @@ func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 
 		if err == io.EOF {
 			break
+		} else if err != nil {
+			readErr = err
+			break
 		}
 	}
 
@@ -94,5 +99,6 @@ func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 		Reader: *reader,
 		Hash:   *finalHash,
 		Size:   int64(size),
+		Err:    readErr,
 	}
 }
-- 
2.43.0


From 0dc17800511837adaf47c632f4198044173f11ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 28/39] fix: clear only the named bit of a bitset, and read any
 index safely

Unsetting a bit that was not set borrowed from the bits above it, and reading an
index with the top bit set crashed.
---
 common/bitset/bitset.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index c1faa37..83a4372 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -56,7 +56,7 @@ func (b *Bitset) Count() int {
 // Get returns true if the specified index has been previously set and never subsequently unset.
 // Safely false if the specified index is out of bounds.
 func (b *Bitset) Get(x uint64) bool {
-	if int(x)/wordSize >= len(b.data) {
+	if x/wordSize >= uint64(len(b.data)) {
 		return false
 	}
 	return b.data[x/wordSize]&(1<<(x%wordSize)) != 0
@@ -111,11 +111,11 @@ func (b *Bitset) Full() bool {
 // Unset sets the specified index to False. If the specified index is out of bounds, nothing
 // happens. Does not cause size to shrink. Returns itself
 func (b *Bitset) Unset(x uint64) *Bitset {
-	offset := int(x) / wordSize
-	if offset >= len(b.data) {
+	offset := x / wordSize
+	if offset >= uint64(len(b.data)) {
 		return b
 	}
-	b.data[offset] = b.data[offset] - (1 << (x % wordSize))
+	b.data[offset] = b.data[offset] &^ (1 << (x % wordSize))
 	return b
 }
 
-- 
2.43.0


From d5d27cb4ae160681981eb152615006fb2455c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:39 +0000
Subject: [PATCH 29/39] fix: refuse truncated bitset data instead of crashing

An empty or cut-off progress file crashed the daemon when it was read or first
used.
---
 common/bitset/bitset.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 83a4372..7fe6acd 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -254,6 +254,9 @@ func (b *Bitset) Serialize() []byte {
 
 // Deserialize converts a previously-serialized bitset into a realized bitset.
 func Deserialize(data []byte) (*Bitset, error) {
+	if len(data) < 8 {
+		return nil, fmt.Errorf("bitset data of %d bytes is too short", len(data))
+	}
 	size := int(binary.BigEndian.Uint64(data[:8]))
 
 	if l := len(data[8:]); l%8 != 0 {
@@ -266,6 +269,10 @@ func Deserialize(data []byte) (*Bitset, error) {
 		setData[i] = binary.BigEndian.Uint64(data[byteIndex : byteIndex+8])
 	}
 
+	if size < 0 || size > len(setData)*wordSize {
+		return nil, fmt.Errorf("bitset data has %d words for size %d", len(setData), size)
+	}
+
 	return &Bitset{
 		data: setData,
 		size: size,
-- 
2.43.0


From d25a9f747d8cc789d75f78161713d55cca7923f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 30/39] fix: ignore the unpaired end of an odd list of chunk
 ranges

A discovery message with an odd number of chunk numbers crashed its receiver.
---
 cli/cliMethodsChims.go  | 2 +-
 common/bitset/bitset.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/cliMethodsChims.go b/cli/cliMethodsChims.go
index 2499ee2..8b04cd3 100644
--- a/cli/cliMethodsChims.go
+++ b/cli/cliMethodsChims.go
@@ -28,7 +28,7 @@ func (c *ChimResponse) Sprintf() string {
 	var b strings.Builder
 	b.WriteString(fmt.Sprintf("IP: %d.%d.%d.%d:%d\n",
 		c.HostIP[0], c.HostIP[1], c.HostIP[2], c.HostIP[3], c.HostPort))
-	for i := 0; i < len(c.Chunks); i += 2 {
+	for i := 0; i+1 < len(c.Chunks); i += 2 {
 		b.WriteString(fmt.Sprintf("  %d:%d\n", c.Chunks[i], c.Chunks[i+1]))
 	}
 	return b.String()
diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 7fe6acd..f9ab916 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -152,7 +152,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 // non-overallping ranges that are set to 'on' within the underlying bitset
 func (b *Bitset) Overlap(ranges []uint16) []uint16 {
 	result := make([]uint16, 0, len(ranges))
-	for i := 0; i < len(ranges); i += 2 {
+	for i := 0; i+1 < len(ranges); i += 2 {
 		start, end := ranges[i], ranges[i+1]
 		result = append(result, b.filledRanges(int(start), int(end))...)
 	}
-- 
2.43.0


From 81a0122487867a53d4301097a6504b9332b810cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 31/39] fix: clip lists of chunk ranges to the length their
 count can express

---
 flu/messages/msgDiscoverHosts.go | 14 ++++++++------
 flu/messages/utils.go            | 12 ++++++++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/flu/messages/msgDiscoverHosts.go b/flu/messages/msgDiscoverHosts.go
index 5613e21..cd42998 100644
--- a/flu/messages/msgDiscoverHosts.go
+++ b/flu/messages/msgDiscoverHosts.go
@@ -35,11 +35,12 @@ func (r *DiscoverHostRequest) Serialize() []byte {
 	copy(result[3:23], r.Sha1Hash.Slice())
 
 	// chunk count
-	result[23] = uint8(len(r.Chunks))
+	ranges := clipRanges(r.Chunks)
+	result[23] = uint8(len(ranges))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(ranges)*2)
+	for i, chunkVal := range ranges {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
@@ -83,11 +84,12 @@ func (r *DiscoverHostResponse) Serialize() []byte {
 	binary.BigEndian.PutUint16(result[7:9], r.Port)
 
 	// chunk count
-	result[9] = uint8(len(r.Chunks))
+	ranges := clipRanges(r.Chunks)
+	result[9] = uint8(len(ranges))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(ranges)*2)
+	for i, chunkVal := range ranges {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
diff --git a/flu/messages/utils.go b/flu/messages/utils.go
index cc3da63..60c8204 100644
--- a/flu/messages/utils.go
+++ b/flu/messages/utils.go
@@ -74,6 +74,18 @@ func (b *byteReader) readString256() string {
 
 // Serialization utilities
 
+// maxRangesLength is how many numbers fit a list of ranges: its length is sent as a single byte, and
+// ranges are pairs.
+const maxRangesLength = 254
+
+// clipRanges drops the ranges at the end of the list that cannot be serialized.
+func clipRanges(ranges []uint16) []uint16 {
+	if len(ranges) > maxRangesLength {
+		return ranges[:maxRangesLength]
+	}
+	return ranges
+}
+
 // SerializeString255 serializaes the first 255 bytes of a string. Later bytes are ignored.
 func SerializeString255(s string) []byte {
 	strLen := len(s)
-- 
2.43.0


From ac260506407e5a7bc9e12ae9fc21b316f18a8aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 32/39] fix: refuse to list files on a host without an IPv4
 address

---
 cli/cliMethodsList.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/cliMethodsList.go b/cli/cliMethodsList.go
index 80c9e8a..3574efe 100644
--- a/cli/cliMethodsList.go
+++ b/cli/cliMethodsList.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"fmt"
 	"net"
 	"strings"
 
@@ -52,6 +53,9 @@ func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
 		}
 	} else {
 		addr := req.IP.To4()
+		if addr == nil {
+			return fmt.Errorf("not an IPV4 address: %v", req.IP)
+		}
 		ip := [4]byte{addr[0], addr[1], addr[2], addr[3]}
 		r, err := m.fluServer.ListFilesOnHost(ip, uint16(m.fluServer.Port()), req.Sha1Hash)
 		if err != nil {
-- 
2.43.0


From 897d9ebbd2834407ae37bd879a4b7b806a6b9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 33/39] fix: check the number of arguments of get before
 reading them

---
 cli/cliClient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 08f99eb..42bbf97 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -98,9 +98,9 @@ func (c *Client) Run(cmdArgs []string) {
 			Sha1Hash: &common.Sha1Hash{},
 		}
 		res := GetResponse{}
+		validateArgCount("Get", GetRequest{}, args)
 		err := req.Sha1Hash.FromStringSafe(args[0])
 		validate(err)
-		validateArgCount("Clean", GetRequest{}, args)
 		callClientMethodAndPrintResponse(client, "Methods.Get", &req, &res)
 
 	// Chims lists available hosts on the LAN, including the local daemon. If gives hosts a few
-- 
2.43.0


From f89b3024e27c86b277eacd7d4f5bcd5f5f56b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 34/39] fix: list empty files without dividing by zero

---
 cli/cliMethodsShare.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/cliMethodsShare.go b/cli/cliMethodsShare.go
index 9c7482f..b4d47ad 100644
--- a/cli/cliMethodsShare.go
+++ b/cli/cliMethodsShare.go
@@ -27,6 +27,10 @@ type ListItem struct {
 // Sprintf returns a pretty-printed, user-facing string representation of a ListItem
 func (li *ListItem) Sprintf() string {
 	_, fileName := path.Split(li.FilePath)
+	integrity := 100 // an empty file has no chunks to miss
+	if li.ChunkCount > 0 {
+		integrity = (li.ChunksDownloaded * 100 / li.ChunkCount * 100) / 100
+	}
 	output := []string{
 		fmt.Sprintf("%s\n", fileName),
 		fmt.Sprintf("	Path: %s\n", li.FilePath),
@@ -35,7 +39,7 @@ func (li *ListItem) Sprintf() string {
 		fmt.Sprintf("	Chunk Count: %d\n", li.ChunkCount),
 		fmt.Sprintf("	Chunks Downloaded: %d\n", li.ChunksDownloaded),
 		fmt.Sprintf("	Chunk Size: %d\n", li.ChunkSizeInBytes),
-		fmt.Sprintf("	Integrity: %d%%\n", (li.ChunksDownloaded*100/li.ChunkCount*100)/100),
+		fmt.Sprintf("	Integrity: %d%%\n", integrity),
 	}
 
 	var b strings.Builder
-- 
2.43.0


From cc27551eaddb6cae72a16f7cfa657690bfbf27e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 35/39] fix: keep downloads in progress when cleaning even if
 nothing is stored yet

---
 cli/cliMethodsClean.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/cliMethodsClean.go b/cli/cliMethodsClean.go
index 57dd780..a513abe 100644
--- a/cli/cliMethodsClean.go
+++ b/cli/cliMethodsClean.go
@@ -51,12 +51,12 @@ func (m *Methods) Clean(req *CleanRequest, resp *CleanResponse) error {
 		actionTaken.WriteString(fmt.Sprintf("%s\n", f.FilePath))
 
 		switch {
+		case !f.Progress.Full():
+			actionTaken.WriteString("  - Download in progress. Ignored\n")
 		case err != nil:
 			execErr = m.cat.UnshareFile(&f.Sha1Hash)
 			actionTaken.WriteString("  - File is missing. Removed from index\n")
 			actionTaken.WriteString(fmt.Sprintf("  - %v\n", err))
-		case !f.Progress.Full():
-			actionTaken.WriteString("  - Download in progress. Ignored\n")
 		case *currentHash != f.Sha1Hash:
 			execErr = m.cat.UnshareFile(&f.Sha1Hash)
 			actionTaken.WriteString("  - File has changed since indexing. Removed from Index\n")
-- 
2.43.0


From e9a6ee27e945ddcfc8db6106b862087b2ea8f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 36/39] fix: return a copy of the record of a shared file, not
 the live record

---
 catalogue/catalogue.go | 4 ++--
 cli/cliMethodsShare.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 70d0460..0b8d946 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -61,7 +61,7 @@ func (c *Cat) Init() error {
 // ShareFile generates an IndexRecord for the given filepath (unless an identical file has
 // already been shared) and refreshes the inderlying indexFile. Sharing a file assumes that the
 // file has been downloaded completely.
-func (c *Cat) ShareFile(path string) (*indexRecord, error) {
+func (c *Cat) ShareFile(path string) (*IndexRecordExport, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
@@ -87,7 +87,7 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
-	return record, nil
+	return record.export(), nil
 }
 
 // UnshareFile immediately deletes all references to it from flu's index. Any transfers in progress
diff --git a/cli/cliMethodsShare.go b/cli/cliMethodsShare.go
index b4d47ad..edffdb6 100644
--- a/cli/cliMethodsShare.go
+++ b/cli/cliMethodsShare.go
@@ -62,8 +62,8 @@ func (m *Methods) Share(req *ShareRequest, resp *ListItem) error {
 	resp.FilePath = record.FilePath
 	resp.SizeInBytes = record.SizeInBytes
 	resp.Sha1Hash = *record.Sha1Hash.Array()
-	resp.ChunkCount = record.ProgressFile.Size()
+	resp.ChunkCount = record.Progress.Size()
 	resp.ChunkSizeInBytes = record.ChunkSize
-	resp.ChunksDownloaded = record.ProgressFile.Count()
+	resp.ChunksDownloaded = record.Progress.Count()
 	return nil
 }
-- 
2.43.0


From d101a5a1ca18ea5bd4d51bdb198119886ee17328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 37/39] fix: report a chunk offset that does not fit a packet
 instead of crashing

---
 common/chunkReader.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/common/chunkReader.go b/common/chunkReader.go
index 559b92d..5030e4b 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -25,25 +25,28 @@ func (cr *ChunkReader) Close() error {
 	return cr.Closer.Close()
 }
 
-func (cr *ChunkReader) Offset() uint32 {
+func (cr *ChunkReader) Offset() (uint32, error) {
 	offset, err := cr.Reader.Seek(0, io.SeekCurrent)
 
 	if err != nil {
-		panic(err)
+		return 0, err
 	}
 	if offset > math.MaxUint32 {
-		panic(fmt.Errorf(
+		return 0, fmt.Errorf(
 			"ChunkReader cannot yield %d, greater than max uint32 %d",
 			offset,
 			math.MaxUint32,
-		))
+		)
 	}
 
-	return uint32(offset)
+	return uint32(offset), nil
 }
 
 func (cr *ChunkReader) Read(buffer []byte) (int, uint32, error) {
-	offset := cr.Offset()
+	offset, err := cr.Offset()
+	if err != nil {
+		return 0, 0, err
+	}
 	bytesRead, err := cr.Reader.Read(buffer)
 	return bytesRead, offset, err
 }
@@ -55,7 +58,11 @@ func (cr *ChunkReader) Reset() error {
 		return err
 	}
 
-	if cr.Offset() != 0 {
+	offset, err := cr.Offset()
+	if err != nil {
+		return err
+	}
+	if offset != 0 {
 		return fmt.Errorf("internal error: resetting ChunkReader had no effect")
 	}
 
-- 
2.43.0


From 86da0cad7c860405f376adfe39aa3e3898fd919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:40 +0000
Subject: [PATCH 38/39] fix: accept only the answer to the request sent in
 ListFilesOnHost

---
 flu/serverListFilesOnHost.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 66f198c..156f17c 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -59,6 +59,9 @@ func (s *Server) ListFilesOnHost(
 		if !ok {
 			return nil, fmt.Errorf("wrong response type received for ListFilesRequest: %v", result)
 		}
+		if result.RequestID != req.RequestID {
+			return nil, fmt.Errorf("response to another ListFilesRequest received: %v", result)
+		}
 		return result, nil
 	case err = <-errorChan:
 		return nil, err
-- 
2.43.0


From c4dae9a2705180f5c32e9849340467bba690a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:10 +0000
Subject: [PATCH 39/39] fix: unions and intersections of bitmaps have a size

---
 common/bitset/bitset.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index f9ab916..90c2028 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -132,7 +132,7 @@ func (b *Bitset) Union(a *Bitset) *Bitset {
 	copy(remainder, longer.data[len(shorter.data):])
 
 	result = append(result, remainder...)
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: max(a.size, b.size)}
 }
 
 // Intersect returns the intersect between any two bitsets
@@ -144,7 +144,11 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 		result[i] = x & longer.data[i]
 	}
 
-	return &Bitset{data: result}
+	size := a.size
+	if b.size < size {
+		size = b.size
+	}
+	return &Bitset{data: result, size: size}
 }
 
 // Overlap takes a sorted  list of ranges ([]uint16 of even length) where each consecutive pair of
-- 
2.43.0

