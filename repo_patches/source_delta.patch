From efb96a956043a4140d7417c009833ccf8f312e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 01/21] fix: report a failed flush in WriteSerialList

The deferred Flush dropped its error, so a full disk could leave a truncated
serial file that Commit then moved into place before removing the serials from
the cache.
---
 go/storage/certdatabase.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index b9d7a98..58b227b 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -32,7 +32,6 @@ func serialListExpiryLine(aExpDate types.ExpDate) string {
 
 func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer, aSerials []types.Serial) error {
 	writer := bufio.NewWriter(w)
-	defer writer.Flush()
 
 	// Write the expiry date for this collection of serial numbers as a unix
 	// timestamp encoded as a zero-padded 16 digit hex string. The expiry
@@ -56,7 +55,7 @@ func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer,
 		}
 	}
 
-	return nil
+	return writer.Flush()
 }
 
 type CertDatabase struct {
-- 
2.43.0


From 6e7e787b5473412b542b09640a3c57a5149dfe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 02/21] fix: do not publish the epoch when writing the epoch
 file failed

---
 go/storage/certdatabase.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 58b227b..d84cb1b 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -618,7 +618,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		glog.Warningf("Failed to increment epochs: %s", err)
 		return nil
 	}
-	writer.Flush()
+	err = writer.Flush()
+	if err != nil {
+		glog.Warningf("Failed to increment epochs: %s", err)
+		return nil
+	}
 
 	err = db.cache.NextEpoch()
 	if err != nil {
-- 
2.43.0


From b84df184a820835fccaa97078a8fc43cc4f5a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 03/21] fix: wait for every started downloader before closing
 the entry channel

SyncLog and insertCTWorker added themselves to their wait groups after they
had been started, so the main thread could pass both Wait calls before a
downloader had been counted: ct-fetch then exited without syncing the log, or
the downloader sent on the closed entry channel. Add to the wait groups before
the go statements, and count the thread that starts downloaders as well.
---
 go/cmd/ct-fetch/ct-fetch.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index f2d6c71..285e2aa 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -87,12 +87,13 @@ func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
 }
 
 func (ld *LogSyncEngine) StartDatabaseThread(ctx context.Context) {
+	ld.ThreadWaitGroup.Add(1)
 	go ld.insertCTWorker(ctx)
 }
 
-// Blocking function, run from a thread
+// Blocking function, run from a thread. The caller must have added the thread
+// to |DownloaderWaitGroup|.
 func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
-	ld.DownloaderWaitGroup.Add(1)
 	defer ld.DownloaderWaitGroup.Done()
 
 	if err := ld.database.Migrate(&logMeta); err != nil {
@@ -215,7 +216,6 @@ func (ld *LogSyncEngine) tryUpdate(queue []storage.SetMemberWithExpiry, logState
 }
 
 func (ld *LogSyncEngine) insertCTWorker(ctx context.Context) {
-	ld.ThreadWaitGroup.Add(1)
 	defer ld.ThreadWaitGroup.Done()
 
 	healthStatusPeriod := time.Duration(15000+rand.Int63n(15000)) * time.Millisecond
@@ -463,10 +463,14 @@ func main() {
 	// Start a thread to store LogSyncMessages
 	syncEngine.StartDatabaseThread(ctx)
 
-	// Sync with logs as they are enrolled
+	// Sync with logs as they are enrolled. This thread counts as a downloader
+	// so that |syncEngine.Wait| can not return while it may still start one.
+	syncEngine.DownloaderWaitGroup.Add(1)
 	go func() {
+		defer syncEngine.DownloaderWaitGroup.Done()
 		for ctLog := range enrolledLogs.NewChan {
 			glog.Infof("[%s] Starting download.", ctLog.URL)
+			syncEngine.DownloaderWaitGroup.Add(1)
 			go syncEngine.SyncLog(ctx, enrolledLogs, ctLog)
 		}
 	}()
-- 
2.43.0


From 1060c731944c2082b03d7a8f81580d260c257480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 04/21] fix: ingest entry 0 of a tiled log

---
 go/cmd/ct-fetch/tiled.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index 86a6139..031b8f5 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -253,6 +253,14 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 	maxTimestamp := lw.LogState.MaxTimestamp
 	maxEntry := lw.LogState.MaxEntry
 
+	// nextEntry is the index of the first entry that we have not processed. A
+	// MaxEntry of 0 is ambiguous: it is also the value in a new log state.
+	newLog := lw.LogState.LastUpdateTime.IsZero()
+	nextEntry := maxEntry + 1
+	if newLog {
+		nextEntry = 0
+	}
+
 	if lw.WorkOrder == RetryGetSTH {
 		lw.sleep(ctx)
 		return nil
@@ -268,7 +276,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
+		if !newLog && lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
 			maxTimestamp = lw.SthTimestamp
 			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
 			if err != nil {
@@ -284,21 +292,22 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		return fmt.Errorf("Unexpected work order: %d", lw.WorkOrder)
 	}
 
-	// readLogEntries mutably captures lw, ctx, maxEntry, minTimestamp,
-	// and maxTimestamp.
+	// readLogEntries mutably captures lw, ctx, maxEntry, nextEntry,
+	// minTimestamp, and maxTimestamp.
 	//
 	// Return codes:
 	//   - (true, nil): success
 	//   - (false, nil): intermittent error, the TileLogWorker should sleep.
 	//   - (false, err): fatal error, log ingestion should halt.
 	readLogEntries := func() (bool, error) {
-		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(maxEntry+1)) {
+		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(nextEntry)) {
 			keepGoing, err := lw.storeLogEntry(ctx, entry, entryChan)
 			if !(keepGoing && err == nil) {
 				return keepGoing, err
 			}
 
 			maxEntry = uint64(i)
+			nextEntry = maxEntry + 1
 			minTimestamp = uint64Min(minTimestamp, uint64(entry.Timestamp))
 			maxTimestamp = uint64Max(maxTimestamp, uint64(entry.Timestamp))
 
@@ -311,13 +320,15 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 			}
 		}
 
-		err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
-		if err != nil {
-			glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
-			return false, err
+		if nextEntry > 0 {
+			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
+			if err != nil {
+				glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
+				return false, err
+			}
 		}
 
-		err = lw.Client.Err()
+		err := lw.Client.Err()
 		if err != nil {
 			glog.Errorf("[%s] : Sunlight client error %s", lw.Name(), err)
 			return false, nil
-- 
2.43.0


From 4241dc581d540fd9d597b87a93fc3dcc83e7719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 05/21] fix: do not count a one-entry log as covered before it
 was read

---
 go/cmd/ct-fetch/rfc6962.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index bf5acfe..c301a18 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -354,7 +354,8 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
+		// MaxEntry is also 0 if nothing has been downloaded yet.
+		if !lw.LogState.LastUpdateTime.IsZero() && lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
 			err := lw.updateState(ctx, nil, lw.LogState.MinEntry, lw.STH.Timestamp, entryChan)
 			if err != nil {
 				glog.Errorf("[%s] Failed to update log state: %s", lw.Name(), err)
-- 
2.43.0


From 5eee3202832e96f836ae9cea74e081dac6f00c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 06/21] fix: keep the minimum timestamp of an idle log

---
 go/cmd/ct-fetch/rfc6962.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index c301a18..363b36c 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -356,7 +356,7 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// is no longer receiving new entries.
 		// MaxEntry is also 0 if nothing has been downloaded yet.
 		if !lw.LogState.LastUpdateTime.IsZero() && lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
-			err := lw.updateState(ctx, nil, lw.LogState.MinEntry, lw.STH.Timestamp, entryChan)
+			err := lw.updateState(ctx, nil, lw.LogState.MinTimestamp, lw.STH.Timestamp, entryChan)
 			if err != nil {
 				glog.Errorf("[%s] Failed to update log state: %s", lw.Name(), err)
 				return err
-- 
2.43.0


From f638bc4ba6bfb2062d9b61aad7e4e4c4c0001c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 07/21] fix: audit CRLs that are excluded by a failing rename,
 directory or local file

A CRL whose verified download could not be moved into place, whose
directory could not be made or whose local file could not be examined was
left out without an entry in the audit report.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 2 ++
 go/downloader/verifying-downloader.go   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 97d6201..f35e081 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -93,6 +93,7 @@ func (ae *AggregateEngine) crlFetchWorkerProcessOne(ctx context.Context, crlUrl
 
 	err := os.MkdirAll(filepath.Join(*crlpath, issuer.ID()), permModeDir)
 	if err != nil {
+		ae.auditor.FailedProcessLocal(&issuer, &crlUrl, filepath.Join(*crlpath, issuer.ID()), err)
 		glog.Warningf("Couldn't make directory: %s", err)
 		return "", err
 	}
@@ -123,6 +124,7 @@ func (ae *AggregateEngine) crlFetchWorkerProcessOne(ctx context.Context, crlUrl
 	// Ensure the final path is acceptable
 	localSize, localDate, err := downloader.GetSizeAndDateOfFile(finalPath)
 	if err != nil {
+		ae.auditor.FailedProcessLocal(&issuer, &crlUrl, finalPath, err)
 		glog.Errorf("[%s] Unexpected error on local file, will not be populating the "+
 			"revocations: %s", crlUrlStr, err)
 		return "", err
diff --git a/go/downloader/verifying-downloader.go b/go/downloader/verifying-downloader.go
index 84187e3..671a63b 100644
--- a/go/downloader/verifying-downloader.go
+++ b/go/downloader/verifying-downloader.go
@@ -65,6 +65,7 @@ func DownloadAndVerifyFileSync(ctx context.Context, verifyFunc DownloadVerifier,
 
 	renameErr := os.Rename(tmpPath, finalPath)
 	if renameErr != nil {
+		auditor.FailedDownload(identifier, &crlUrl, dlTracer, renameErr)
 		glog.Errorf("[%s] Couldn't rename %s to %s: %s", identifier.ID(), tmpPath, finalPath, renameErr)
 
 		return attemptFallbackToExistingFile(renameErr)
-- 
2.43.0


From a94dbfc1d0ab5cead91e3d9bdabb50ca3b789f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 08/21] fix: keep CoverageCutoff from wrapping for large MMDs

The maximum merge delay in milliseconds overflows if the delay is very
large; the cutoff then exceeded the covered range of the log.
---
 go/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/types.go b/go/types.go
index 8475b85..f1aaefb 100644
--- a/go/types.go
+++ b/go/types.go
@@ -167,7 +167,8 @@ func (o *CTLogState) CoverageCutoff() uint64 {
 	// MMD is in seconds whereas timestamp is in milliseconds
 	msMMD := o.MMD * uint64(time.Second.Milliseconds())
 
-	if o.MaxTimestamp < msMMD {
+	// Compare in seconds, as msMMD overflows if MMD is very large.
+	if o.MaxTimestamp/uint64(time.Second.Milliseconds()) < o.MMD {
 		return 0
 	}
 
-- 
2.43.0


From 6fec32db0a1c18f8f929f87feafca6d07c5b8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 09/21] fix: report a failed flush of a revoked list

StoreRevokedCertificateList flushed its buffered writer in a deferred call
and dropped the error, so a full disk left a truncated list that was reported
as saved.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index f35e081..910df5a 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -473,7 +473,6 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 	defer fd.Close()
 
 	writer := bufio.NewWriter(fd)
-	defer writer.Flush()
 
 	for _, s := range serials {
 		select {
@@ -494,7 +493,7 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 			}
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func checkPathArg(strObj string, confOptionName string, ctconfig *config.CTConfig) {
-- 
2.43.0


From 04c2e3c0220fc18e21d32cae303f76829bd45d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 10/21] fix: report a failed write of the enrolled issuers list

SaveIssuersList logged the error of Encode and then overwrote it with that of
Close, so that a list that could not be written was reported as saved.
---
 go/rootprogram/issuers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 7383ca6..2927d0c 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -337,6 +337,8 @@ func (mi *MozIssuers) SaveIssuersList(filePath string) error {
 
 	if err := enc.Encode(issuers); err != nil {
 		glog.Errorf("Error marshaling enrolled issuer %s: %s", filePath, err)
+		fd.Close()
+		return err
 	}
 
 	if err = fd.Close(); err != nil {
-- 
2.43.0


From b9626600127cab6ea191a9690f17a56985fbc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 11/21] fix: exit with a failure status when aggregate-crls is
 interrupted

A signal during the downloads ended the program with status 0 and no output,
and one during the aggregation let it save the enrolled issuers next to an
incomplete set of revoked lists.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 910df5a..b94e134 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -559,10 +559,15 @@ func main() {
 	crlPaths, count := ae.downloadCRLs(ctx, mozIssuers)
 
 	if ctx.Err() != nil {
-		return
+		glog.Fatalf("Interrupted while downloading CRLs: %s", ctx.Err())
 	}
 
 	ae.aggregateCRLs(ctx, count, crlPaths)
+
+	if ctx.Err() != nil {
+		glog.Fatalf("Interrupted while aggregating CRLs: %s", ctx.Err())
+	}
+
 	if err := mozIssuers.SaveIssuersList(*enrolledpath); err != nil {
 		glog.Fatalf("Unable to save the crlite-informed intermediate issuers to %s: %s", *enrolledpath, err)
 	}
-- 
2.43.0


From 8d9d96cdd1f4ec4043a00d8322434d0aa7578bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 12/21] fix: start at least one worker when numThreads is not
 positive

With numThreads=0 aggregate-crls and aggregate-known started no workers, wrote
no lists and exited with status 0.
---
 go/config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/config/config.go b/go/config/config.go
index e279b7c..b0edd0a 100644
--- a/go/config/config.go
+++ b/go/config/config.go
@@ -177,6 +177,10 @@ func (c *CTConfig) Init() {
 	confString(c.RemoteSettingsURL, section, "remoteSettingsURL", "")
 	confString(c.CTLogMetadata, section, "ctLogMetadata", "")
 	confInt(c.NumThreads, section, "numThreads", 1)
+	if *c.NumThreads < 1 {
+		glog.Warningf("numThreads must be positive, using 1 instead of %d", *c.NumThreads)
+		*c.NumThreads = 1
+	}
 	confBool(c.LogExpiredEntries, section, "logExpiredEntries", false)
 	confBool(c.RunForever, section, "runForever", false)
 	confUint64(c.PollingDelay, section, "pollingDelay", 600)
-- 
2.43.0


From 4df92a1d1b7030732892b6c02006dd0857fb6627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 13/21] fix: treat a missing -knownpath as a missing argument

The default of -knownpath differed from the placeholder that checkPathArg
looks for, so aggregate-known ran without the argument and wrote its lists to
a directory called <dir>.
---
 go/cmd/aggregate-known/aggregate-known.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/cmd/aggregate-known/aggregate-known.go b/go/cmd/aggregate-known/aggregate-known.go
index 7823224..f8f4929 100644
--- a/go/cmd/aggregate-known/aggregate-known.go
+++ b/go/cmd/aggregate-known/aggregate-known.go
@@ -28,7 +28,7 @@ const (
 
 var (
 	enrolledpath = flag.String("enrolledpath", "<path>", "input enrolled issuers JSON")
-	knownpath    = flag.String("knownpath", "<dir>", "output directory for <issuer> files")
+	knownpath    = flag.String("knownpath", "<path>", "output directory for <issuer> files")
 	ctlogspath   = flag.String("ctlogspath", "<path>", "output file for ct-log JSON")
 	ctconfig     = config.NewCTConfig()
 )
-- 
2.43.0


From 19a977e87d6d4bb74f79f04d280375b27f535838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 14/21] fix: guard the DNS results of a download tracer with a
 mutex

The HTTP transport reports DNS results from its own goroutine, which can
outlive the request that it was started for.
---
 go/downloader/download-tracer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/downloader/download-tracer.go b/go/downloader/download-tracer.go
index ba3a4f6..5ede29f 100644
--- a/go/downloader/download-tracer.go
+++ b/go/downloader/download-tracer.go
@@ -3,11 +3,13 @@ package downloader
 import (
 	"context"
 	"net/http/httptrace"
+	"sync"
 
 	"github.com/golang/glog"
 )
 
 type DownloadTracer struct {
+	mutex   sync.Mutex // the transport reports DNS results from its own goroutines
 	DNSDone []httptrace.DNSDoneInfo
 }
 
@@ -19,6 +21,8 @@ func NewDownloadTracer() *DownloadTracer {
 
 func (da *DownloadTracer) dnsDone(ddi httptrace.DNSDoneInfo) {
 	glog.V(1).Infof("DNS result: %+v", ddi)
+	da.mutex.Lock()
+	defer da.mutex.Unlock()
 	da.DNSDone = append(da.DNSDone, ddi)
 }
 
@@ -31,6 +35,8 @@ func (da *DownloadTracer) Configure(ctx context.Context) context.Context {
 }
 
 func (da *DownloadTracer) DNSResults() []string {
+	da.mutex.Lock()
+	defer da.mutex.Unlock()
 	results := []string{}
 	for _, ddi := range da.DNSDone {
 		for _, addr := range ddi.Addrs {
@@ -41,6 +47,8 @@ func (da *DownloadTracer) DNSResults() []string {
 }
 
 func (da *DownloadTracer) Errors() []string {
+	da.mutex.Lock()
+	defer da.mutex.Unlock()
 	results := []string{}
 	for _, ddi := range da.DNSDone {
 		if ddi.Err != nil {
-- 
2.43.0


From 1c4b73182b7c107f73148a70bb7b3a3e24da51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 15/21] fix: hold the mutex wherever the issuer tables are read
 or extended

---
 go/rootprogram/issuers.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 2927d0c..0d3045b 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -227,6 +227,9 @@ func (mi *MozIssuers) LoadFromDisk(aPath string) error {
 }
 
 func (mi *MozIssuers) DatasetAge() time.Duration {
+	mi.mutex.Lock()
+	defer mi.mutex.Unlock()
+
 	if mi.modTime.IsZero() {
 		return 0
 	}
@@ -360,6 +363,8 @@ func (mi *MozIssuers) LoadEnrolledIssuers(filePath string) error {
 		return err
 	}
 
+	mi.mutex.Lock()
+	defer mi.mutex.Unlock()
 	for _, ei := range list {
 		cert, err := PEMToCertificate(ei.Pem)
 		if err != nil {
@@ -372,6 +377,9 @@ func (mi *MozIssuers) LoadEnrolledIssuers(filePath string) error {
 }
 
 func (mi *MozIssuers) IsIssuerInProgram(aIssuer types.Issuer) bool {
+	mi.mutex.Lock()
+	defer mi.mutex.Unlock()
+
 	_, ok := mi.issuerMap[aIssuer.ID()]
 	return ok
 }
@@ -452,6 +460,7 @@ func decodeCrls(fullCrlStr string, partCrlJson string) ([]string, bool, error) {
 	return crls, usesPartitionedCrls, nil
 }
 
+// InsertIssuer must be called with mi.mutex held if mi is shared.
 func (mi *MozIssuers) InsertIssuer(aCert *ctx509.Certificate, aCrls []string, aUsesPartitionedCrls bool) types.Issuer {
 	issuer := types.NewIssuer(aCert)
 	ic := issuerCert{
-- 
2.43.0


From eb0dc4c12b04d5a7fd1e754622008281fded33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 16/21] fix: hold the auditor's mutex while reading its entries

---
 go/cmd/aggregate-crls/crl-auditor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/cmd/aggregate-crls/crl-auditor.go b/go/cmd/aggregate-crls/crl-auditor.go
index d987777..075436e 100644
--- a/go/cmd/aggregate-crls/crl-auditor.go
+++ b/go/cmd/aggregate-crls/crl-auditor.go
@@ -71,6 +71,8 @@ func (auditor *CrlAuditor) getSubject(identifier downloader.DownloadIdentifier)
 }
 
 func (auditor *CrlAuditor) GetEntries() []CrlAuditEntry {
+	auditor.mutex.Lock()
+	defer auditor.mutex.Unlock()
 	return auditor.Entries
 }
 
-- 
2.43.0


From b995011fd474b564917bcdc0c5f399a0f118dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 17/21] fix: hold the mutex of the mock cache while Restore
 removes log states

---
 go/storage/mockcache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/go/storage/mockcache.go b/go/storage/mockcache.go
index bbbc42a..6dc0493 100644
--- a/go/storage/mockcache.go
+++ b/go/storage/mockcache.go
@@ -299,13 +299,12 @@ func (ec *MockRemoteCache) NextEpoch() error {
 func (ec *MockRemoteCache) Restore(aEpoch uint64, aLogStates []types.CTLogState) error {
 	ec.mu.Lock()
 	ec.Epoch = aEpoch
-	ec.mu.Unlock()
-
 	for key, _ := range ec.Data {
 		if strings.HasPrefix(key, "log::") {
 			delete(ec.Data, key)
 		}
 	}
+	ec.mu.Unlock()
 
 	for _, logState := range aLogStates {
 		err := ec.StoreLogState(&logState)
-- 
2.43.0


From 8d060deb577ee18b11e9a7696d02eab0ad7eda74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 18/21] fix: hold the mutex while a test issuer is added

---
 go/rootprogram/issuers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 0d3045b..54e16b8 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -498,6 +498,8 @@ func (mi *MozIssuers) NewTestIssuerFromSubjectString(aSub string) types.Issuer {
 	ic := issuerCert{
 		subjectDN: aSub,
 	}
+	mi.mutex.Lock()
+	defer mi.mutex.Unlock()
 	mi.issuerMap[issuer.ID()] = IssuerData{
 		certs: []issuerCert{ic},
 	}
-- 
2.43.0


From 6df60a48650c0b3abaa00ea0a247466fbbabd489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 19/21] fix: remove a new record when uploading its attachment
 raises anything

The requests library reports connection problems with exceptions that are
not KintoExceptions (and a missing file raises OSError), so a record whose
attachment was never uploaded stayed in the collection.
---
 moz_kinto_publisher/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 6dc3824..fe8faf3 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -483,7 +483,7 @@ class Intermediate:
 
         try:
             self._upload_pem(rw_client=rw_client)
-        except KintoException as ke:
+        except Exception as ke:
             log.error(
                 "Failed to upload attachment. Removing stale intermediate record {}.".format(
                     self.kinto_id
@@ -770,7 +770,7 @@ def publish_crlite_record(
             recordId=recordid,
             mimeType=channel.mimetype,
         )
-    except KintoException as ke:
+    except Exception as ke:
         log.error(
             f"Failed to upload attachment. Removing stale CRLite record {recordid}: {ke}"
         )
-- 
2.43.0


From bc0fa9c6d9e5660d55021673e06ddf852a52302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 20/21] fix: list a bin once when the cache scan returns its
 key repeatedly

Redis' SCAN may return a key more than once. The bin was then moved to
storage by two goroutines at once, and the storage file written last did not
have the serials that only the other had read and removed from the cache.
---
 go/storage/certdatabase.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index d84cb1b..3329623 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -117,7 +117,16 @@ func (db *CertDatabase) GetIssuerAndDatesFromChannel(reader <-chan string) ([]ty
 	// We gather these by issuer to obtain a list of the form
 	//    [(issuer 1, [date 1, date 2, ...]), (issuer 2, [...]), ...].
 	issuerMap := make(map[string]types.IssuerDate)
+	// Redis' scan methods regularly provide duplicates. A bin must not be
+	// listed twice, as two concurrent moves of one bin would overwrite each
+	// other's changes to its storage file.
+	seen := make(map[string]struct{})
 	for entry := range reader {
+		if _, dup := seen[entry]; dup {
+			continue
+		}
+		seen[entry] = struct{}{}
+
 		parts := strings.Split(entry, "::")
 		if len(parts) != 3 {
 			return []types.IssuerDate{}, fmt.Errorf("Unexpected key format: %s", entry)
-- 
2.43.0


From 20064920704daa9ed70220c15c05281c61c8cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 21/21] fix: wait for the outcome of a cache scan before using
 its result

The scan closes its channel on errors too, so the consumer could go on with
an incomplete list (and Commit could replace the coverage file) before the
goroutine running the scan reported the failure.
---
 go/storage/certdatabase.go | 27 ++++++++++++++++++---------
 go/storage/rediscache.go   | 11 +++++++----
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 3329623..202209a 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -163,14 +163,20 @@ func (db *CertDatabase) GetIssuerAndDatesFromCache() ([]types.IssuerDate, error)
 	// The cache stores sets of serial numbers in bins that are keyed by strings
 	// of the form "serials::<date>::<issuer id>".
 	allChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.KeysToChan("serials::*", allChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list from cache")
-		}
+		errChan <- db.cache.KeysToChan("serials::*", allChan)
 	}()
 
-	return db.GetIssuerAndDatesFromChannel(allChan)
+	issuerList, err := db.GetIssuerAndDatesFromChannel(allChan)
+	if err != nil {
+		return []types.IssuerDate{}, err
+	}
+	// allChan is closed on errors too, so the list may be incomplete.
+	if err := <-errChan; err != nil {
+		return []types.IssuerDate{}, fmt.Errorf("Couldn't list from cache: %w", err)
+	}
+	return issuerList, nil
 }
 
 func (db *CertDatabase) GetIssuerAndDatesFromStorage() ([]types.IssuerDate, error) {
@@ -680,16 +686,19 @@ func (db *CertDatabase) List(k *SerialCacheKey) map[string]struct{} {
 	uniqueEntries := make(map[string]struct{})
 
 	strChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.SetToChan(k.ID(), strChan)
-		if err != nil {
-			glog.Fatalf("Error obtaining list of known certificates: %v", err)
-		}
+		errChan <- db.cache.SetToChan(k.ID(), strChan)
 	}()
 
 	for str := range strChan {
 		uniqueEntries[str] = struct{}{}
 	}
 
+	// strChan is closed on errors too, so the list may be incomplete.
+	if err := <-errChan; err != nil {
+		glog.Fatalf("Error obtaining list of known certificates: %v", err)
+	}
+
 	return uniqueEntries
 }
diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index e2b1665..3c166fc 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -249,11 +249,9 @@ func (ec *RedisCache) LoadLogState(shortUrl string) (*types.CTLogState, error) {
 func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 	ctLogList := make([]types.CTLogState, 0)
 	keyChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := ec.KeysToChan("log::*", keyChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list CT logs from cache: %s", err)
-		}
+		errChan <- ec.KeysToChan("log::*", keyChan)
 	}()
 
 	for entry := range keyChan {
@@ -268,6 +266,11 @@ func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 		}
 	}
 
+	// keyChan is closed on errors too, so the list may be incomplete.
+	if err := <-errChan; err != nil {
+		return nil, fmt.Errorf("Couldn't list CT logs from cache: %w", err)
+	}
+
 	return ctLogList, nil
 }
 
-- 
2.43.0

