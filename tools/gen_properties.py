#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CD="go/storage/certdatabase.go"; TY="go/types.go"; ST="go/storage/types.go"; RC="go/storage/rediscache.go"; MC="go/storage/mockcache.go"
CF="go/cmd/ct-fetch/ct-fetch.go"; RF="go/cmd/ct-fetch/rfc6962.go"; TI="go/cmd/ct-fetch/tiled.go"
AC="go/cmd/aggregate-crls/aggregate-crls.go"; AU="go/cmd/aggregate-crls/crl-auditor.go"; AK="go/cmd/aggregate-known/aggregate-known.go"; CM="go/cmd/commit/commit.go"
DL="go/downloader/downloader.go"; VD="go/downloader/verifying-downloader.go"; IS="go/rootprogram/issuers.go"; CO="go/config/config.go"; EN="go/engine/engine.go"
PK="moz_kinto_publisher/main.py"

p("C01","Cached serials are removed only once they are durably in storage",
 "During a commit an entry is removed from the cache only after the storage file of its issuer/expiry bin has been written completely (every write and flush succeeded) and has atomically replaced the old file, and that file contains the serial of every entry removed. If writing, flushing or replacing the file fails, nothing of that bin is removed from the cache and the commit reports an error.",
 ["fault_sequences","crash_points","inputs"],"every failing write/flush/rename and every crash point while a bin is moved, for every cache content",
 "The existing tests move serials on a healthy file system only; no test makes a write, flush or rename fail, and no test looks at the order of replace and remove.",
 [CD],[("write to temporary file, atomically replace, then remove from the cache",CD+" moveOneBinOfCachedSerialsToStorage"),("buffered serial list writer",CD+" WriteSerialList")],
 [("cache set serials::<date>::<issuer>","serials seen in CT logs and not yet committed","cache"),("storage file serials::<date>::<issuer>","known serials of one bin","storage directory")],["storage file content","cache set content"])
p("C02","Rewriting a storage bin never loses serials it already held",
 "When a commit rewrites the storage file of a bin, the new content includes every serial the file held before as well as all newly covered serials of that bin. If the old content cannot be read in full, or its expiry line does not match the bin, the file is left untouched and the commit reports an error.",
 ["fault_sequences","inputs","histories"],"every history of commits and every failure while the previous file is opened, scanned or checked",
 "Tests commit a handful of serials and never inject a read error or a damaged file.",
 [CD],[("read stored serials, append covered serials, deduplicate, write",CD+" moveOneBinOfCachedSerialsToStorage"),("expiry line check and scanner error check",CD+" ReadSerialsFromStorage")])
p("C03","Published coverage never claims more than storage contains",
 "The coverage file is replaced only with the log states that were read from the cache before any cached serial of that commit was read, and those same states decide which cached serials count as covered. It is replaced only after the moves of all bins have finished and every one of them succeeded; otherwise the previous coverage file stays in place and the commit reports an error.",
 ["schedules","fault_sequences","crash_points","histories"],"every interleaving of a commit with concurrent ingestion, every crash point and every subset of failing bins",
 "Tests run a commit alone, in one schedule, with all bins succeeding.",
 [CD],[("log states loaded and encoded to a temporary file before the move, replaced after it",CD+" Commit"),("per-bin errors collected over a channel after all movers finished",CD+" moveCachedSerialsToStorage")],
 [("ct-logs.json","coverage metadata in storage","storage directory")])
p("C04","A commit moves exactly the covered entries and leaves the rest cached",
 "A commit writes to storage, and removes from the cache, only entries that are covered: old-format entries without a timestamp, and entries whose log appears in the coverage metadata and whose timestamp is not later than that log's cutoff. An entry of an unknown log or one later than the cutoff stays in the cache and is not written, while every covered, well-formed entry is written.",
 ["inputs","histories"],"every cache content, log set and timestamp",
 "Tests use a few timestamps around one cutoff; the statement is about all entries of all logs.",
 [CD,ST],[("coverage test on each cached entry",ST+" IsCovered"),("filter loop",CD+" moveOneBinOfCachedSerialsToStorage")])
p("C05","A commit changes nothing without write access, the lock and matching epochs",
 "A commit modifies neither the cache nor storage unless storage was opened writable, the caller's token currently holds the commit lock, and the cache epoch is exactly one ahead of the storage epoch (or both are zero). Being unable to determine any of these is a refusal too.",
 ["configurations","histories","fault_sequences"],"every lock state, epoch pair, storage mode and failing lookup",
 "The single commit test covers one lock and epoch combination; failing lookups are never exercised.",
 [CD],[("guards at the start of the commit",CD+" Commit")])
p("C06","Epochs advance in an order that any crash leaves detectable",
 "A commit publishes a new storage epoch only after the bins, then the coverage file, are in place and the cache epoch has been incremented successfully. The published value is the cache epoch from before the increment, written completely (flush included) to a temporary file that atomically replaces the old one; otherwise the stored epoch is unchanged.",
 ["crash_points","fault_sequences"],"every crash point and every failing step between the coverage update and the end of a commit",
 "No test stops a commit between two steps or makes an epoch write fail.",
 [CD],[("epoch temp file, increment, replace",CD+" Commit"),("epoch reader",CD+" getStorageEpoch")])
p("C07","Only expired bins are ever deleted from storage",
 "A commit deletes a serial file from storage only if the expiry date in its name parses and has passed at the time of the commit, and deletes a directory only if it is empty. No other code path of any program deletes or truncates files of the serial storage.",
 ["inputs","histories"],"every directory content and every point in time",
 "The test deletes one day worth of bins; malformed names and every other writer are not covered.",
 [CD],[("expiry check before removal",CD+" removeExpiredSerialsFromStorage")])
p("C08","Resetting the cache is atomic with respect to commits and complete",
 "Resetting the cache happens entirely while the commit lock is held, removes every log state in the cache, stores every given state, and sets the epoch only after all of that succeeded. Any failure is reported, leaves the epoch as it was, and the lock is released on every exit.",
 ["schedules","fault_sequences","crash_points"],"every interleaving with a commit and every failing cache command",
 "The test restores once on a healthy Redis.",
 [RC],[("lock, delete, store, set epoch",RC+" Restore")])
p("C09","Ingestion only starts on a cache consistent with storage, and is read-only",
 "The ingesting program starts no downloader and no database thread before it has established that the cache epoch matches storage, or has reset the cache to the log states read from storage with an epoch one above the stored one; if that fails it exits with a failure status. It opens storage read-only and never commits.",
 ["histories","configurations","crash_points"],"every pair of cache and storage epochs and every start-up failure",
 "The program entry point has no test; the consistency routine is tested for three epoch pairs.",
 [CD,CF,EN],[("consistency check at start-up",CF+" main"),("epoch comparison and reset",CD+" EnsureCacheIsConsistent")])
p("C10","The commit lock is exclusive, expires, and is released by its holder only",
 "Acquiring the commit lock reports success only if an atomic set-if-absent of a fresh random token with a finite expiry succeeded, and releasing it deletes the lock only after finding that it still carries the caller's token. A token is recognised as holding the lock only if it equals the stored one, and every program that acquires the lock commits with that token and releases it on every normal or error exit.",
 ["schedules","fault_sequences"],"every interleaving of lock users and every failing cache command",
 "Tests take and release the lock sequentially in one process; the programs that use it have no tests.",
 [RC,AK,CM],[("SETNX with expiry",RC+" AcquireCommitLock"),("token comparison",RC+" HasCommitLock, ReleaseCommitLock"),("deferred release",AK+" work; "+CM+" work")])
p("C11","A log's progress is saved only after all its earlier entries are stored",
 "A log state received by the database thread is saved only after every certificate received before it has been stored in the cache successfully. If storing or saving fails, the batch is kept and the same batch and state are retried until both succeed or the program shuts down, and nothing received is dropped or reordered before a saved state.",
 ["fault_sequences","schedules","crash_points"],"every sequence of failing cache operations, batch boundary and shutdown point",
 "The ingesting program has no tests at all.",
 [CF],[("store, then save",CF+" tryUpdate"),("retry loop; queue reset only on success; single consumer",CF+" insertCTWorker, StartDatabaseThread")])
p("C12","Coverage of a classic log grows only by verified, contiguous ranges",
 "The saved range of a classic (RFC 6962) log is extended only by a range of entries all of which were downloaded, handed to the database thread and hashed to the value given by the log's consistency proof. The range must be adjacent to the range already covered (or start the first range), and an entry that fails to parse, store or verify keeps its range from being covered.",
 ["inputs","fault_sequences","histories"],"every log response, job type and failure while a range is downloaded",
 "The log workers have no tests; they need a live log.",
 [RF],[("verify claim before updating the state",RF+" Run"),("contiguity checks",RF+" updateState"),("only stored entries are hashed",RF+" downloadCTRangeToChannel")])
p("C13","Coverage of a tiled log never passes an entry that was not processed",
 "The highest covered index and the timestamps recorded for a tiled log advance only to an entry that, like all entries before it in that run, has been handed to the database thread or legitimately skipped. A network error or a fatal error on an entry stops the run before that entry, and a fatal error is reported.",
 ["inputs","fault_sequences","histories"],"every sequence of entries, network failures and parse failures",
 "The log workers have no tests; they need a live log.",
 [TI],[("advance after a successful store only",TI+" Run (readLogEntries)"),("fatal and transient result codes",TI+" storeLogEntry, GetCertificate")])
p("C14","A tree head's timestamp counts as coverage only when fully caught up",
 "The timestamp of a log's signed tree head is recorded as the newest covered timestamp only while the worker is idle and the highest covered entry is the last entry of that very tree head. In every other case only timestamps of entries that were actually processed are recorded.",
 ["inputs","histories"],"every tree size, covered range and job type",
 "The log workers have no tests.",
 [RF,TI],[("equality guard before using the tree head timestamp",RF+" Run; "+TI+" Run")])
p("C15","Every log entry is stored under its true issuer or legitimately skipped",
 "A log entry is skipped only if its certificate is expired (and expired entries are not configured to be kept) or it has no issuer in its chain; an entry whose certificate or issuer cannot be obtained is an error, never counted as processed. Otherwise its certificate, timestamp and log are handed over together with the first chain certificate, or the second one when the first is a precertificate signing certificate, and classic and tiled logs agree on this.",
 ["inputs","configurations"],"every entry type, chain shape and parse result in both kinds of logs",
 "No test runs the entry handling of either worker.",
 [RF,TI],[("entry handling of the two workers",RF+" storeLogEntry; "+TI+" storeLogEntry")])
p("C16","Shutdown loses no queued entries and never sends on a closed channel",
 "The ingesting program finishes only after every downloader it started has returned and the database thread has handled every queued message. The message channel is closed exactly once, and only when no downloader is running or can still be started; every started worker is accounted for before the code that waits for it can run.",
 ["schedules"],"every interleaving of enrolment, downloaders, the database thread and shutdown",
 "There is no test of the engine; such interleavings need the scheduler's cooperation.",
 [CF],[("wait groups",CF+" SyncLog, insertCTWorker, Wait, StartDatabaseThread, main")])
p("C17","Cancellation interrupts blocked log workers and is never taken for success",
 "Every hand-over of an entry or state to the database thread and every pause or back-off of a log worker ends when the program is cancelled. An entry or state that was not handed over because of cancellation is reported as an error, and the state handed over is a copy that later updates cannot change.",
 ["schedules","fault_sequences"],"every point at which cancellation can arrive",
 "No test cancels a log worker.",
 [RF,TI,CF],[("select with the context's done channel",RF+" updateState, storeLogEntry, sleep; "+TI+" idem"),("copy of the state",RF+" updateState; "+TI+" updateState")])
p("C18","Shared mutable state is accessed only under its lock",
 "Data shared between goroutines (audit entries, issuer tables, the set of enrolled logs, the time of the last update, the DNS results of a download, and the in-memory cache) is read and written only while the lock that belongs to it is held. Every lock that is taken is released on every exit, no code path acquires a lock it already holds, and locks are never nested in opposite orders.",
 ["schedules"],"every interleaving of the goroutines of each program",
 "A race shows only in particular interleavings, and the tests are mostly sequential.",
 [AU,IS,CF,MC],[("mutex per structure",AU+" CrlAuditor; "+IS+" MozIssuers; "+CF+" EnrolledLogs, LogSyncEngine; "+MC+" MockRemoteCache")])
p("C19","Revocations come only from CRLs whose signature was verified",
 "Revoked serials are taken only from a CRL that was parsed from bytes whose signature was checked, in the same run, against the certificate of the issuer the serials are attributed to. A CRL that cannot be read, parsed or verified contributes nothing.",
 ["inputs","fault_sequences"],"every CRL file and issuer",
 "Tests check the loader on two files; nothing ties the check to what is aggregated.",
 [AC],[("load and check signature",AC+" loadAndCheckSignatureOfCRL"),("aggregation",AC+" aggregateCRLWorker")])
p("C20","A downloaded CRL replaces the local copy only after it was verified",
 "A download goes to a temporary file that is moved over the local copy only if the download succeeded and verification accepted that temporary file; the temporary file is gone on every exit. The local copy is reported usable only if it was just put in place that way or has itself passed verification in this call, and every failed download or verification of downloaded data is reported to the auditor.",
 ["fault_sequences","inputs"],"every combination of failing download, verification, rename and existing file",
 "Tests cover four of the combinations and never a failing rename or cancellation.",
 [VD,AC],[("temporary file, verify, rename, fall back",VD+" DownloadAndVerifyFileSync"),("caller",AC+" crlFetchWorkerProcessOne")])
p("C21","An issuer's revoked list is published only if all its CRLs were usable",
 "The revoked list of an issuer is written only if every one of its CRLs was fetched (or locally available), verified and decoded, and it then contains the revocations of all of them. If any CRL of the issuer failed, no list is written for that issuer.",
 ["inputs","fault_sequences"],"every subset of failing CRLs and position of the failure",
 "The aggregation worker has no test.",
 [AC],[("failure flag per issuer",AC+" aggregateCRLWorker"),("empty path for failed fetches",AC+" crlFetchWorker")])
p("C22","Every CRL problem leaves an audit entry",
 "Each CRL that fails verification, fails decoding, lists the wrong distribution point, is too old or has no revocations gets an audit entry of that kind naming its issuer and URL, and each CRL that contributes gets a success entry. No CRL is both excluded and unaudited, and each audit call appends exactly one entry and removes none.",
 ["inputs","fault_sequences"],"every CRL and every outcome",
 "Tests call the audit methods one by one; nothing ties outcomes to calls.",
 [AC,AU,VD],[("audit calls on each outcome",AC+" aggregateCRLWorker, crlFetchWorkerProcessOne; "+VD),("append under lock",AU)])
p("C23","A malformed revocation entry fails its CRL instead of being dropped",
 "If a CRL or any of its entries cannot be decoded, or an entry has a repeated, undecodable or out-of-range reason code, processing of the whole CRL fails. Otherwise every entry of the CRL appears in the result with its own serial number and reason code.",
 ["inputs"],"every CRL content",
 "Tests decode single crafted entries; the statement is about all entries of all CRLs and the propagation of the errors.",
 [AC,TY],[("entry decoding",TY+" Reason, SerialAndReason, DecodeRawTBSCertList"),("CRL processing",AC+" processCRL")])
p("C24","A failed write of an output file is never reported as success",
 "Whenever a program finishes or continues as if an output (revoked list, known list, enrolled issuers, coverage copy, serial storage file) were complete, every write, encode and buffer flush of that file succeeded. A failure of any of them is reported to the caller or ends the program with a failure status.",
 ["fault_sequences"],"every failing write, including those that only show when a buffer is flushed",
 "Tests write to healthy file systems only.",
 [CD,AC,AK,IS],[("buffered writers and their flushes",CD+" WriteSerialList; "+AC+" StoreRevokedCertificateList; "+AK+" run"),("JSON encoders",IS+" SaveIssuersList; "+AK+" work")])
p("C25","Known lists hold the unexpired serials of enrolled issuers after a commit",
 "The known lists and the coverage copy are produced only after a successful commit, from storage, while the commit lock is still held. They cover every issuer of storage that is enrolled and no other, include every bin that has not expired, and a worker that fails or is interrupted makes the program exit with a failure status.",
 ["histories","fault_sequences","schedules"],"every storage content, failing worker and signal",
 "The program has no tests.",
 [AK],[("commit before reading; lock released at the end",AK+" work"),("workers cancel the program on error",AK+" run")])
p("C26","Only unrevoked intermediates that chain to a trusted root are enrolled",
 "An issuer is enrolled from the CA dataset only if its certificate is an intermediate that the dataset does not list as revoked and that verifies for TLS server authentication to an unrevoked root of that dataset. Only its http and https CRL addresses are used, and a dataset that cannot be read or lacks a required column is rejected with an error.",
 ["inputs"],"every dataset",
 "Tests load a handful of fixed datasets.",
 [IS],[("row filter, chain building",IS+" LoadFromDisk"),("URL filter",IS+" decodeCrls")])
p("C27","A program that did not complete its output exits with a failure status",
 "Each command-line program that produces output (revoked lists, enrolled issuers, known lists, coverage copy, committed storage, issuer list) exits with a nonzero status if it is interrupted by a signal before the output is complete, is missing a mandatory argument, or fails at any step needed for the output. A zero status therefore means that all of its mandatory outputs were produced in that run; the audit report is advisory. ct-fetch, which signals stop in normal operation, exits with a nonzero status if it could not make the cache consistent or cannot parse its list of logs.",
 ["fault_sequences","configurations"],"every failing step, missing argument and signal time",
 "The entry points have no tests.",
 [AC,AK,CM,CF,"go/cmd/get-mozilla-issuers/get-mozilla-issuers.go"],[("error returns to main",AK+" work, main; "+CM+" work, main; "+AC+" main")])
p("C28","Renaming a log's stored state never loses it",
 "When a log state is found under the old key only, it is stored under the new key before the old one is deleted, and the old one is kept if it cannot be decoded or stored. When both exist the state under the new key is left as it is.",
 ["crash_points","fault_sequences","histories"],"every combination of old and new state and every failing cache command",
 "No test covers migration failures.",
 [RC],[("store, then delete",RC+" Migrate")])
p("C29","Caching a batch of certificates stores every one or reports an error",
 "A batch is reported as stored only if an insertion was issued for every item of the batch and the cache accepted all of them, each set also being given the expiry of its items. Each item is filed under the expiry date of its certificate and the identity of its issuer, and carries the timestamp and log it was seen in and the certificate's serial number.",
 ["inputs","fault_sequences"],"every batch and every failing cache command",
 "Tests insert small batches on a healthy cache.",
 [RC,CD,ST],[("pipelined insertion",RC+" SetInsertMany"),("key and value construction",CD+" PrepareSetMember; "+ST+" NewMember")])
p("C30","Writers and readers of cache entries and bin names agree on the layout",
 "The byte positions at which timestamp, log identifier and serial number are written into a cache entry are those from which they are read back, and an entry shorter than that header is treated as a bare serial by every reader. The names given to cache bins and storage files are accepted by the code that lists them, which takes the date and the issuer from the positions where they were written.",
 ["inputs"],"every timestamp, log identifier, serial, date and issuer",
 "Tests round-trip a few entries.",
 [ST,CD],[("encoder and decoders",ST+" NewMember, AsSerial, IsCovered"),("names",ST+" NewSerialCacheKey; "+CD+" serialFile, GetIssuerAndDatesFromChannel")])
p("C31","The coverage cutoff of a log never wraps or exceeds its verified range",
 "The cutoff of a log is its newest covered timestamp less its maximum merge delay (in milliseconds), and zero if that would be negative. A log whose identifier is malformed provides no cutoff, and the lower and upper ends of a log's timestamps only ever move outwards.",
 ["inputs"],"every log state",
 "Tests compute no cutoff near the boundary.",
 [TY,RF,TI],[("saturating subtraction",TY+" CoverageCutoff"),("map construction",TY+" NewCoverageCutoffMap"),("min/max update",RF+" updateState; "+TI+" updateState")])
p("C32","Every option has storage, a value, and the documented precedence",
 "Every configuration option that any program reads has been allocated and is initialised before use. For each option an environment variable wins over the configuration file, which wins over the default, and malformed values fall back instead of aborting; an option that was given on the command line wins over all of these.",
 ["configurations"],"every combination of environment, file and defaults for every option",
 "Tests cover one option of each type.",
 [CO],[("per-type readers",CO+" confInt, confUint64, confBool, confString"),("allocation and initialisation",CO+" NewCTConfig, Init")])
p("C33","A download is reported complete only if the full response was stored",
 "Unless cancelled, a download is reported successful only if the server's copy is unchanged from the local file, or the server answered with a success status and its whole body was written to the file without error. Content is appended to an existing file only for a partial-content answer, any other success answer replaces the file, and a failing attempt is repeated at most the given number of times and its error then reported.",
 ["fault_sequences","inputs"],"every server answer and failing read or write",
 "Tests use a handful of server behaviours and no write failures.",
 [DL],[("status handling and copy",DL+" download"),("retry loop",DL+" DownloadFileSync")])
p("C34","A publisher dry run changes nothing on the server",
 "When the publisher, the sign-off tool or one of the workflow's transfer scripts runs in no-operation mode it never creates, updates, deletes or attaches to a record, never requests a review, approval or signature on the server, and never uploads to cloud storage. This holds for every command and every collection.",
 ["configurations","inputs"],"every command line, and every state of server and storage",
 "The publisher tests use a mocked client and few commands.",
 [PK,"moz_kinto_publisher/crlite-signoff-tool.py","workflow"],[("no-op flag",PK+" and its callers"),("sign-off","moz_kinto_publisher/crlite-signoff-tool.py")])
p("C35","A published filter record never lacks its attachment",
 "If uploading the attachment of a newly created record fails, the record is deleted again and the failure is raised to the caller. No code path leaves a record behind whose attachment upload raised.",
 ["fault_sequences"],"every failing upload",
 "Upload failures are not tested.",
 [PK],[("attach, delete on failure",PK+" publish_crlite_record, PublisherClient.attach_file")])
p("C36","Consistency proofs and Merkle hashes are computed correctly",
 "For every tree size and range, the leaves assigned to the terms of a consistency proof and the hash computed over them equal what RFC 6962 specifies.",
 ["inputs"],"all proofs, ranges and leaves","Depends on arithmetic over unbounded inputs; there is no test of it today.",
 [RF],[("proof annotation and hash stack",RF+" consistencyProofToSubtrees, Consume, CheckClaim")])
p("C37","The published filter answers exactly for all known and revoked certificates",
 "Every known certificate is reported revoked by the generated filter if and only if its serial is in its issuer's revoked list.",
 ["inputs"],"all sets of known and revoked serials","Depends on data-structure contents at run time.",
 ["rust-create-cascade/src/main.rs","rust-create-cascade/src/clubcard_helper.rs"],[("filter construction and self-check","rust-create-cascade/src/clubcard_helper.rs")])
p("C38","Removing duplicates keeps exactly one of each serial",
 "After merging, a bin's serial list contains every distinct serial of the input exactly once and in ascending order.",
 ["inputs"],"all lists of serials","Value equality over all inputs; tests use a few lists.",
 [TY],[("sort and compact",TY+" Dedup")])
p("C39","A run is marked completed only after all its files were uploaded",
 "The upload script places a run's completion marker in cloud storage only after every file that the publisher can fetch of that run (the certificate and issuer lists and every channel's filter directory) was uploaded on the same path without an exception being swallowed.",
 ["fault_sequences","inputs"],"every failing upload, every order of operations and every content of the run's directory",
 "The workflow scripts have no tests.",
 ["workflow/3-upload_mlbf_to_storage","workflow/workflow.py",PK],[("uploads and marker","workflow/3-upload_mlbf_to_storage main"),("readiness test",PK+" is_run_ready")])
p("C40","A channel is published as one full filter plus a chain of deltas",
 "The publisher creates filter records only for runs known to be completed. A delta's parent is the record published just before it, or for the first one the newest existing record of the channel. A full filter is published only after all the channel's existing full filters and deltas were removed, and they are removed only after the replacing filter was downloaded; what is attached is what was downloaded. Once creating, attaching or removing a record has failed, nothing more is published and no review is requested.",
 ["inputs","fault_sequences","histories"],"every content of the collection and of the runs, and every failing request or download",
 "The publisher's tests do not cover the crlite publishing path; the mocked client never fails.",
 [PK],[("channel update",PK+" publish_crlite, publish_crlite_main_filter, publish_crlite_delta"),("parents and clearing",PK+" clear_crlite_filters, clear_crlite_deltas, publish_crlite_record")])
p("C41","Intermediates are put up for review only after verification",
 "The publisher requests a review of the intermediates collection only when, after the last change that it made, it has read the collection again and found its certificates to be exactly the local ones: every local intermediate is present, and no record is present that is not a local intermediate.",
 ["inputs","fault_sequences"],"every local list, every prior content of the collection, and every failing or ignored request",
 "The tests do not run the publisher against a server whose content differs from what was sent.",
 [PK],[("re-reading and comparison",PK+" publish_intermediates"),("reading the collection",PK+" load_remote_intermediates")])
p("C42","Cache operations act on exactly what they were given and report failures",
 "The single operations on the Redis cache (testing for, counting, listing, scanning, inserting and removing set members, setting an expiry, storing and loading log states, reading and incrementing the epoch) act on exactly the key and values they were given, give the answer of the backend, and report success only if the backend did. A removal covers the whole list it was given, a scan delivers every element to its reader and always ends the stream, and whoever reads a scan learns that it failed before using what was read.",
 ["inputs","fault_sequences","schedules"],"every key, value and list length, every failing command and every interleaving of a failing scan with its reader",
 "The tests run against a mock cache, which never fails and has none of this code; the tests of the Redis cache need a server and use short lists.",
 ["go/storage/rediscache.go","go/storage/certdatabase.go"],[("operations","go/storage/rediscache.go"),("readers of scans","go/storage/certdatabase.go GetIssuerAndDatesFromCache, List")])
p("C43","A list file holds one issuer's list of this run and nothing else",
 "Every list that a program writes out replaces what an earlier run left under the same name: the file is emptied or newly created, never appended to or overwritten in part. The revoked list of an issuer goes to a file that carries the whole identifier of that issuer, so that no two issuers share one, and each of its lines is the reason code as exactly two hexadecimal digits, then the serial in hexadecimal, then a line break, for every reason code, as the filter generator reads it.",
 ["inputs","histories"],"every list, reason code, issuer and content left over from an earlier run",
 "The tests write each file once, into an empty directory, and look at a few reason codes.",
 ["go/cmd/aggregate-crls/aggregate-crls.go","go/cmd/aggregate-known/aggregate-known.go","go/rootprogram/issuers.go"],[("revoked lists","go/cmd/aggregate-crls/aggregate-crls.go StoreRevokedCertificateList"),("known lists and coverage copy","go/cmd/aggregate-known/aggregate-known.go"),("enrolled issuers","go/rootprogram/issuers.go SaveIssuersList")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
