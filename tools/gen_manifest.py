#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PS="path-sensitive interprocedural dataflow/typestate analysis over Go SSA"
PYT="path-sensitive interprocedural abstract interpretation of the Python syntax trees"
CLAIMED={
 "C01":(PS,"Order of write, flush, replace and cache removal on every path of the functions that move a bin; file system semantics of renameio are trusted."),
 "C02":(PS,"Contents of the written serial list are tracked as sources (stored list, covered entries); that Dedup keeps every element is C38 (not applicable)."),
 "C03":(PS,"Join of the mover goroutines is judged from WaitGroup and channel operations on each path."),
 "C04":(PS,"Provenance of each element written and removed; map contents are abstracted to their iteration variable."),
 "C05":(PS,"Facts established before the first mutation on every path of Commit."),
 "C06":(PS,"Order of replace, increment and publication on every path of Commit, with the content of the epoch file tracked to its source."),
 "C07":(PS+"; call-graph lint over every destructive file operation","Facts about the removed path on every path; destructive calls elsewhere are judged by a backward slice of their path argument."),
 "C08":(PS,"Lock, delete, store and epoch order on every path of Restore; Redis command semantics are trusted."),
 "C09":(PS,"Every path of ct-fetch's main up to each start of an ingesting goroutine; that a function ingests is read off the call graph."),
 "C10":(PS,"Facts about the set-if-absent result and the stored token at every change of the lock key; use of the token in every program that commits. Atomicity of check and delete against an expiring lock is outside the statement."),
 "C11":(PS,"Every path of the receiving goroutine, with the received message, the pending list and each attempt's error tracked; that there is one such goroutine is read off the call graph."),
 "C12":(PS,"Every path of the worker and of the verifier with its integer fields reduced to classes; the hash arithmetic and the annotation of proofs (C36) are trusted."),
 "C13":(PS,"Every path of the tiled log worker with indices and timestamps reduced to classes (processed entry, recorded, tree head); the client library is trusted to yield entries in order."),
 "C14":(PS,"Provenance class of every recorded timestamp on every path, with the facts known where a tree head's timestamp is recorded."),
 "C15":(PS,"Provenance of every part of each handed-over message; parsing of the certificate itself is trusted."),
 "C16":("typestate of wait groups and of the message channel over every path of main and of each goroutine body","Wait groups are identified by the struct field or variable that holds them."),
 "C17":("select-shape lint over the functions reachable from the worker goroutines; path-sensitive dataflow for refused hand-overs and for ownership of handed-over states","Contexts are traced backwards to the program's cancellable context."),
 "C18":(PS,"Locks are told apart by the structure that they belong to, not by its instance. The writes of goroutines are found by a flow-insensitive effect analysis that does not look behind caches of the gcache library or into values that were received from channels. What a method returns after it has released the lock (a list of audit entries, an issuer's certificate) may be used without it."),
 "C19":(PS,"Every path of the aggregation of an issuer, with reads, parses, signature checks and certificate lookups tied to the decoded bytes; x509 parsing and signature verification are trusted."),
 "C20":(PS,"Every path of the verified download, of the verifiers and of the fetching worker; what the download itself stores is C33."),
 "C21":(PS,"Every path of the enumeration, fetching and aggregation of an issuer's CRLs; loops are unrolled once and then widened."),
 "C22":(PS,"Every path of the audit methods, the download, the fetch and the aggregation; the age limit itself is not judged."),
 "C23":(PS,"Every path of the entry and list decoders and of the function that collects the entries; asn1.Unmarshal is trusted to report malformed data."),
 "C24":(PS,'Every path of every function that creates an output file or calls one that does; errors from closing a file are not required. The audit report is advisory and the epoch file is C06.'),
 "C25":(PS,"The commit lock's exclusivity is C08/C10; bins that appear after the listing are not in scope; that the two forms of an issuer's identifier agree is C30."),
 "C26":(PS,"The chain building itself is that of zcrypto's Verify and the CSV parser is trusted; the fingerprint under which a row's certificate and CRLs are filed is assumed free of collisions; two rows of one certificate with different revocation statuses are not related to each other."),
 "C27":(PS,"Every path of each program's main to an exit with status 0. That at least one worker is started rests on C32 (numThreads is at least 1)."),
 "C28":(PS,"Facts about both lookups at every store and deletion in Migrate."),
 "C29":(PS,"Obligations per item of the batch; provenance of every part of the built entry."),
 "C31":(PS,"Facts about products and quotients at every entry of a cutoff map, and about the previous value at every assignment to a timestamp."),
 "C32":(PS,"Every option read by any program, and every path of the per-type readers; the precedence is judged on the value stored."),
 "C33":(PS,"Every path of DownloadFileSync and what it calls; write errors reported by io.Copy count, an error from closing the file does not."),
 "C30":("byte-layout and name-template extraction from Go SSA, compared between writers and readers","Offsets must be constants in the code; formats of dates and issuer names are trusted not to contain the separator."),
 "C34":(PYT,"Every path of the three programs with the no-op flag true; operations of the Kinto client, requests and cloud storage are recognised by name and receiver. What third-party modules do internally is trusted."),
 "C35":(PYT,"Every path of the publisher on which an attachment request fails, raises or is answered with another status; a failing clean-up request is reported but cannot be repaired."),
 "C39":(PYT,"Every path of the upload script; that a directory listing names every file of the directory is trusted, and uploads count when they return normally."),
 "C40":(PYT,"Every path of the publisher, loops to a fixpoint. Which records belong to a channel is judged by the code's own comparison; the order of runs is that of their identifiers."),
 "C41":(PYT,"Every path of the publisher, loops to a fixpoint; that the server serves what it answered when the collection was read is trusted."),
 "C42":(PS,"Every path of each cache operation; the pieces of a list by linear arithmetic over the loop variables (a form it does not understand is not reported); the Redis client library is trusted to report failures."),
 "C43":("flag constants at every opening of a file, and "+PS,"Text built in a way that the rule does not understand is not reported; that identifiers of different issuers differ is trusted; downloads are C33, known lists' content and file names C25."),
}
NA={
 "C36":"Merkle proof and root arithmetic is a numerical property of tlog/merkle algorithms over all tree sizes; no dataflow or typestate rule decides it, and the arithmetic lives in dependencies. Only the use of the verification results is decided (C12, C13).",
 "C37":"Exactness of the generated filter is a numerical/probabilistic property of the clubcard construction in Rust; the crate cannot be built here (dependencies are not in the offline cache), and no static rule bounds the values.",
 "C38":"That Dedup keeps exactly one of each serial is a functional property of sorting and comparing values; deciding it needs reasoning about all element orders, not a flow of facts.",
}
TODO="No check has been built for it yet."
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
m={"version":1,"setup_cmd":"tools/build.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in CLAIMED:
        t,n=CLAIMED[i]
        m["checks"].append({"property":i,"quick_cmd":"tools/run.sh "+i,"thorough_cmd":"tools/run.sh "+i+" thorough",
            "evidence_file":"evidence/%s.json"%i,"technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,TODO)})
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
