#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from anywhere; rewrites it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook}})

# ---------------------------------------------------------------- cacher
p("C01", "Files listed in an index are served only if they match its checksums",
  "Once go-apt-cacher has stored an APT index (Release, InRelease, Packages, Sources, Index, compressed or not), every successful answer for a path that index lists has exactly the listed size and every listed checksum; upstream data that does not match is neither served nor kept as valid. This holds whether the file was requested before, while or after the index was fetched, when the index later lists new values, and after a restart with the files found on disk.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "all repositories (any mix of checksum families), all orders of index and file downloads, all corruptions, truncations and substitutions by the upstream, restarts",
  "No unit test covers Cacher at all; FileInfo.Same is tested on a handful of values. The guarantee depends on the order in which downloads finish.",
  ["cacher/cacher.go", "apt/fileinfo.go", "apt/meta.go", "cacher/storage.go"],
  [("download validates against the listing and re-checks under the info lock", "cacher/cacher.go download"), ("Lookup compares stored and wanted FileInfo", "cacher/storage.go Lookup"), ("FileInfo.Same", "apt/fileinfo.go")],
  [("Cacher.info", "latest listed size/checksums per path", "cacher/cacher.go")],
  ["HTTP responses to clients vs. the origin's listing history"])
p("C02", "Every successful response is one complete upstream file",
  "The body of every 200 response of go-apt-cacher is, byte for byte, one complete body that the upstream server delivered for that very path. It is never a prefix, a mixture of two versions, or another path's content, even while the file is being downloaded, replaced by a newer version, evicted or requested by many clients at once.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of clients, downloads, replacements and evictions; truncated and reset upstream transfers",
  "Tests exercise Storage sequentially with one-byte files and never run the server.",
  ["cacher/cacher.go", "cacher/storage.go", "cacher/handler.go", "apt/fileinfo.go"],
  [("download to a temporary file, then hard-link into place under lock", "cacher/storage.go Insert"), ("open file returned to reader survives unlink", "cacher/storage.go Lookup")],
  [], ["HTTP responses vs. bodies recorded at the origin"])
p("C03", "One fetch at a time per path, and cached files need no upstream",
  "go-apt-cacher never has two upstream transfers of the same path in progress at once; all clients waiting for it are answered from that one transfer. A file that is cached and still valid is served without contacting the upstream, also when the upstream is down.",
  ["schedules", "histories"], "all numbers and timings of concurrent clients, all cache states",
  "Needs many concurrent clients and an instrumented upstream; the tests have neither.",
  ["cacher/cacher.go"],
  [("dlChannels single-flight map", "cacher/cacher.go Download"), ("info+Lookup before Download", "cacher/cacher.go Get")],
  [("Cacher.dlChannels", "downloads in progress", "cacher/cacher.go")], ["origin's per-path in-flight counter and request log"])
p("C04", "Failed fetches are answered with an error, remembered, then retried",
  "When the upstream answers with an error status, the client gets that status; when the transfer fails, is truncated or does not match the listed checksums, the client gets an error status instead of waiting forever. For the configured cache_period the failure is answered without contacting the upstream again, and after it a request contacts the upstream again and succeeds if the upstream has recovered; no request causes an unbounded series of upstream transfers.",
  ["fault_sequences", "histories", "inputs"],
  "all upstream statuses and failure kinds, any number of clients, recovery after any number of failures",
  "No test has an upstream server.",
  ["cacher/cacher.go", "cacher/handler.go"],
  [("results map with expiry", "cacher/cacher.go download"), ("Get retry loop", "cacher/cacher.go Get")],
  [("Cacher.results", "status of recent downloads", "cacher/cacher.go")], ["client statuses and origin hit counts"])
p("C05", "Upstream connections per host stay within max_conns",
  "go-apt-cacher never has more than max_conns upstream transfers in progress to one host, whichever prefixes map to it, and different hosts do not consume each other's allowance; every slot is given back after success, error status, aborted transfer or validation failure, so later downloads always proceed. With max_conns 0 there is no limit.",
  ["schedules", "configurations", "fault_sequences"],
  "all limits, numbers of prefixes per host, request bursts and failing transfers",
  "Concurrency limit and slot leaks only show under parallel and failing downloads.",
  ["cacher/cacher.go"], [("per-host semaphore", "cacher/cacher.go acquireSemaphore/releaseSemaphore")],
  [("Cacher.hostSem", "free slots per host", "cacher/cacher.go")], ["origin's in-flight gauge"])
p("C06", "The cache never exceeds its capacity and its books match the disk",
  "After every operation on a cache storage (insert, overwrite, delete, lookup, load) the total size of the cached files on disk is at most the capacity (unlimited when 0), and the set of items it lists is exactly the set of cached files on disk with the same sizes. Evicted, overwritten and deleted items leave no file behind, and unrelated files are never removed.",
  ["histories", "inputs", "configurations"],
  "all sequences of operations, item sizes and capacities, including reload of an existing directory into a smaller capacity",
  "Tests check three fixed short sequences.",
  ["cacher/storage.go"], [("maint loop", "cacher/storage.go maint"), ("used accounting in Insert/Delete/Load", "cacher/storage.go")],
  [("Storage.used/cache/lru", "accounting", "cacher/storage.go")], ["ListAll and the directory tree after every operation"])
p("C07", "Eviction is least-recently-used and no more than needed",
  "When an insert overflows the capacity of a cache storage, the evicted items are exactly the least recently used ones (use: insert or successful lookup), taken one by one until the rest fits. Failed lookups and lookups of other content do not refresh an item.",
  ["histories", "inputs"], "all operation sequences and size distributions",
  "One scenario with three items is tested; heap index bugs need longer histories.",
  ["cacher/storage.go"], [("container/heap keyed on a logical clock", "cacher/storage.go Less/Swap/Push/Pop, Lookup heap.Fix")],
  [("entry.atime/index", "LRU priority and heap position", "cacher/storage.go")], ["ListAll after each insert vs. an LRU model"])
p("C08", "Concurrent cache storage operations are linearizable",
  "Any concurrent mix of insert, lookup, delete and list on one cache storage behaves as if the operations ran one at a time in some order consistent with real time, with LRU eviction; a successful lookup returns a file with exactly the content that order gives, and never fails because another operation is in progress.",
  ["schedules", "histories"], "all interleavings of concurrent callers on few keys under eviction pressure",
  "The storage tests are single-threaded.",
  ["cacher/storage.go"], [("Storage.mu", "cacher/storage.go")], [], ["call/return history of the exported operations, checked against a sequential LRU model (porcupine)"])
p("C09", "The cache survives restarts and crashes",
  "After go-apt-cacher is stopped or killed at any instant and started again on the same directories, it starts, serves every file that was completely cached without fetching it again (when an index vouches for it), and never serves leftovers of interrupted downloads. Damaged or malformed files found on disk never prevent start-up and never reach a client as the content of a listed path.",
  ["crash_points", "histories", "inputs"],
  "kill at every file-system step of a download; arbitrary leftovers and on-disk corruption",
  "TestStorageLoad loads three intact files; no test crashes the process.",
  ["cacher/cacher.go", "cacher/storage.go"],
  [("Load", "cacher/storage.go Load"), ("rebuild of the checksum table from stored indices", "cacher/cacher.go NewCacher"), ("fsync before link", "cacher/cacher.go download")],
  [], ["responses and origin log after restart; directory contents"])
p("C10", "New upstream releases are picked up and indices stay coherent",
  "go-apt-cacher re-checks each cached Release/InRelease (and Release.gpg along with Release) at check_interval; after the upstream has published a new release and it has been picked up, every index and package it lists is served in the new version, and a client never sees a path go back to an older version. While the upstream is unreachable or the refresh fails, the old release keeps being served and checking continues.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of upstream publications, refreshes, outages and restarts, downloads that straddle a refresh",
  "Needs time, an upstream and concurrent downloads; untested.",
  ["cacher/cacher.go"], [("maintRelease ticker", "cacher/cacher.go"), ("info updated under fiLock", "cacher/cacher.go download")],
  [("Cacher.info", "listing per path", "cacher/cacher.go")], ["client-observed versions vs. publication history"])
p("C11", "Requests are routed to exactly the mapped upstream URL",
  "A request for /prefix/rest is fetched from the URL mapped to that prefix with rest appended, for every legal file name (special characters included) and never from another upstream; surplus slashes and dot segments do not change that. Unregistered prefixes and unsupported index compressions are answered 404, methods other than GET and HEAD 501, without contacting any upstream.",
  ["inputs", "configurations"], "all request paths, encodings, methods and mappings",
  "URLMap has a few fixed cases; the handler has no test.",
  ["cacher/urlmap.go", "cacher/handler.go", "cacher/cacher.go", "apt/meta.go"],
  [("URLMap.URL / Register", "cacher/urlmap.go"), ("path cleaning", "cacher/handler.go ServeHTTP"), ("IsSupported", "apt/meta.go")],
  [], ["request lines received by each origin; client statuses"])
p("C12", "The cacher stays inside its directories and prefixes do not interfere",
  "Whatever paths clients request and whatever paths upstream indices list, go-apt-cacher creates, changes and removes files only inside meta_dir and cache_dir and serves only files it cached there itself. An index obtained through one prefix never affects what is accepted or served for paths under another prefix, and inserting an item whose path would leave the storage directory is refused.",
  ["inputs"], "all request paths (.., encoded, absolute, NUL, overlong) and all index entries",
  "Tests try four bad paths against Insert only.",
  ["cacher/handler.go", "cacher/cacher.go", "cacher/storage.go", "apt/fileinfo.go"],
  [("bad path check", "cacher/storage.go Insert"), ("path cleaning", "cacher/handler.go"), ("prefixing of listed paths", "cacher/cacher.go addPrefix")],
  [], ["file tree around the storage directories; responses"])
p("C13", "No request and no upstream answer brings the cacher down",
  "Whatever bytes clients send and whatever the upstream answers (malformed, truncated or hostile indices, odd statuses, file names that cannot be stored), the go-apt-cacher process keeps running, answers that request with some HTTP response, and keeps serving all other requests correctly.",
  ["inputs", "fault_sequences"], "all request targets and all upstream responses",
  "Tests never run the server; a single panic in a download goroutine ends the whole process.",
  ["cacher/handler.go", "cacher/cacher.go", "cacher/storage.go", "apt/meta.go", "apt/parser.go"],
  [("error handling in ServeHTTP/download", "cacher/handler.go, cacher/cacher.go")], [], ["process liveness and a canary request after every hostile input"])
p("C14", "HEAD, range and conditional reads agree with the full file",
  "For every cached path a HEAD request returns the same status and Content-Length as GET and no body, also when it is the request that triggers the download; range requests return exactly the requested bytes of one version of the file with a correct Content-Range, and a failed request never returns a success status.",
  ["inputs"], "all file sizes including empty, all ranges, cached and uncached paths",
  "The handler has no test.", ["cacher/handler.go"],
  [("ServeContent for GET, explicit headers for HEAD", "cacher/handler.go")], [], ["HTTP responses compared with the known content"])
p("C15", "The cacher has no data races or deadlocks",
  "No two goroutines of go-apt-cacher access the same memory without synchronisation, and no combination of concurrent requests, downloads, refreshes, evictions and failures makes a request wait forever once the upstream has answered everything.",
  ["schedules"], "all interleavings of client requests, downloads, periodic refreshes, result expiry and storage operations",
  "The race detector only sees the sequential unit tests.",
  ["cacher/cacher.go", "cacher/storage.go"], [("fiLock, dlLock, hostLock, Storage.mu", "cacher/")], [],
  ["Go race detector on the server binary and on direct API stress; quiescence watchdog"])
p("C16", "The cacher shuts down cleanly on SIGTERM",
  "On SIGTERM go-apt-cacher terminates by itself: transfers to clients already under way are completed or visibly aborted (never a short body that looks complete), requests that still arrive are answered with an error instead of blocking the shutdown, and the cache it leaves on disk is valid.",
  ["schedules", "histories"], "SIGTERM at any time relative to requests and downloads",
  "No test starts or stops the server.",
  ["cacher/server.go", "cacher/cacher.go", "cmd/go-apt-cacher/main.go"], [("well environment cancellation", "cacher/cacher.go, cacher/server.go")], [],
  ["process exit, client responses, on-disk state"])

# ---------------------------------------------------------------- mirror
p("M01", "Clients always see one complete published version of a mirror",
  "From the first successful update on, the mirror path always exists and resolves to a complete tree that equals one single consistent version of the configured part of the upstream repository; the switch to a new version is atomic. Before the first successful update nothing is published. This holds at every instant of an update and if go-apt-mirror is killed at any instant.",
  ["crash_points", "schedules", "histories"],
  "all instants of an update as seen by a concurrent reader, kill at every file-system step, sequences of updates",
  "TestMirror is skipped; nothing observes the tree during an update or after a crash.",
  ["mirror/mirror.go", "mirror/control.go", "mirror/storage.go"],
  [("build in a fresh directory, symlink + rename", "mirror/mirror.go replaceLink"), ("publish only after all downloads and Save", "mirror/mirror.go Update")],
  [], ["the published symlink and tree, sampled concurrently and at every crash point"])
p("M02", "Everything is durable before it is published",
  "Before the mirror path is switched to a new version, the data of every newly downloaded file, the saved metadata and every directory of the new tree have been flushed to disk, and the new symlink's directory entry is flushed before and after the switch.",
  ["crash_points", "histories"], "all updates: first, incremental, by-hash, flat, several suites and mirrors",
  "Durability ordering is invisible to unit tests; it shows only in the order of system calls.",
  ["mirror/mirror.go", "mirror/storage.go", "mirror/dirsync.go"],
  [("tempfile.Sync", "mirror/mirror.go download"), ("DirSyncTree in Save", "mirror/storage.go"), ("DirSync around rename", "mirror/mirror.go replaceLink")],
  [], ["the process's system calls (strace)"])
p("M03", "A failed update changes nothing that is published",
  "If any required download fails, does not match its checksum, or the update is interrupted, go-apt-mirror exits with a failure status, what was published before stays byte-for-byte available at the mirror path, and nothing is published for a mirror that had none. A later run against a healthy upstream succeeds.",
  ["fault_sequences", "histories"], "all failure kinds (status, reset, truncation, corruption, malformed index, missing file, signal) at all stages and files",
  "No test runs an update against a failing upstream.",
  ["mirror/mirror.go", "mirror/control.go"], [("error propagation to Update", "mirror/mirror.go"), ("gc keeps directories referenced by symlinks", "mirror/control.go gc")],
  [], ["exit status and published tree after each injected fault"])
p("M04", "Every published file matches its index entry",
  "Every file published by go-apt-mirror that is listed in a published index has the listed size and all the listed checksums, whether it was downloaded, retried, fetched by hash or taken over from the previous version; a file that cannot be obtained with matching content makes the update fail instead.",
  ["inputs", "fault_sequences", "histories"], "all repositories, checksum family subsets, upstream corruptions of any file at any attempt",
  "Only single FileInfo comparisons are tested.",
  ["mirror/mirror.go", "mirror/storage.go", "apt/fileinfo.go"], [("fi.Same check in download", "mirror/mirror.go download"), ("Lookup.Same for reuse", "mirror/storage.go Lookup")],
  [], ["published tree re-hashed against its own indices"])
p("M05", "The mirror contains exactly the configured part of the repository",
  "After a successful update the published tree contains every package and source file listed in the configured suites, sections and architectures (\"all\" included, sources only when enabled, everything in flat repositories), all Release files and indices available upstream, and no package that only other sections, architectures or sources list. This holds for every supported compression and layout.",
  ["inputs", "configurations"], "all combinations of suites, sections, architectures, source flag, flat layout, compressions, missing index variants",
  "MatchingIndex is tested on a dozen strings; no test mirrors anything.",
  ["mirror/mirror.go", "mirror/config.go", "apt/meta.go", "apt/parser.go"], [("MatchingIndex", "mirror/config.go"), ("extractItems", "mirror/mirror.go"), ("ReleaseFiles", "mirror/config.go")],
  [], ["published file set vs. the generated repository"])
p("M06", "Unchanged files are reused, not transferred again",
  "In an update after a successful one, a file whose listed size and checksums equal those of the already mirrored file at that path is hard-linked from the previous version and not requested from the upstream; changed and new files are requested. The result is the same tree as a mirror made from scratch.",
  ["histories", "inputs"], "all sequences of upstream versions, with and without by-hash, after failed and interrupted runs",
  "Needs two runs against an upstream.",
  ["mirror/mirror.go", "mirror/storage.go", "apt/fileinfo.go"], [("current.Lookup + storeLink", "mirror/mirror.go reuseOrDownload"), ("info.json Save/Load", "mirror/storage.go")],
  [("info.json", "checksums of the mirrored files", "mirror/storage.go")], ["origin request log of the second run; inode numbers"])
p("M07", "By-hash retrieval is served and used",
  "For a suite whose Release declares Acquire-By-Hash: yes, every mirrored index is also available under by-hash/MD5Sum, SHA1 and SHA256 next to it with the right name and content and normal permissions, all versions that inconsistent Release/InRelease files list are kept, and an index whose plain upstream path has stale content is obtained through its by-hash path. Without that declaration no by-hash paths are used and inconsistent listings make the update fail.",
  ["inputs", "fault_sequences"], "all combinations of by-hash declarations, checksum families, stale plain paths, equal-content indices, reuse",
  "StoreLinkWithHash has no end-to-end test.",
  ["mirror/mirror.go", "mirror/storage.go", "apt/meta.go", "apt/fileinfo.go"], [("StoreLinkWithHash", "mirror/storage.go"), ("target fallback in download", "mirror/mirror.go"), ("SupportByHash", "apt/meta.go")],
  [], ["published by-hash files; origin request log"])
p("M08", "Garbage collection removes all that is stale and nothing that is used",
  "After a run of go-apt-mirror, the mirror directory contains the lock file, the mirror symlinks and the directories they resolve into, and no superseded, failed or temporary data; the data of any published mirror, including mirrors not updated in this run, and of links the operator made into them is never removed, and nothing outside the mirror directory is touched.",
  ["histories", "crash_points", "configurations"], "all sequences of full, partial, failing and killed runs over several mirrors",
  "gc has no test.",
  ["mirror/control.go"], [("gc", "mirror/control.go")], [], ["directory contents after each run"])
p("M09", "Only one updater works on a mirror directory at a time",
  "While one go-apt-mirror process is updating a mirror directory, any other process started on the same directory exits with a failure without contacting the upstream or changing anything there. The lock vanishes with its holder, however it ends, so a later run proceeds.",
  ["schedules", "crash_points"], "all start times relative to a running instance, first run on an empty directory, killed holders",
  "TestFlock only tests the flock wrapper with a fixed sleep.",
  ["mirror/control.go", "mirror/flock.go"], [("flock on .lock", "mirror/control.go Run, mirror/flock.go"), ("lock file exempt from gc", "mirror/control.go gc")], [],
  ["origin log and directory contents with overlapping processes"])
p("M10", "Mirror downloads respect max_conns and always make progress",
  "While updating a mirror, go-apt-mirror never has more than max_conns transfers for it in progress, for every positive limit, also while retrying or falling back to by-hash; with 0 there is no limit. Every slot is given back, so an update with any limit finishes once the upstream has answered.",
  ["configurations", "schedules", "fault_sequences"], "all limits including 0 and 1, all mixes of failing and slow transfers",
  "No test downloads anything.",
  ["mirror/mirror.go"], [("semaphore", "mirror/mirror.go NewMirror/download")], [("Mirror.semaphore", "free slots", "mirror/mirror.go")],
  ["origin's in-flight gauge; termination"])
p("M11", "Upstream data cannot make the mirror write outside its own tree",
  "Whatever file names an upstream's Release, Packages or Sources files contain (.., absolute, odd characters), go-apt-mirror creates, links, modifies and removes files only below its mirror directory, and nothing of one mirror is written into another mirror or into control files; an update with such names fails or stores the file inside its own tree.",
  ["inputs"], "all path strings in all index kinds", "No test feeds hostile paths.",
  ["mirror/storage.go", "mirror/mirror.go", "apt/meta.go"], [("path join in StoreLink/StoreLinkWithHash", "mirror/storage.go")], [],
  ["the file tree around the mirror directory"])
p("M12", "Transient upstream failures are retried within bounds",
  "A download that is answered by a server error, refused, reset or cut short is tried again, so an update survives transient failures of any file and still publishes correct content; permanent failure is given up after a bounded number of attempts and reported. Client-error answers are not retried: a missing Release variant or index is skipped, a missing package fails the update.",
  ["fault_sequences"], "all sequences of transient faults over all files", "No test has a failing upstream.",
  ["mirror/mirror.go"], [("RETRY loop with httpRetries", "mirror/mirror.go download"), ("allowMissing", "mirror/mirror.go handleResult")], [],
  ["origin request log per path and the outcome"])
p("M13", "The mirror has no data races or deadlocks",
  "No two goroutines of go-apt-mirror access the same memory without synchronisation during updates of several mirrors and suites with reuse, by-hash, retries and failures, and every run terminates once the upstream has answered everything.",
  ["schedules"], "all interleavings of download, reuse and receive goroutines of concurrent mirrors",
  "The race detector never sees an update in the tests.",
  ["mirror/mirror.go", "mirror/storage.go", "mirror/control.go"], [("Storage.mu, channels", "mirror/")], [],
  ["Go race detector on the binary and on direct API stress; quiescence watchdog"])
p("M14", "After a crash at any point the next run repairs everything",
  "If go-apt-mirror is killed at any instant, the next run on the same directory succeeds without manual clean-up, publishes the current upstream version, and leaves no remains of the killed run.",
  ["crash_points"], "kill at every file-system step of first and incremental updates and of garbage collection",
  "No test crashes the process.",
  ["mirror/mirror.go", "mirror/control.go"], [("stale .tmp link removal", "mirror/mirror.go replaceLink"), ("gc", "mirror/control.go"), ("O_EXCL lock creation only if missing", "mirror/control.go Run")], [],
  ["exit status, published tree and directory contents after kill + rerun"])
p("M15", "Mirrors are independent and only the requested ones are updated",
  "Naming mirrors on the command line updates exactly those and leaves the others' published trees, links and reusability untouched; without arguments all configured mirrors are updated. Mirrors with different upstreams never receive each other's files, and an unknown or invalid mirror name or configuration is rejected without changing anything published.",
  ["configurations", "histories"], "all subsets of mirrors over sequences of runs",
  "No test runs more than one mirror.",
  ["mirror/control.go", "mirror/mirror.go", "mirror/config.go"], [("Run/updateMirrors", "mirror/control.go"), ("NewMirror checks", "mirror/mirror.go")], [],
  ["origin logs per mirror and published trees"])
p("M16", "Published trees are readable and usable by a web server",
  "Every file in a published mirror is a regular file with mode 0644 and every directory has mode 0755 (as permitted by the umask), by-hash files included, whatever way the file got there, and the tree contains no temporary or control files.",
  ["histories", "configurations"], "all ways a file can enter a tree: download, retry, reuse, by-hash",
  "Modes are not tested (1.3.2 fixed such a bug).",
  ["mirror/mirror.go", "mirror/storage.go"], [("Chmod 0644", "mirror/mirror.go download"), ("temporary files outside the prefix directory", "mirror/storage.go TempFile")], [],
  ["modes and names in the published tree"])

# ---------------------------------------------------------------- apt
p("A01", "The control-file parser returns exactly the paragraphs of its input",
  "For every well-formed control file the parser returns all paragraphs in order with all fields and values: continuation lines, comments, empty values, any number of separating blank lines, CRLF, lines up to the documented limit, and clear-signed wrapping whose headers and signature are ignored. Malformed input yields an error, never a silently shortened result.",
  ["inputs"], "all control files within the format", "Tests parse three sample files.",
  ["apt/parser.go"], [("Parser.Read", "apt/parser.go")], [], ["Parser.Read results vs. an independent reference parser"])
p("A02", "Index extraction yields every listed file with its exact size and checksums",
  "For every well-formed Release, InRelease, Index, Packages and Sources file, plain or in any supported compression, the extracted list contains every listed file exactly once with the listed path (relative to the repository root), size and all listed checksums, and nothing else. A malformed or damaged file yields an error instead of a shortened list.",
  ["inputs"], "all index contents, checksum family subsets, compressions, truncations", "Tests read five sample files.",
  ["apt/meta.go", "apt/parser.go"], [("getFilesFromRelease/Packages/Sources", "apt/meta.go"), ("decompression", "apt/meta.go ExtractFileInfo")], [],
  ["ExtractFileInfo results vs. the generating model"])
p("A03", "Arbitrary bytes never crash or hang index handling",
  "For every byte string and path, classifying a path, parsing, decompressing and extracting an index terminate with a result or an error, never panic, and give the same answer every time.",
  ["inputs"], "all byte strings and paths", "Tests use well-formed inputs only.",
  ["apt/meta.go", "apt/parser.go"], [("error returns", "apt/")], [], ["process survival and result determinism under mutated inputs"])
p("A04", "File information compares, serialises and names files faithfully",
  "Matching a wanted file against an actual one succeeds exactly when path and size are equal and every checksum the wanted one specifies is equal; JSON serialisation and prefixing preserve path, size and each checksum, present or absent; by-hash paths are the directory plus the right hash name. Nothing mutates its arguments.",
  ["inputs"], "all file infos with any subset of checksums", "Tests compare a few infos that carry all three checksums.",
  ["apt/fileinfo.go"], [("Same, MarshalJSON, UnmarshalJSON, AddPrefix, *Path", "apt/fileinfo.go")], [], ["results vs. independently computed values"])
p("A05", "Copying computes the checksums of exactly the bytes delivered",
  "Copying a stream with checksum calculation writes exactly the source bytes to the destination and returns their true size and MD5, SHA1 and SHA256 for any chunking; if reading or writing fails at any point, it returns an error and no file information.",
  ["inputs", "fault_sequences"], "all contents, chunkings, short writes and failure positions", "One 11-byte string is tested.",
  ["apt/fileinfo.go"], [("MultiWriter + io.Copy", "apt/fileinfo.go CopyWithFileInfo")], [], ["destination bytes and returned info vs. independent hashing"])
p("A06", "Index files are recognised consistently",
  "A path is treated as an index exactly when its base name is one of the index names, optionally followed by one known compression suffix, whatever its directory; it counts as supported exactly when it can really be decompressed by index extraction, and everything recognised as an index and supported is accepted by extraction.",
  ["inputs"], "all paths", "Tests check about ten names.",
  ["apt/meta.go"], [("IsMeta, IsSupported, ExtractFileInfo", "apt/meta.go")], [], ["classification vs. a table-driven model over a name grammar"])
p("G01", "Bad configurations are rejected, documented ones are honoured",
  "Every configuration the documentation rules out (relative, missing or identical directories, non-positive capacity or interval, illegal prefixes, unsupported URL schemes, unknown keys, mixed or incomplete mirror definitions) makes the commands fail with an error before any repository data is fetched, and every documented setting and default, with or without trailing slashes in URLs, takes effect as documented.",
  ["configurations"], "all configuration files over the documented keys", "Two sample files are decoded in tests.",
  ["cacher/config.go", "cacher/cacher.go", "cacher/urlmap.go", "mirror/config.go", "cmd/go-apt-cacher/main.go", "cmd/go-apt-mirror/main.go"],
  [("NewCacher checks", "cacher/cacher.go"), ("MirrConfig.Check, tomlURL", "mirror/config.go")], [], ["exit status, listening socket, origin log"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
