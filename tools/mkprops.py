#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Run after editing; the jsonl is what is committed and read.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
SVC="internal/service/service.go"; ST="internal/store/store.go"; SC="internal/store/scan.go"; SH="internal/shards/shards.go"
DF="internal/dataframe/dataframe.go"; TR="internal/translate/translate.go"; SQ="internal/seq/seq.go"; TF="internal/transform/transform.go"
VW="internal/view/view.go"; BT="internal/batch/batch.go"; DT="internal/data/"; MAIN="cmd/rq/main.go"
OBS=["OTLP Export RPC responses (metrics, logs, traces)","ScanSamples RPC responses"]
p("C01","Every acknowledged export becomes queryable exactly once",
 "Once the running server has acknowledged an OTLP metrics, logs or traces export, that export is returned by every matching scan from at most two flush intervals after the acknowledgement onwards, complete and exactly once, for as long as the server runs without storage faults. This holds however many exporters, flushes and scans run concurrently and however they interleave. No scan ever returns data that nobody exported.",
 ["schedules","histories","inputs"],"all interleavings of concurrent exporters, the periodic flush and scanners; all sequences of exports over any number of flush rounds and hours",
 "The tests call SaveSamples once on one goroutine with hand-numbered samples; no test exports through the service, flushes twice into the same hour, or runs an export while a flush swaps the buffer.",
 [SVC,ST,DF,SH,BT,"internal/samples/samples.go"],
 [("export buffer guarded by a mutex and swapped by the flusher",SVC),("append to the per-view table and its sample sets in one transaction",DF),("per-shard label bitmaps in one index transaction",SH)],
 [("pending samples","acknowledged, not yet flushed",SVC),("row number == sample id","addressing of stored samples",DF)],OBS)
p("C02","Flushed data survives every crash and restart",
 "Data that a scan has returned, or whose flush has completed, is returned again by matching scans after any number of process crashes and restarts at arbitrary points, identical and exactly once. Reopening the database directory after a crash or a clean stop always succeeds, and the reopened server answers scans over old data immediately, before it receives anything new. Operating-system page cache contents survive the crash.",
 ["crash_points","histories","schedules"],"every point at which the process can die, any number of crash/restart and stop/start cycles, any history of exports before, between and after them",
 "No test reopens a store: every test builds one in a fresh temporary directory and never closes and reopens it, so the restart path and index files left by a dead process are never read.",
 [SH,DF,TR,SQ,ST,MAIN],
 [("index databases found again on disk",SH),("badger write-ahead log and memtable replay","badger"),("rbf write-ahead log","rbf"),("id leases never reused",SQ)],
 [("index databases by shard","label bitmaps on disk",SH),("tables and sample sets by view","sample contents",DF)],OBS)
p("C03","A crash during a flush leaves each export whole or absent",
 "If the process dies or an error occurs at any point while pending exports are written, then afterwards each of them is, for each query, either returned complete and unaltered or not returned at all; nothing is duplicated, truncated, returned for a query it does not match or attributed to another export. Data stored before the interrupted flush is unaffected. The restarted server accepts, stores and returns new exports correctly, including into the very hours the interrupted flush was writing.",
 ["crash_points","fault_sequences","histories"],"every crash point and write error inside a flush touching any set of hours, label shards and signals; any number of interrupted flushes",
 "No test interrupts a flush; a flush is many separate transactions (one per time unit in the key-value store, one per shard in the index) and tests only see all of them succeed.",
 [ST,DF,SH,TR,BT],
 [("sample contents are written before the index that points at them",ST),("sample sets checked before a row is read",DF),("all-or-nothing index transaction",SH)],
 [("tables by view","per-hour/day/month/year copies",DF),("label bitmaps","index",SH)],OBS)
p("C04","A clean shutdown loses no acknowledged export",
 "Every export acknowledged before the server is asked to stop (interrupt) is returned by matching scans after the next start, exactly once, even if the stop arrives before the next periodic flush or in the middle of one. An export that was not acknowledged is stored whole or not at all. The stopping server terminates within a bounded time.",
 ["schedules","histories"],"every moment of the stop request relative to exports, to the periodic flush and to each other, over any number of stop/start cycles",
 "No test starts or stops the service; the shutdown order in the server's main function is not exercised at all.",
 [MAIN,SVC,ST,SH],
 [("orderly close: stop listening, flush, close index, release leases, close database",MAIN)],
 [("pending samples","lost if not flushed on close",SVC)],OBS,"in-memory listener and simulated process around the server's main function")
p("C05","A filtered scan returns exactly the exports that match all its filters",
 "Within the scanned time window, a scan of metrics, logs or traces returns precisely the stored exports of that signal each of whose filters matches something in the export: resource or scope schema, scope name or version, metric or span name, trace, span or parent span id, log severity, and string-valued resource, scope or data point/log/span attributes. A scan without filters returns all stored exports of that signal and none of the others. The answer is the same at whatever point in the life of the database the labels were first seen: before or after restarts, crashes, id-lease changes, and however many labels there are.",
 ["inputs","histories","crash_points","schedules"],"all filter conjunctions over all label kinds, all stores reachable by exports, flushes, restarts and crashes, dictionaries of any size",
 "Tests scan twice, with one resource attribute filter and with none, over one metrics fixture: no logs, no traces, no conjunction, no mix of signals, no second index shard, no reopened store.",
 [SC,SH,TF,"internal/transform/metrics.go","internal/transform/logs.go","internal/transform/trace.go","internal/labels/labels.go",TR,BT],
 [("labels collected per export",TF),("label dictionary",TR),("conjunction of label columns over shards",SH)],
 [("label columns","one bit per export and label",SH)],OBS)
p("C06","A time-ranged scan covers its window",
 "A scan with a time range [start, end) returns every matching stored export whose earliest timestamp lies in the range, once each, whatever the lengths and alignments of range and data: ranges inside one hour, across hour, day, month, year and leap-day boundaries, and of any length. It returns no export whose earliest timestamp lies outside the range widened to whole units: hours for ranges under a day, days under 30 days, months under 360 days, otherwise years. Without a time range the window is the 15 minutes before the evaluation time (the scan's own or the server's clock) minus the offset, independent of the server's time zone.",
 ["inputs","histories","configurations"],"all windows, offsets and evaluation times; all distributions of exports over time, including clients with skewed clocks and a server clock that jumps; all local time zones",
 "Tests scan a single hour that contains all the data; they run in UTC only.",
 [VW,SC,DF,SH,BT,"internal/batch/time.go","internal/x/time.go"],
 [("unit views by time",BT),("choice of unit and enumeration of units",VW)],
 [("views","one per hour, day, month, year",BT)],OBS)
p("C07","An instant scan returns the newest matching export",
 "A scan without a time range returns exactly one export: the most recently accepted of the matching exports stored in the window, or empty data if there is none. Exports accepted later always rank as newer, across concurrent exporters, flushes, restarts and crashes; equivalently the identifiers that order exports are never reused and never go backwards over the life of a database directory. Two exports accepted concurrently may rank either way.",
 ["schedules","histories","crash_points"],"all interleavings of exporters and scans, all restart/crash histories and lease exhaustions",
 "One test asks for the last of several samples whose ids the test itself assigned in one batch; ids from the sequence, restarts and concurrent exports are never involved.",
 [SC,SQ,SVC,SH],
 [("persistent id sequence with leases",SQ),("highest matching id wins",SC)],
 [("id lease","upper bound of handed out ids",SQ)],OBS)
p("C08","Stored telemetry comes back unaltered and merging conserves it",
 "Every data point, log record and span a scan returns equals, field for field, one that was exported, under the resource, scope and metric (name, description, unit, kind, temporality, monotonicity) it was exported with. When a scan merges several exports, the result contains exactly the data points, records and spans of those exports, none lost, duplicated, altered or moved to another resource, scope or metric, also when resources, scopes or metric names coincide, differ only in one field, or change kind between exports. This holds regardless of which other exports share the hour, of their order, of concurrent scans, and of restarts.",
 ["inputs","histories","schedules"],"all sets of exports of every signal and metric kind (gauge, sum, histogram, exponential histogram, summary, exemplars, links, events, nested values), all orders and groupings into flushes",
 "Tests merge one fixture of metrics with identical shape; nothing covers two kinds under one name, near-identical scopes, logs or traces, or exports split over several flushes.",
 [DT+"metrics.go",DT+"logs.go",DT+"trace.go",DT+"sort.go",DF],
 [("columnar encoding of OTLP messages",DF),("merge by resource, scope and metric identity",DT)],
 [("pooled encoders and mergers","shared mutable state between calls",DF)],OBS)
p("C09","A storage read error yields an error, never a wrong answer",
 "If reading stored data fails while a scan is evaluated, the scan either returns an error or the complete correct answer; it never returns partial, empty, mixed or stale data as a success. The server keeps serving: later scans, once reads work again, return complete answers, and exports and flushes go on. A scan that finds nothing successfully returns empty data of the requested signal, not a missing result.",
 ["fault_sequences","histories","schedules"],"every position of one or more read errors during any scan over any stored history, concurrently with other scans, exports and flushes",
 "No test injects an error; error returns of the read path are never executed.",
 [SC,SH,DF,TR],
 [("errors propagated from index, dictionary and table reads",SC)],
 [],OBS,"failing reads in the key-value store and the index database")
p("C10","Exports acknowledged during transient write errors are stored once errors stop",
 "When writes to storage fail (errors, full disk) at any points for a while and then work again, every export acknowledged before, during or after that period is returned by matching scans within three flush intervals after the last error, complete and exactly once, provided the process keeps running. While errors last, scans never return wrong data. The server process does not exit because of a failing flush.",
 ["fault_sequences","schedules","histories"],"every sequence of write failures over the transactions of any number of flush rounds, with exports and scans going on concurrently",
 "No test injects an error; what happens to a batch whose write fails is not exercised.",
 [SVC,ST,DF,SH,TR],
 [("failed batch kept for the next flush; re-applying a batch has no further effect",SVC)],
 [("pending samples","must survive a failed flush",SVC)],OBS,"failing writes in the key-value store and the index database")
p("C11","The label dictionary is a stable one-to-one mapping",
 "Each label text is translated to one number and each number handed out denotes one label text, forever: under concurrent translation of the same and different labels, across restarts, crashes, id-lease exhaustion and storage errors, and for any label bytes and any number of labels. Looking a label up finds the same number that was assigned and never changes the dictionary; labels of a stored export can be listed back exactly. A failed translation may leave a number unused, never give it to two labels.",
 ["schedules","crash_points","fault_sequences","inputs"],"all interleavings of translators and lookups, all crash/restart points, all label sets including more labels than one lease holds",
 "Tests translate a few keys on one goroutine in one session.",
 [TR,ST,"internal/labels/labels.go"],
 [("transactional get-or-create with forward and reverse entries",TR),("leased sequence",TR),("in-process cache of translations",ST)],
 [("forward and reverse entries","label to number, number to label",TR),("id lease","next unused number",TR)],["label translation and lookup API","ScanSamples filters","label listing of a sample"])
p("C12","No well-formed request can crash, wedge or corrupt the server",
 "Any OTLP export that decodes and any scan request, however unusual (empty or missing resources, scopes, values, points and timestamps; extreme timestamps, ids, ranges and lengths; labels of any size; unknown scopes and filter kinds) gets a response, and the server process keeps running and serving everyone else. Such requests do not prevent or alter the storing and returning of other exports, including those flushed together with them. The periodic flush never stops because of what it is given to store.",
 ["inputs","schedules","histories"],"all decodable exports and scans, in any mix with ordinary ones and at any point of the flush cycle",
 "Tests use one fixture of well-behaved metrics; nothing explores degenerate messages, and an unusual export is flushed long after its sender got its response, together with other clients' data.",
 [TF,ST,SC,"internal/labels/labels.go",DF,DT,SVC],
 [("no unchecked assumptions about optional parts of messages",TF),("bounded storage keys","internal/labels/labels.go")],
 [],OBS+["process exit, panics","progress of the flush"])
p("C13","Concurrent scans are isolated, atomic and monotonic",
 "A scan's answer equals the answer it would give running alone at some moment between its start and its end: each export is in it whole or not at all, and scans, flushes and exports running at the same time never mix, overwrite or truncate each other's results or filters. Once a completed scan has returned an export, every matching scan started later returns it too. A result, once returned, does not change afterwards.",
 ["schedules","histories"],"all interleavings of any number of scans with each other, with exports and with flush steps",
 "The tests never run two operations at the same time; the code reuses pooled buffers, bitmaps, labels, encoders and mergers between requests, and errors there need overlapping requests.",
 [SC,SH,DF,DT,"internal/bitmaps/bitmaps.go","internal/labels/labels.go",TR],
 [("pooled objects owned by one request at a time","internal/bitmaps/bitmaps.go"),("read transactions over a fixed snapshot",SH)],
 [("object pools","reused between requests","several packages")],OBS)
p("C14","The server always makes progress and always stops",
 "After faults stop, every export, scan and flush completes within a bounded number of steps: no interleaving, error, cancelled request or failed flush leaves a lock held, a transaction open, or the periodic flush stopped, and a stop request leads to a complete, error-free termination. Storage resources are bounded by what is stored: errors and repeated scans do not leak index transactions, so that index databases remain closable and their logs can be checkpointed. A flush interval that overruns delays later flushes but loses none.",
 ["schedules","fault_sequences","histories"],"all interleavings and fault sequences after which faults cease, including cancellation of requests at any point and slow storage",
 "Tests perform a handful of successful operations and never stop the service, never fail an operation and never cancel one.",
 [SVC,SH,ST,MAIN,DF],
 [("ticker-driven flush loop",SVC),("transactions rolled back on all paths",SH)],
 [("open index transactions","hold back checkpoints",SH),("locks","buffer and shard map",SVC)],OBS+["termination of the server's main function"],"lock and transaction accounting in the simulator")
p("C15","A script query returns exactly the points its filters and window select",
 "The scan a query script performs (through the client library, over exports stored by the server) returns exactly, of the exports the server's scan selects (see the properties of filters and time windows), the data points, log records and spans that lie in the requested time range and whose own name, ids, severity, attributes, resource and scope satisfy all filters (several filters on the same single-valued property select any of their values), with their resource, scope and metric metadata unchanged; with neither filters nor time range it returns the newest export whole. This holds for concurrent scripts sharing a process, and when client and server clocks disagree as long as the scan states its time range. Missing values or attributes in stored data never make a query fail.",
 ["inputs","schedules","configurations"],"all filters and windows over all stored data; all interleavings of scripts sharing pooled state; all clock offsets between client and server",
 "The script tests run against canned data with a stub scan function; no test filters by attribute, scope or id through the trimming step, nor runs two queries at once.",
 ["internal/js/rq.go","internal/js/scan.go","internal/visit/visit.go","internal/visit/metrics.go","internal/visit/logs.go","internal/visit/trace.go"],
 [("client side trimming of whole exports to matching points","internal/visit/")],
 [("pooled visitors and script runtimes","reused between queries","internal/visit/visit.go")],["result of the scan function exposed to scripts"])
p("C16","Compressed transport is lossless under concurrency and faults",
 "Data compressed by the transport codec and decompressed by it is byte-identical, whatever its size and however reads and writes are split, while any number of other streams are compressed and decompressed concurrently. A stream whose reader or writer fails, ends early, is corrupted, or is abandoned or closed in mid-stream yields an error to its own caller, never silently wrong or truncated data and never a crash. Such failures never affect any other stream, concurrent or later.",
 ["inputs","schedules","fault_sequences"],"all contents and chunkings, all interleavings of streams sharing pooled coders, all positions of read/write failures, truncation and abandonment",
 "No test exercises the codec; pooled coders make one stream's error able to damage another stream later.",
 ["internal/compress/grpc.go","internal/compress/zstd.go"],
 [("pooled encoders and decoders reset between streams","internal/compress/zstd.go")],
 [("coder pools","shared between streams","internal/compress/zstd.go")],["codec Compress/Decompress","gRPC calls using the codec"])
p("C17","The script cache never serves a damaged program",
 "Running a query script executes exactly what its current source compiles to, whether or not an earlier run of it was cached, and whatever happened to earlier runs: a crash or write error at any point while an entry was being stored, a full disk, or any number of other runs compiling the same or different scripts at the same time. A failure to store the cache entry never leaves an entry that a later run would use as if it were complete. Deleting the cache is always harmless.",
 ["crash_points","fault_sequences","schedules"],"every crash point and write failure in storing an entry, all interleavings of concurrent runs sharing a cache directory",
 "No test runs the query command; the cache is written in place and a reader cannot tell a partial entry from a complete one.",
 ["internal/commands/query/query.go","internal/commands/home.go","internal/compile/compile.go"],
 [("cache entries keyed by content hash","internal/commands/query/query.go")],
 [("cache directory","compiled scripts by source hash","internal/commands/home.go")],["program executed by the query command"],"simulated file operations")
p("C18","A query prints its results faithfully, whole and independently of others",
 "A query script prints exactly what it was told to print: a metrics rendering as text shows every gauge and sum data point of the data once, with its time, its value in the metric's unit, its attributes and its metric; a rendering as JSON decodes to exactly the data, on one line or indented as asked; printed text appears as given. The output is a function of the data and the options only, whatever other scripts run and render concurrently in the same process. A run whose output could not be written in full, or whose scan failed, does not report success.",
 ["inputs","schedules","fault_sequences"],"all metrics data and rendering options, all interleavings of scripts rendering concurrently, all failures and short writes of the output and of the scan",
 "Golden-file tests render a handful of metrics one after the other into a buffer that never fails.",
 ["internal/render/","internal/js/rq.go"],
 [("table and JSON renderers","internal/render/"),("script runtime writing to its output","internal/js/rq.go")],
 [("pooled script runtimes","reused between scripts","internal/js/rq.go")],["what the script writes to its output","result of running the script"])
p("C19","The server's own telemetry is stored like everyone else's",
 "The running server stores its own telemetry in its own database: every span ended and every measurement made through the telemetry providers the server sets up appears there, at the latest two minutes after it was made and before an orderly stop completes, and is afterwards returned by matching scans, across restarts, like any other export. A span is exported exactly once and field for field as it was recorded: ids, parent, trace state, name, kind, times, status, attributes of every type, events, links and dropped counts, under its resource and instrumentation scope. Metrics are exported once a minute, each instrument under its scope with its name, description, unit, kind and monotonicity, and with values that are exactly the cumulative values of the measurements made so far for each attribute set, histogram buckets, minimum and maximum included; the size of the database is among them. This holds however the recording tasks, the exports, the flushes and other clients interleave. A failing export loses at most what it carried and neither blocks, fails nor stops the server.",
 ["schedules","inputs","histories"],"all interleavings of recorders, batch and periodic exporters, flushes and stop requests; all spans and measurements; all storage failures and restarts",
 "Tests convert hand-made snapshots; no test sets up the providers, exports into a running server or stops one that still holds telemetry.",
 ["internal/self/",MAIN,ST,SVC],
 [("batching and periodic exporters into the server's own collectors","internal/self/self.go"),("conversion to OTLP","internal/self/metrics/transform/, internal/self/trace/tracetransform/"),("order of the shutdown",MAIN)],
 [("batched spans and cumulative aggregations","lost if not exported before the stop","go.opentelemetry.io/otel/sdk")],["what the collectors receive from the providers","ScanSamples RPC responses"],"wrapper around the collectors given to the telemetry setup")
p("C20","Flushed data survives a loss of power",
 "If the computer loses power or its operating system stops at any moment - while the server is running, in the middle of a flush or a start, right after a crash of the process or while no server is running - then the database directory can be opened again by the next start, and data that a scan has returned, whose flush has completed, or that was acknowledged before an orderly stop is returned again by matching scans, identical and exactly once. Whatever else was being written is whole or absent, and the restarted server stores and returns new exports correctly. File contents that were not synced may be lost, or reach the disk in part; directory entries and the lengths given to new mapped files are journalled by the file system, and the pages appended to one index log get to the disk in order.",
 ["crash_points","fault_sequences","histories"],"every point at which power can fail, any choice of unsynced pages that reach the disk, any number of losses of power, crashes and stops",
 "No test can take away what a file system has not written back; every test of the store ends with all of its writes visible.",
 [MAIN,ST,"internal/shards/shards.go","internal/dataframe/dataframe.go","internal/translate/translate.go","internal/seq/seq.go"],
 [("synced commits of samples, label dictionary and id leases",MAIN),("synced index transactions","internal/shards/shards.go"),("what the index refers to is on disk before it is",ST)],
 [("unsynced pages","lost with the power","badger, rbf")],["ScanSamples RPC responses","start of the server"],"notes of what was synced in copies of badger, ristretto and rbf")
# not claimed
p("C31","Row-set algebra agrees with set algebra",
 "Union, intersection, difference, shift and counting over row sets spread over shards give the same results as the same operations on plain sets of integers.",
 ["inputs"],"all row sets","Table tests over small sets.",
 ["internal/rows/"],[("segment-wise bitmap operations","internal/rows/")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
