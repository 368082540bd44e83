#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the texts stay reviewable)."""
import json, os
S="opsqueue/src/common/submission.rs"; C="opsqueue/src/common/chunk.rs"; D="opsqueue/src/consumer/dispatcher/mod.rs"
R="opsqueue/src/consumer/dispatcher/reserver.rs"; M="opsqueue/src/consumer/dispatcher/metastate.rs"; SV="opsqueue/src/consumer/server/mod.rs"
CN="opsqueue/src/consumer/server/conn.rs"; ST="opsqueue/src/consumer/server/state.rs"; STR="opsqueue/src/consumer/strategy.rs"
PS="opsqueue/src/producer/server.rs"; PC="opsqueue/src/producer/client.rs"; CC="opsqueue/src/consumer/client.rs"; CO="opsqueue/src/consumer/common.rs"
DB="opsqueue/src/db/mod.rs"; OS="opsqueue/src/object_store/mod.rs"; TR="opsqueue/src/tracing.rs"; MG="opsqueue/migrations"; APP="opsqueue/app/main.rs"; SRV="opsqueue/src/server.rs"
PYC="libs/opsqueue_python/src/consumer.rs"; PYP="libs/opsqueue_python/src/producer.rs"; PY="libs/opsqueue_python/python/opsqueue"
CFG="opsqueue/src/config.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if "state" in kw: a["state"]=[{"name":kw["state"],"meaning":kw["state"]}]
    if "observe_at" in kw: a["observe_at"]=[x.strip() for x in kw["observe_at"].split(", ")]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("P01","Work is conserved",
  "Every chunk of an accepted submission is, at every moment until the submission is cleaned up, in exactly one place: still to be done, completed, or failed/skipped; none is lost, duplicated or invented. The totals, progress and counts the queue reports always agree with that.",
  ["histories","inputs"],"for all histories of submit, complete, fail, cancel, cleanup and restart, and all submission sizes",
  "tests run a handful of fixed histories; a chunk lost or duplicated on one path of a long mixed history is invisible to them",
  [S,C,SV,PS],[("insert submission with its chunks",S),("move chunks between pending, completed and failed",C),("apply consumer results",SV)],
  state="chunk and submission tables", observe_at="submission status, counts, stored chunks")
p("P02","A submission completes exactly when all its chunks have completed",
  "A submission is reported completed if and only if each of its chunks was completed once, and as soon as that is the case; an empty submission completes immediately. Repeated completions, and completions of chunks that are not (or no longer) to be done, never advance progress or complete anything.",
  ["histories","schedules"],"for all orders and interleavings of completions from any number of consumers, including duplicates and stale ones",
  "the counter can only be wrong for particular duplicate/stale/concurrent completions",
  [S,C,SV],[("count a completed chunk once",C),("complete the submission when done equals total",S),("empty submissions",S)],observe_at="submission status")
p("P03","Consumers and producers get back exactly what was put in",
  "A consumer receives each chunk with exactly the content, index, retry count and submission attributes that belong to it, for every payload, and results reported by a consumer are recorded unaltered. A chunk's content is never mixed up with another's.",
  ["inputs"],"for all payload bytes, absent or empty payloads, sizes around batching boundaries, and metadata",
  "tests use a few small payloads; batching boundaries and odd bytes are not sampled",
  [C,S,D,CO,PS],[("batched insert of chunks",C),("hand out chunk with its submission",D),("wire format",CO)],observe_at="reserved chunks as seen by a consumer, stored outputs")
p("P04","Failed chunks are retried up to the limit, then fail the submission",
  "A chunk that is reported failed is offered again until its configured number of attempts is used up; only then the submission fails, recording that chunk with its own failure text and input, and no further chunk of it is handed out. Attempts are counted per chunk, never skipped, and never shared between chunks.",
  ["histories","configurations"],"for all retry limits and all mixtures of failures and completions over the chunks of several submissions",
  "tests use one limit and one chunk; off-by-one and cross-chunk effects depend on the mixture",
  [C,S,SV],[("count an attempt, decide retry or failure",C),("fail the submission, skip the rest",S)],observe_at="submission status, retry count of reserved chunks")
p("P05","A submission that has ended never changes again",
  "Once a submission is completed, failed or cancelled, no later operation, in any order or concurrently, changes its outcome, its recorded details or its time, and no observer ever sees it disappear, go back, or switch outcome. Progress seen by an observer never decreases.",
  ["histories","schedules"],"for all operations arriving late, and all concurrent observers polling while transitions happen",
  "needs stale operations on ended submissions and readers racing with a transition across several tables",
  [S,C,PS],[("status lookup across states",S),("terminal transitions",S)],observe_at="polled submission status")
p("P06","Cancelling stops a submission for good, and only that one",
  "Cancelling an in-progress submission succeeds, stops all its unfinished chunks from being handed out, and makes late results for them have no effect; a submission that is unknown or has ended is left as it is, and the caller is told which of the cases applied. Racing cancels and completions end in exactly one outcome, and other submissions and consumers are unaffected.",
  ["histories","schedules"],"for all moments of cancelling relative to reservations, completions, failures and other cancels",
  "the interesting cases are cancels between a reservation and its result, or racing with a reserving consumer",
  [S,PS,D],[("cancel in one transaction",S),("map outcome to the caller",PS),("reserve while the submission disappears",D)],observe_at="cancel response, submission status, chunks handed out")
p("P07","A chunk is held by at most one consumer at a time",
  "From the moment a chunk is handed to a consumer until that consumer reports a result, disconnects, or its reservation expires, the chunk is handed to nobody else, and a completed chunk is never handed out again. A consumer's late result, failure or disconnect never takes away a reservation that now belongs to another consumer.",
  ["schedules","histories"],"for all numbers of consumers, all interleavings of reserve/complete/fail/expire/disconnect, and all strategies",
  "depends on races between reserving readers and concurrent removals; fixed tests use one or two consumers",
  [D,R,ST,SV,CN],[("atomic reservation",R),("delayed release after completion",R),("release on disconnect",ST),("release on failure",SV)],state="in-memory reservations",observe_at="chunks received by consumers")
p("P08","Abandoned work becomes available again",
  "When a consumer fails a chunk with attempts left, disconnects cleanly or abruptly, stops answering heartbeats, or lets a reservation expire, each chunk it held is handed out again to whoever asks, without waiting for a restart. A consumer whose reservation expired is told so.",
  ["fault_sequences","histories"],"for all ways and moments of losing a consumer and all sets of chunks it held",
  "needs connection loss, silence and expiry at arbitrary points",
  [CN,ST,R,SV],[("release on drop of a connection",ST),("heartbeat timeout",CN),("reservation time-to-live",R),("release after retry",SV)],observe_at="chunks received by later reservations, expiry messages")
p("P09","A waiting consumer is served as soon as there is work",
  "A consumer's request for chunks is answered as soon as any chunk is available, whether the chunk was there already, is submitted later, or is released by another consumer; no request waits while work it could take is available. Requests are answered with the request's own identifier and never with more than it asked for.",
  ["schedules"],"for all interleavings of waiting requests with submissions, failures, disconnects and expiries",
  "lost wake-ups need an insert or release exactly between an empty lookup and going to sleep",
  [CN,PS,ST,SV],[("park and retry waiting reservations",CN),("wake up waiting consumers",PS)],observe_at="reply to a reserve request")
p("P10","Acknowledged work survives crashes, and no crash leaves half an operation",
  "If the server process stops at any point, then after a restart everything it had acknowledged or reported is still there, every operation in progress has happened completely or not at all, and all unfinished chunks can be handed out. The restarted queue carries on from that state as if nothing had happened.",
  ["crash_points","histories"],"for all histories and all points at which the process is killed, including between the writes of one operation",
  "no test kills the server; partial states exist only between two commits",
  [DB,S,C,PS,APP],[("transactions around multi-table moves",S),("write-ahead log settings and checkpoints",DB)],state="database file and write-ahead log",observe_at="status and reservations after restart")
p("P11","Strategies hand out chunks in the order they promise",
  "Oldest and newest hand out chunks in ascending and descending order of submission age; random hands out any available chunk; distinct-preferring strategies rank submissions by how many chunks with the same value are being worked on, missing values first, with nested preferences and the underlying strategy breaking ties. No strategy withholds or repeats an available chunk.",
  ["inputs","histories"],"for all sets of submissions, metadata, reservations in progress, nested strategies and limits",
  "tests compare a few fixed arrangements; the ranking is a query over arbitrary counts and ties",
  [STR,D,M],[("query per strategy",STR),("in-flight counts made available to the query",D)],observe_at="order and set of reserved chunks")
p("P12","Balancing follows what is actually being worked on",
  "The number of chunks counted as being worked on per metadata value equals the number of chunks currently held by consumers with that value, whatever way they were returned: completed, failed, expired, or lost with their consumer. When nothing is held, everything counts as idle.",
  ["histories","schedules","fault_sequences"],"for all histories of reserving and returning chunks, including disconnects, expiry and late results",
  "a leaked or doubled count only shows later, as a value that is served too little or too much",
  [M,D,ST,SV],[("count up on reserve",D),("count down on return",D),("release on disconnect",ST)],state="in-memory counts per key and value",observe_at="order in which a distinct-preferring consumer gets chunks; exported counts")
p("P13","A submission's attributes are reported unchanged in every state",
  "Identifier, prefix, number of chunks, chunk size, metadata, strategic metadata and trace information of a submission are reported exactly as submitted while it is in progress and after it completed, failed or was cancelled, as far as that state carries them. Times of ending are the times at which it happened.",
  ["inputs","histories"],"for all attribute values and all end states",
  "each end state copies the attributes separately; tests look at few fields in few states",
  [S,PS],[("copy of the record to each end state",S)],observe_at="submission status")
p("P14","Looking up by prefix finds the submission in whatever state it is",
  "Looking up a prefix returns the identifier of a submission with exactly that prefix, in whatever state it is, and nothing if there is none or it was cleaned up; this holds for every non-empty prefix text other than '.' and '..' (which no URL path can carry), over HTTP and through the client.",
  ["inputs","histories"],"for all prefix strings, including ones with characters that are special in URLs, and all states",
  "tests use plain prefixes of in-progress submissions",
  [S,PS,PC],[("union over the state tables",S),("prefix in the URL",PC)],observe_at="lookup result")
p("P15","Looking up by strategic metadata is exact and bounded",
  "Looking up by strategic metadata returns exactly the in-progress submissions that carry all the given values, in order of age; if there are more than the configured maximum, the caller gets an error that says so instead of a partial list.",
  ["inputs","configurations"],"for all metadata maps, queries (also empty), and limits around the number of matches",
  "tests check a few combinations; limits and multi-key joins have boundaries",
  [S,PS,PC],[("query per key",S),("limit plus one",S)],observe_at="lookup result or error")
p("P16","Cleanup removes what is old and ended, and nothing else",
  "Cleanup removes exactly the submissions that ended before the cutoff, with everything stored about them; submissions in progress, however old, and submissions that ended later keep their status, remaining chunks and metadata.",
  ["histories","inputs"],"for all mixtures of states and ages and all cutoffs",
  "needs several submissions ending on both sides of a cutoff, with partial progress",
  [S,APP],[("delete per table by age",S),("periodic cleanup",S)],observe_at="status and stored rows after cleanup")
p("P17","Identifiers are unique, ordered and convert without loss",
  "Every new submission gets an identifier that is larger than all earlier ones of that server, also when created concurrently, and that encodes its creation time. Identifiers, indexes and counts outside the supported range are refused, and all others survive every conversion and storage unchanged.",
  ["inputs","schedules"],"for all integers around the range limits and all concurrent creations",
  "range limits and concurrency are not sampled by tests",
  [S,C,"opsqueue/src/common/mod.rs"],[("generator",S),("range-checked conversions",C)],observe_at="identifiers, conversion results")
p("P18","Messages survive encoding, and only well-formed ones are accepted",
  "Every message between client and server decodes to what was encoded, in both directions and on both transports, and keeps its documented shape so that independently written peers interoperate. Bytes that are not a valid message are refused without crashing.",
  ["inputs"],"for all message values and all byte strings",
  "decoders face arbitrary input; tests only encode and decode a few values",
  [CO,"opsqueue/src/producer/common.rs","opsqueue/src/common/errors.rs",C,S],[("binary consumer protocol",CO),("JSON producer protocol","opsqueue/src/producer/common.rs")],observe_at="decoded values, decode errors")
p("P19","Bad requests are refused and harm nobody",
  "Malformed, oversized or nonsensical requests and messages are answered with an error or a closed connection, change nothing in the queue, and leave the server working for everybody else. A reservation request for zero chunks is refused as wrong usage.",
  ["inputs","fault_sequences"],"for all malformed HTTP requests and consumer messages, at any moment between good traffic",
  "robustness is about inputs nobody thought of",
  [PS,CN,SRV],[("request extraction",PS),("message handling",CN),("panic handler",SRV)],observe_at="responses, status of other submissions, liveness")
p("P20","Stored chunks come back byte for byte",
  "Chunks written to object storage under a prefix come back complete, in order and unaltered, inputs and outputs never overwrite each other or those stored under a prefix that names another path, and chunk contents embedded in the queue are used as they are. A failing write or a missing object surfaces as an error, never as missing or truncated data.",
  ["inputs","fault_sequences"],"for all contents, counts, prefixes and failing positions in the stream",
  "ordering under concurrent transfer and failure positions need generated streams",
  [OS],[("store and fetch streams of chunks",OS),("object names",OS)],observe_at="fetched bytes, errors, files in the store")
p("P21","Trace context is carried from producer to consumer",
  "The trace context of the producer's request (trace id, sampling decision, trace state and baggage; the server makes a span of its own in it) is stored with the submission whatever the log level, and reaches the consumer unchanged with each chunk and in every state; contexts survive their text form; absent or unreadable contexts are ignored without harm.",
  ["inputs"],"for all valid trace contexts and arbitrary malformed ones",
  "round-trip over header and JSON forms for arbitrary values",
  [TR,SRV,S],[("context to and from text",TR),("context from request headers",SRV)],observe_at="trace carrier in status and reserved chunks")
p("P22","Upgrading keeps all existing work",
  "Opening a database written under any earlier schema version brings it to the current version with every submission, chunk, result, retry count and metadata value kept and usable; opening a current or newer one changes nothing.",
  ["inputs","configurations"],"for all starting schema versions and database contents",
  "tests always start from an empty, current database",
  [DB,MG],[("migrations at start-up",DB)],observe_at="status and reservations after opening")
p("P23","The consumer client matches replies to requests and returns what it cannot use",
  "Concurrent requests of one consumer client each get their own reply; chunks whose requester is gone are given back so that they are offered again; calls made at the same time share one connection, which is given up only when it is lost or a call on it fails; and after any loss of connection or server restart the client reconnects and keeps working, while pending calls fail or are retried rather than hang. Chunks of any size that a producer may submit, and results within the size of a message, get through.",
  ["schedules","fault_sequences"],"for all interleavings of concurrent reservations, cancelled requests, connection losses and restarts",
  "needs cancelled requests and broken connections at arbitrary points",
  [CC],[("in-flight requests by nonce",CC),("reconnect",CC),("return of unwanted reservations",CC)],observe_at="results of client calls, chunks seen by others")
p("P24","The producer client reports the true outcome",
  "Each producer client call returns what the server says: identifiers, status, lookup results and the specific error for unknown or ended submissions; transient failures to connect are retried, a call that is reported successful was performed, and nothing is performed more than once unless the reply to it was lost.",
  ["inputs","fault_sequences"],"for all arguments and all transient failures before or during a request",
  "retry behaviour under injected faults is not tested",
  [PC,PS],[("requests with retry policy",PC)],observe_at="client call results compared with the server's state")
p("P25","Operations go through the Python client unharmed",
  "A Python producer that submits a sequence of operations gets back exactly the processed operations, in order, whatever their number, the chunk size and the way of waiting (iterator, chunks, polling, asyncio, a second client), and learns about failures and cancellations as the corresponding exceptions with the details of the submission, with consumers in other threads or processes. Waiting for a cancelled or unknown submission raises instead of waiting forever; a call that does not fit (zero chunk size, broken iterator, too many matches) raises and leaves nothing behind. An exception of an operation (or a result that cannot be encoded) fails the chunk with its text and the consumer goes on; an interrupt or another fatal exception ends the consumer with that very exception. Clients can be dropped, interrupted and used from several threads or event loops without hanging the process.",
  ["inputs","schedules"],"for all operation sequences, chunk sizes, formats, ways of waiting, exceptions and numbers of consumers",
  "chunking boundaries and failure paths over the language border are sampled only by few fixed tests that cannot run here",
  [PYC,PYP,PY],[("chunking and unchunking of operations",PY+"/common.py"),("blocking stream",PYP)],observe_at="results and exceptions in Python")
p("P26","As long as someone keeps working, the queue drains",
  "Whatever consumers crash, stall, fail chunks or reconnect along the way, as long as some consumer keeps taking and completing chunks every submission that is not cancelled ends as completed or failed, and the queue ends up idle with nothing left over. No combination of faults leaves the server stuck or a chunk unreachable.",
  ["schedules","fault_sequences","histories"],"for all mixes of well-behaved and misbehaving consumers, producers and cancels running concurrently",
  "a stuck chunk is the product of several concurrent events",
  [CN,D,R,SV,ST],[("whole consumer server",SV)],observe_at="final status of all submissions, an idle queue")
p("P27","Metrics tell what happened",
  "At any moment at which nothing is under way, the numbers the server publishes for monitoring equal what happened: how many submissions and chunks were inserted, completed, failed, cancelled, skipped and retried, how many chunks (and operations in them) are in the backlog and how many are reserved, how many consumers are connected, how many submissions and chunks ended and how long the submissions took.",
  ["histories"],"for all histories of inserting, working, failing, cancelling, disconnecting and restarting",
  "a wrong count needs a particular history (a failing submission with several open chunks, a retry, a disconnect) and no test looks at the metrics",
  ["opsqueue/src/prometheus.rs",SRV,SV,C,S,R],[("definition of the metrics","opsqueue/src/prometheus.rs"),("health and metrics routes",SRV)],observe_at="GET /metrics and GET /ping of the server program")
p("P28","The server program starts, works and stops as configured",
  "With any valid combination of settings the program starts on the given or a free port (waiting for a moment if it is still in use), reports exactly that port, keeps its data in the given file and applies each setting: attempts per chunk, time to expiry, heartbeats announced and enforced, the maximum of a lookup, the number of readers. Invalid settings are refused with an error and nothing is made. It says it is healthy exactly while its database can be written; its write-ahead log does not keep growing. Told to stop, it does so soon and cleanly, whatever is connected and under way, and when it is started again everything that was acknowledged is there.",
  ["configurations","fault_sequences"],"for all combinations of settings, and all activity while starting and stopping",
  "tests never run the program; settings could be swapped, ignored or off by one",
  ["opsqueue/app/main.rs",CFG,SRV,DB],[("start, stop and background tasks","opsqueue/app/main.rs"),("settings",CFG),("bind, routes, health",SRV),("pools, checkpoints, health check",DB)],observe_at="the program's command line, port report, HTTP and websocket interfaces, exit status")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
