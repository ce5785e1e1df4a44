D = {
    "C01": """Lock-state dataflow over every function of the module from every entry point (exported API, goroutine, callback,
stream handler): *release* – at every return and panic exit every lock acquired is released with the operation
matching it; *reentry* – no acquisition (read side included) of a lock already held on the path, through any call;
*order* – the acquired-while-holding graph has no cycle. A lock is identified by its struct field, so two instances
of one type count as one lock (over-approximation; no alarm on this tree).""",
    "C02": """The same dataflow carries held locks to every operation that can wait for somebody else: channel
send/receive/select without default, `Sleep`, `WaitGroup.Wait`, outgoing RPC (`client.Client`, rpc dial/call),
libp2p connects, stream writes. Exception: the lock that lives beside a peer's stream, for that stream's own I/O.""",
    "C03": """*guarded* – for each field that is written after construction and accessed with a lock held anywhere, every access
(also of elements, map entries, slices) holds that lock, exclusively for writes; *shared-map* – a map changed after
construction of its owner is protected by some lock; *captured* – a goroutine does not capture a variable its
parent assigns again. Construction is recognised by escape: accesses before the object is published are exempt.""",
    "C04": """Interprets every path that adds to or removes from the engine's worker table: adding is in one exclusive critical
section with the check `running < MaxWorker` and the check that the id is free, under the id of the request the
worker runs, and the worker is then started exactly once. The count and the id may be established through helpers
as they are inlined.""",
    "C07": """From every worker callback of the engine, all paths: exactly one engine callback with the method, outcome and
request that belong to it; the slot removed under the work's id; the next queued request started unless the queue
is empty or the limit reached.""",
    "C08": """From every engine callback of the heart to the client interface: posted exactly once with matching method and
outcome; the signing result carries the pending request taken in one critical section; the pending entry precedes
handing the work to the engine and is removed when that fails.""",
    "C05": """Every selection round as leader and as member is run abstractly for all four types: exactly one result is reported
per completed round; what the leader announces equals what it uses; every result leads to exactly one of failure
callback, not-selected callback or execution, with participants and presigns of the result.""",
    "C06": """Typestate of the executor's end: reports are dominated by an atomic false→true transition of the stop flag, the
winner always reports; failing initialisation and failing job starts report; the last result (and only it) ends the
execution; success needs every entry of the results looked at and successful; a job's listener ends only after a
report and never reports failure after success.""",
    "C09": """From the executor's end through storage to the engine callback: reported as success only on paths where storing the
share succeeded under key type, id and parties of the request and with the method of the scheme; exactly one
report; the public key is built from x and y of the generated key of the scheme (contract of the library's type).""",
    "C28": """Points in time are terms: `now` is marked with whether the path has waited before, `add`, `sub`, timers and contexts
with deadlines are built from it. At every blocking select reached from a selection round or a job, one case must be a timer
whose limit, counted from before the first wait of the path, is exactly the configured field of that role (told by what the
other cases receive) or the job's own time; second and later iterations of the loop are explored, so a limit that starts
anew is seen; after the timer fired no wait may follow. Per work type, the job's time is the configured field. A sweep over
all functions of the node rejects any other channel receive, send or blocking select. Non-blocking sends need a channel made
with room. Streams: context with a constant positive timeout for opening, write deadline set before every write.""",
    "C30": """Positional provenance: each list with one entry per job/message is written at the index it reads from; lists built
by loops get exactly one entry per iteration; goroutines copy the index; signature bytes R‖S‖V of the same output.""",
    "C10": """*bytes* – a signing request becomes a work only if each message is known to be non-empty (linear bound on its
length); *message* – what reaches the library's signing constructor is, for ECDSA, the leftmost order-many bits of
the request's message (recognised as algebra over big-integer operations of the source, library functions
included), for EdDSA all its bytes; *verified* – success only after verification of every signature against its
message. One known finding (below).""",
    "C11": """Dominance on paths: whatever leaves `OnNetworkMessage` (to a worker, cache, reply) is the message whose signature
was verified, over the whole serialised message, with the key of the node looked up by the claimed author which
equals the sender; and the node table is keyed by the identity derived from that same key.""",
    "C12": """Paths of the selection rounds: outcome from the leader only; asking/announcing by the leader only; a member's
acceptance conditions (enough, distinct, known, contains self when told so); the leader counts known parties that
answered yes; number announced equals the number needed; the availability table's contract (grows only; returns at
most as asked; never the excluded party) is proved on its implementation and used as its summary.""",
    "C13": """Path facts at every reply: recipient condition of the kept message, destination = verified author, content = the
kept message of the asked key.""",
    "C14": """Every path of message handling from the network entry to the library is interpreted with *nothing* known about the
message: each dereference of something the sender controls or that a lookup may not find, each index, slice,
division, single-value type assertion, deliberate panic or process exit must be discharged by path facts (nil-ness,
linear bounds). Encoded messages may lack anything JSON/protobuf may lack. Library internals (tss-lib) are not
analysed: they get well-formed parameters by contract.""",
    "C16": """Bounds: allocation sizes before a read are bounded by the limit in path facts; per-sender bookkeeping is checked as
list/map algebra (what is dropped is this sender's oldest); the resend ring: size and index invariants per
insertion.""",
    "C17": """Symbolic frame layout: the writer's byte order/width/content/flush/errors vs. the reader's; a stream with a failed
write is reset and forgotten; streams are kept under the protocol they were opened for.""",
    "C26": """Per-iteration obligations of the sending loops: recipient neither skipped nor this node; author, signature and
content of what is written; kept before sent; failures of one recipient do not end the loop.""",
    "C32": """List algebra: queue after push/pop as segments of the queue before; per-iteration obligations on the cache's split;
priority comparison for all pairs of types.""",
    "C34": """Stream handler loop: each read is handed on with the peer's identity; loop only exits on failure; routed exactly
once, decision and caching in one critical section; hand-over after registration for all three caches.""",
    "C36": """The name a message is kept under is read off as a symbolic text (parts by field); every request's name must be the
same text for the missing node and kind. Per-iteration obligations: one request per missing message, to all or to the
author as the kind says; in the monitor an iteration over the kinds either appends, or knows the kind as received or
as later than the last received, a received kind raises the last one, and no node but this one is skipped. Typestate:
a message is noted exactly on the paths that give it to the jobs; monitor started before the jobs, stopped with the
end, looking for missing messages in every round unless a message came within its time. Not decided: the case that
nothing at all of the next kind came (the index then used is a maximum over several loops).""",
    "C23": """The node's tables of message kinds are evaluated from their source for every constant argument (abstract
interpretation of functions of constants; nothing is run) and compared with kinds, rounds and recipients extracted
from the SSA of the pinned library's message constructors (which routing they set, which round's method makes
them); the comparison in the job counts *names* against the table entry for its own type, presign and message.""",
    "C24": """Backward data and control slices from the leader and from every field of a work: no time, randomness, map iteration
order, channel, storage, configuration or own identity; sortedness of parties before anything that orders by index.""",
    "C18": """Backward slice from every argument of a disclosure (log, print, error/panic text, client call, network message
field) to secret sources: config secrets, key bytes, key-share/presign types of the library (by type containment).
One-way functions (hash, signing, encryption, public-key derivation) cut the slice.""",
    "C19": """Interprets every function that uses `cipher.AEAD`: nonce is a fresh full-size buffer filled by `crypto/rand`
without error, used once; output = nonce ‖ seal(data); open only of long-enough data; key provenance; no other use
of ciphers in the module.""",
    "C20": """Every storage method: success returned only on paths where each call succeeded, `rows.Err` consulted, rows closed;
every caller: results used only on the no-error path; pre-parameters regenerated only on the "none" outcome; store-
before-report.""",
    "C21": """Builds the SQL text of every statement symbolically (constants, repetition by count), parses it and compares with
the schema parsed from `db/migrations`: tables, columns, parameter count for every number of elements, column ↔
value provenance for writes, column ↔ destination for reads. One known finding.""",
    "C22": """Critical-section tracking on the table of available presigns (looked up and removed in one section), dominance by a
successful status update, provenance of the ids and parties; statements as in C21. One known finding.""",
    "C25": """API paths down to the engine interface: readiness flag known true; kind, key type, parties (list-length relation to
the keys, validity), messages/chains one per request message in order; accepted ⇔ exactly one engine call;
everything else returns an error.""",
    "C27": """All failure outcomes of all calls on the way of setting the key: state after error equals state before; success
implies decrypted, sized, engine and network started with that key; second calls.""",
    "C31": """The threshold function is brought to a normal form of floors of linear terms and compared with ⌈2n/3⌉−1 for all n
by integer-form equivalence (not by sampling); per work type, the parameters given to the library are tracked to
the request/selection.""",
}
