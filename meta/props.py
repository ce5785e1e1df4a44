NOTES = ("All checks are one static analyzer (analyzer/, Go, x/tools SSA) run on /repo's current source; "
         "run.sh builds it when its binary is missing. No check executes dheart code.")
NA = {
    "C40": "What the shares and signatures are worth is a theorem about the threshold protocol and about number theory inside "
           "the pinned library, not a fact about this code's paths; the static obligations on this side of the interface are "
           "C10, C12, C23, C30 and C31.",
    "C41": "Liveness under message loss depends on the number of losses, the peers' behaviour and real durations compared with "
           "configured timeouts; no static argument bounds them. The safety half (every end is reported once, nothing blocks "
           "with a lock held, slots are freed, lost messages can be had again) is C01, C02, C05-C08, C13, C26.",
    "C42": "What survives a crash of the database server or of the disk is decided by MySQL's and the disk's behaviour at run "
           "time. The order of storing and reporting, and the statements themselves, are C20-C22.",
    "C43": "How long encryption, pre-parameter generation and the protocol take relative to the configured timeouts is a "
           "runtime quantity; source analysis has no sound bound for it.",
}
PROPS = []

def P(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note, state=state))

TRUST = ("Trusts the Go type checker, x/tools SSA construction and the call resolution (interface calls go to every "
         "implementation in the module, function values to every value that flows to them). ")

P("C01", "Every lock is released on every path and never re-entered",
  """Every lock a node acquires is released on every path, including early returns and errors, with the operation
  matching the one that acquired it. No path acquires a lock, not even for reading, that it already holds, and locks
  that are nested are always nested in one order. So no message, callback or API call can leave the node deadlocked.""",
  ["schedules", "inputs"], "every path through every function of the node, every pair of goroutines",
  "Deadlocks need an early-return path or a writer queued between two read acquisitions; the tests run the happy path and never observe a lock after it.",
  ["core/engine.go", "core/request_queue.go", "core/cache/message_cache.go", "core/components/available_presign_manager.go",
   "worker/default_worker.go", "worker/worker_executor.go", "p2p/connection_manager.go"],
  [("deferred or paired unlocks", "all lock users"), ("unlock before calling back", "engine, worker executor")],
  ["a node that stops answering after an error or under concurrent work"],
  "path-sensitive interprocedural lock-state dataflow and lock-order graph",
  TRUST + "Locks are identified by struct field; instances of one type count as one lock.")

P("C02", "No lock is held while waiting for something unbounded",
  """While a node holds a lock it never waits for another party: it does not block on a channel, sleep, wait for other
  goroutines, call out over RPC or do network I/O. The only exception is the per-peer lock that serialises the writes on
  that peer's own stream.""",
  ["schedules", "fault_sequences"], "every call chain that starts with a lock held",
  "A peer or client that never answers is needed to see it; tests use mocks that answer at once.",
  ["core/engine.go", "worker/default_worker.go", "worker/worker_executor.go", "p2p/connection.go", "p2p/connection_manager.go", "client/client.go"],
  [("network and client calls made after unlocking", "engine, heart"), ("callbacks started in their own goroutine", "worker executor")],
  ["all API calls and messages stall while one peer is slow"],
  "interprocedural lock-held-set dataflow to blocking operations",
  TRUST + "Database calls and local tss-lib computation are not counted as unbounded waits.")

P("C03", "Shared mutable state is only touched under its lock",
  """Every piece of state that several goroutines share and that changes after it was set up is read and written only
  while holding the lock that protects it, exclusively so for writes; lookup tables that change at run time always have
  such a lock. Concurrent requests, network messages and timers therefore cannot corrupt the node's state or crash it
  with a concurrent map access.""",
  ["schedules"], "every access to every shared field, in every interleaving",
  "A data race shows only in particular interleavings and the tests are not run under a race detector.",
  ["core/engine.go", "core/heart.go", "core/request_queue.go", "core/cache", "tools/circular_queue.go", "worker", "p2p", "client/client.go", "server/single_node_api.go"],
  [("a mutex or RWMutex beside the state it protects", "each struct with mutable data")],
  ["fatal error: concurrent map access", "lost works, messages or results"],
  "guarded-by inference and lockset dataflow on SSA",
  TRUST + "The protecting lock of a field is inferred from its accesses; state never locked anywhere is only checked when it is a map or captured by a goroutine.")

PATHS = ("Path-sensitive: every path is followed through inlined helpers; loops are widened after one iteration, calls that "
         "cannot touch the checked state are opaque. ")

P("C04", "Work ids are unique among running works and their number is bounded",
  """A node never runs more works than its limit and never runs two works with the same id, however many requests arrive
  at once. Checking the limit and the id and registering the new work happen in one critical section, and a registered
  work is started and runs the request whose id it is registered under.""",
  ["schedules", "histories"], "every path on which a work is started, under every interleaving of requests and endings",
  "Needs two requests racing for the last slot or the same id; tests submit works one after another.",
  ["core/engine.go", "core/request_queue.go"],
  [("check and insert in one critical section", "core/engine.go startNextWork")],
  ["number of running works", "a second worker replacing a running one"],
  "path-sensitive symbolic dataflow over the worker table (bounds, absence and lockset facts at every insertion)",
  TRUST + PATHS)

P("C07", "Every ended work is reported once, frees its slot and starts the next",
  """When a work ends - with results, with a failure or because this node was not selected - the engine reports exactly
  one outcome for it, the one that fits its end, its type and its request, for all four work types. Its slot is freed and
  the next queued work is started unless the queue is empty or the limit is reached.""",
  ["inputs", "histories"], "every work type and every way a work can end",
  "Tests cover one or two work types and do not look at the table and queue after the end.",
  ["core/engine.go", "core/request_queue.go"],
  [("work-ended callbacks", "core/engine.go OnWorkerResult, OnWorkFailed, OnNodeNotSelected"), ("finishWorker", "core/engine.go")],
  ["EngineCallback calls", "works stuck in the queue"],
  "path-sensitive typestate per work type over the engine's end-of-work callbacks",
  TRUST + PATHS)

P("C08", "A client gets exactly one result per work, with its own request",
  """Each outcome the engine reports is posted to the client exactly once, as the right kind of result with the right
  outcome. A posted signing result carries the client request that started this very work, which is taken off the pending
  list in the same critical section. A request is pending before its work can end, and one the engine rejected does not stay pending.""",
  ["histories", "schedules"], "every outcome, work type and order of requests and endings",
  "Needs a work that ends before the submitting call returns, or a rejected request; tests use a mocked engine.",
  ["core/heart.go"],
  [("pending requests by work id", "core/heart.go")],
  ["Client.PostKeygenResult / PostKeysignResult arguments"],
  "path-sensitive typestate and value tracking from engine callbacks to client posts",
  TRUST + PATHS)

P("C05", "Every selection round yields one result and the work goes on accordingly",
  """For all four work types, as leader and as member, a completed selection round yields exactly one result, and a leader
  announces to the others exactly the result it uses itself. A failed selection fails the work, an exclusion is reported as
  such, and otherwise exactly one execution of this request with the selected parties is initialised and run.""",
  ["inputs", "schedules", "histories"], "every order of cached and received selection messages and timeouts",
  "The tests cover a few message orders; error paths of the selection (invalid announcements, missing presigns) are not reached.",
  ["worker/prework_selection.go", "worker/default_worker.go"],
  [("broadcastResult", "worker/prework_selection.go"), ("onSelectionResult", "worker/default_worker.go")],
  ["selection callback", "PRE_EXEC_OUTPUT broadcast", "WorkerCallback calls"],
  "path-sensitive typestate per work type over the selection round and its result handler",
  TRUST + PATHS)

P("C06", "An execution ends once, with success only if all its jobs succeeded",
  """An execution reports its end exactly once, whichever of its jobs, timers and goroutines ends it first: who stops it
  atomically is the one who reports. Every job that was started reports a result before it stops listening, the last job
  result always ends the execution, and it reports success only if every job of the batch succeeded. Initialisation errors end it with a failure.""",
  ["schedules", "fault_sequences"], "every interleaving of job results, timeouts, message errors and initialisation errors",
  "Needs two ends racing or one of several jobs failing; tests run successful executions.",
  ["worker/worker_executor.go", "worker/job.go"],
  [("stop flag tested and set in one critical section", "worker/worker_executor.go broadcastResult"), ("OnJobResult", "worker/worker_executor.go"), ("startListening", "worker/job.go")],
  ["executor callback", "JobCallback.OnJobResult"],
  "path-sensitive typestate with atomic test-and-set recognition and lockset facts",
  TRUST + PATHS + "That the loop over the job results visits all of them is not decided, only that every visited one is taken into account.")

P("C09", "Success is reported only after the result exists and is stored",
  """A work is reported as successful only if its execution succeeded, and a keygen only after the key share was stored
  without error under the request's key type, work id and parties, by the method for its scheme. The reported results are
  those of the execution, and a reported public key is made of the generated key's own x and y coordinates.""",
  ["fault_sequences", "inputs"], "every result, storage error and work type",
  "Needs a failing database at the end of a keygen; the mock database of the tests never fails.",
  ["worker/default_worker.go", "core/engine_ecdsa.go", "core/engine_eddsa.go"],
  [("saveJobResultData", "worker/default_worker.go"), ("onEcKeygenFinished / onEdKeygenFinished", "core")],
  ["Database.SaveEcKeygen / SaveEdKeygen", "WorkerCallback.OnWorkerResult", "KeygenResult.PubKeyBytes"],
  "path-sensitive typestate and value tracking per work type",
  TRUST + PATHS)

P("C28", "Waits are limited by the times configured for them, and messages never wait",
  """A selection round waits for other nodes no longer than configured for the role of this node, a job no longer than configured
  for its kind of work; the limit is for the whole wait, however many messages arrive meanwhile, and by default members wait
  longer than the leader. Opening a stream to a peer and writing to it are limited as well. Handling an incoming message never
  waits for whoever takes it, and what is left for a wait that has not begun yet is not lost.""",
  ["schedules", "fault_sequences"], "every wait, every order and number of messages during it",
  "Tests finish early; a limit that starts anew with each message needs a peer that keeps talking without ever finishing.",
  ["worker/prework_selection.go", "worker/job.go", "worker/worker_executor.go", "p2p/connection.go", "core/config/timeout.go"],
  [("selection waits", "worker/prework_selection.go"), ("job loop", "worker/job.go"), ("time limits", "core/config/timeout.go"), ("stream deadlines", "p2p/connection.go")],
  ["works that hang or end too early", "API calls and messages that never return"],
  "path-sensitive abstract interpretation of the waits with points in time as terms, plus a sweep over all channel operations",
  TRUST + PATHS + "How long the steps between two waits take is not considered.")

P("C30", "Entries of a batch keep their position from request to signature",
  """In a signing batch the i-th message, the i-th presign, job number i, the i-th entry of every exchanged update message,
  the i-th job result and the i-th reported signature belong together. A reported ECDSA signature consists of R, S and the
  recovery byte, in this order, of the same job.""",
  ["inputs", "schedules"], "every batch size and every order in which jobs finish",
  "Tests sign batches of one or do not compare which signature belongs to which message.",
  ["core/heart.go", "core/engine_ecdsa.go", "core/engine_eddsa.go", "worker/worker_executor.go", "worker/helper.go", "types/common/tss_message.go"],
  [("lists indexed by job number", "worker/worker_executor.go")],
  ["KeysignResult.Signatures", "UpdateMessages"],
  "index-provenance dataflow on SSA plus path-sensitive value tracking",
  TRUST + PATHS + "Lists that are built by appending are assumed to be built in iteration order.")

P("C10", "What is signed and reported is the message that was asked for",
  """A signing request with a message that has no bytes is refused. A signing job is given what its message says: for ECDSA
  its leftmost bits, as many as the order of the curve has, and for EdDSA all of its bytes. An EdDSA signing is reported as
  successful only if every signature was verified against its message with the public key of the work; otherwise the work
  is reported as failed.""",
  ["inputs"], "every message of every length and every batch",
  "Tests sign one short text; long or empty messages, leading zero bytes and later batch entries are not among them.",
  ["core/heart.go", "worker/job.go", "core/engine_eddsa.go"],
  [("client requests", "core/heart.go"), ("signing jobs", "worker/job.go"), ("EdDSA results", "core/engine_eddsa.go")],
  ["errors returned to the client", "message given to the threshold library", "outcome and signatures of a result"],
  "path-sensitive abstract interpretation with per-iteration guards of loops and symbolic big-number construction",
  TRUST + "An ECDSA signature is verified by the threshold library; the order of its ECDSA curve has 256 bits.")

P("C11", "Only messages verifiably signed by a known node are acted on",
  """A message from the network reaches a work, a message cache or a reply only after the signature over the whole message
  was verified with the public key of the node it claims to be from, whatever its content and type. That key is the one
  configured for exactly this node, and a message of an unknown node, or whose inner and outer author differ, is refused.""",
  ["inputs"], "every message a peer can send",
  "A forged message that exploits a skipped check is needed; tests call the engine behind the verification.",
  ["core/engine.go", "core/node.go", "core/engine_utils.go", "types/common/tss_message.go"],
  [("signature verification", "core/engine.go"), ("nodes built from the configured keys", "core/node.go")],
  ["a forged message changes a work or is answered"],
  "path-sensitive authentication dataflow (what was verified must be what is used)",
  TRUST + PATHS + "The signature scheme itself is trusted.")

P("C12", "Only the leader's validated selection starts or ends the work of a node",
  """A node that is not the leader takes the outcome of a selection only from the leader, and answers only the leader. It accepts
  a success only if more different known parties than the threshold are named (for a key generation all of them) and, if
  presign sets are named, one per message which it can load itself. A leader announces success only with enough parties that
  are itself or said yes, and announces exactly the parties and presign sets it uses itself.""",
  ["inputs", "schedules"], "every message a party can send and every order of answers",
  "A message of a party that is not the leader, a duplicate party or a count that is off by one is needed.",
  ["worker/prework_selection.go", "worker/available_parties.go", "types/common/tss_message.go"],
  [("selection outcome", "worker/prework_selection.go"), ("available parties", "worker/available_parties.go")],
  ["a work that runs with parties nobody selected", "nodes that run with different presign sets"],
  "path-sensitive dataflow with linear arithmetic over lengths and per-loop obligations",
  TRUST + PATHS + "The table of available parties only grows and never hands out more parties than asked for (both checked); that it hands out as many as asked for, if it has them, is not.")

P("C13", "A kept message is resent only to a node entitled to it",
  """When a node asks for a message it missed, it gets the kept signed message with exactly the key it asked for, unchanged,
  or nothing. A message that was addressed to one node is given to no other node, and the reply goes only to the node that
  signed the request.""",
  ["inputs"], "every request a node can send",
  "A request by the wrong node is needed, which is a leak and not an error; the tests only ask legitimately.",
  ["core/engine.go", "core/cache/work_message_cache.go", "types/common/tss_message.go"],
  [("OnAskMessage", "core/engine.go"), ("signed messages kept per author", "core/cache")],
  ["a secret share sent to the wrong node"],
  "path-sensitive information-flow check on the reply",
  TRUST + PATHS)

P("C14", "No message from another node can crash this node",
  """Whatever bytes another node sends, in whatever state of the work they are about, handling them never panics or ends the
  process: parts a message leaves out, lists that are too short, keys with too few parts, unknown senders, messages for a
  work that has not started or of which nothing is kept are refused or ignored. The same holds for messages that were kept
  and are handled later.""",
  ["inputs", "schedules", "histories"], "every message, every sender, at every stage of a work",
  "Tests exchange messages that honest nodes build; a crash needs a message nobody builds by accident.",
  ["core/engine.go", "worker/default_worker.go", "worker/worker_executor.go", "worker/prework_selection.go", "types/common/tss_message.go", "p2p/connection_manager.go"],
  [("incoming messages", "core/engine.go"), ("messages of a work", "worker/default_worker.go"), ("kept messages", "core/cache")],
  ["a panic of the process", "error of handling a message"],
  "path-sensitive nil and bounds analysis of everything a message reaches, with facts carried over channels and caches",
  TRUST + PATHS + "The threshold library is taken to return errors, and not to panic, for messages it cannot use; entries of the node's own tables are taken to be set.")

P("C16", "What other nodes send is held only within fixed limits",
  """Nothing is allocated for a message beyond the largest message size before its bytes were read. The messages kept for one
  sender never exceed their limit: when it is reached, the oldest message of this very sender makes room, and none is
  dropped before. The ring of messages kept for resending never holds more than its size nor keeps an overwritten message
  in its index.""",
  ["inputs", "histories"], "every header value and every number of messages",
  "The limits only matter under a flood or a malicious length; tests send a few small messages.",
  ["p2p/helper.go", "core/cache/message_cache.go", "core/cache/work_message_cache.go", "tools/circular_queue.go"],
  [("length check before allocation", "p2p/helper.go"), ("per-sender limit", "core/cache"), ("ring", "tools/circular_queue.go")],
  ["memory exhausted by one peer", "messages of honest nodes pushed out by another node"],
  "path-sensitive interval analysis and inductive invariants on list lengths",
  TRUST + PATHS + "Conversions to 64-bit integers are taken to lose nothing.")

P("C17", "What a peer reads from a stream is exactly what was sent",
  """A message reported as sent was written completely, length first, then its bytes, and flushed, on a stream of the addressed
  peer and protocol and within the size limit. The reader takes the length in the form the writer gives it and reads exactly
  so many bytes, taking none of the next message. After a failed write the stream is reset, never used again, and the
  failure is returned.""",
  ["inputs", "fault_sequences"], "every message size and every partial read or write",
  "Needs a short read, coalesced messages or a connection lost in the middle of a write.",
  ["p2p/helper.go", "p2p/connection.go", "p2p/connection_manager.go"],
  [("4-byte length header", "p2p/helper.go"), ("one stream per protocol", "p2p/connection.go")],
  ["messages that cannot be decoded", "messages that silently vanish"],
  "path-sensitive typestate on streams and buffers",
  TRUST + PATHS + "io.ReadFull and bufio.Writer are modelled by their documentation.")

P("C26", "Every recipient gets the signed message, this node never does",
  """What is sent is the message itself with this node as author and its signature over exactly that message; nothing is sent
  when signing or encoding fails. Unless one of them is unknown, every listed recipient but this node gets it, even when
  sending to another one fails, and nothing addressed to this node leaves it. An update message is kept for nodes that ask
  for it later before it is sent.""",
  ["inputs", "fault_sequences"], "every recipient list and every failure of a recipient",
  "Needs one failing recipient among several, or a failing signer.",
  ["core/engine.go", "core/signer/signer.go", "p2p/connection_manager.go"],
  [("broadcast and unicast", "core/engine.go"), ("cache of sent messages", "core/cache/work_message_cache.go")],
  ["bytes written to each peer", "a round that stalls because one node got nothing"],
  "path-sensitive per-iteration obligations on the sending paths",
  TRUST + PATHS)

P("C32", "The request queue and message cache neither lose, repeat nor misorder",
  """A request is refused exactly if its id is already queued; otherwise it is queued once and no queued request is lost or
  repeated. Requests leave one at a time, key generation before signing and otherwise in the order they came. Taking the
  messages of a work out of the cache returns every kept message of that work and of the wanted kinds, once, and keeps all
  others.""",
  ["histories", "inputs"], "every sequence of additions and removals",
  "Errors hit only certain positions or mixtures of priorities and works.",
  ["core/request_queue.go", "worker/types/work_request.go", "core/cache/message_cache.go"],
  [("priority queue", "core/request_queue.go"), ("message cache", "core/cache/message_cache.go")],
  ["works that never run or run twice", "a work that waits for a message it was sent"],
  "path-sensitive list algebra (segments of the old list) with per-iteration obligations",
  TRUST + PATHS + "In-place shifting of the queue's elements is not recognised.")

P("C34", "No message is lost between the network and the work it belongs to",
  """Every message read from a peer's stream is given, with that peer's identity, to the protocol's listener, and reading goes on
  until the stream fails. A message goes exactly once to its work, selection round or execution or, if that is not registered
  yet, into a cache, decided and done in one step. Once registered, it is given every cached message meant for it.""",
  ["schedules", "inputs"], "every order in which messages arrive and works start",
  "Needs a message that arrives between the check and the registration; tests add messages after the work has started.",
  ["p2p/connection_manager.go", "core/engine.go", "worker/default_worker.go", "worker/worker_executor.go"],
  [("stream handler", "p2p"), ("prework cache", "core/engine.go"), ("pre-execution cache", "worker/default_worker.go")],
  ["a work that times out although every message was sent"],
  "path-sensitive typestate with lock-section reasoning",
  TRUST + PATHS)

P("C36", "A protocol message that is missing is asked for, from its author and by its name",
  """What an execution sends names this node, the work, the recipient and the kind of its messages; a message it receives is noted,
  for the node that sent it and for its own kind, exactly when it is accepted and given to the jobs. Every execution watches what
  it received until it ends: nothing that was received and nothing of this node itself is reported missing, and of the kinds up
  to the last one received no missing message of another node is left out. For each message reported missing one request is
  sent, to all parties if its kind is sent to all and else to its author alone, by the very name its author keeps it under.""",
  ["schedules", "fault_sequences", "inputs"], "every message that may be lost, of every node and kind, and every order of arrival",
  "Only noticed when a particular message is lost; the tests deliver every message, and the one on the monitor looks at one kind.",
  ["worker/worker_executor.go", "worker/components/message_monitor.go", "types/common/tss_message.go"],
  [("message monitor", "worker/components/message_monitor.go"), ("requests", "worker/worker_executor.go"), ("message names", "types/common/tss_message.go")],
  ["a work that times out because of one lost message"],
  "path-sensitive dataflow: per-iteration obligations of the loops that find and ask for messages, symbolic message names",
  TRUST + PATHS)

P("C23", "The node knows which messages each protocol sends, in which round, to whom",
  """For every kind of work the messages a node expects are exactly those the threshold protocol of that work sends, in the
  order of its rounds, and each counts as meant for everybody exactly when the protocol sends it to all parties. A job has
  sent its messages when it sent every kind it has to: all of them, all but the last round's when there is nothing to sign
  yet, only the last round's when a presign is used.""",
  ["inputs", "configurations"], "every kind of protocol message of every kind of work",
  "A kind that is misclassified is only noticed when exactly that message is lost and has to be asked for.",
  ["core/message/tss_phase_messages.go", "worker/job.go"],
  [("tables of message kinds", "core/message/tss_phase_messages.go"), ("counting of sent messages", "worker/job.go")],
  ["kinds expected by the monitor", "nodes asked for a lost message", "a job that ends before its last message"],
  "tables evaluated from their source for every constant argument and compared with the message constructors of the threshold library's source",
  TRUST + "The kinds, their rounds and their recipients are taken from the source of the pinned threshold library.")

P("C24", "All nodes derive the same leader, parties and work id from a request",
  """The leader of a work is chosen by hashing the work id together with the ids of its parties, and the id, parties,
  threshold, sizes, messages and chains of a work depend only on the client's request: never on time, randomness, map
  order, channels, storage, configuration or which node computes them. The parties of a work and of its protocol are
  always the sorted ones. The id of a signing work depends on the id of every message in it.""",
  ["inputs", "configurations"], "every request, on every node, in every order of the public keys",
  "Nodes that disagree only fail together; a unit test runs one node or the same code in one process.",
  ["worker/prework_selection.go", "worker/types/work_request.go", "core/heart.go", "core/node.go", "worker/worker_executor.go"],
  [("leader choice by hash", "worker/prework_selection.go"), ("sorted copy of the parties", "worker/types/work_request.go")],
  ["nodes that wait for different leaders", "party indexes that differ between nodes"],
  "interprocedural backward data and control slicing",
  TRUST + "What the libraries compute is taken to depend on nothing but their arguments, except for the listed sources.")

P("C18", "Secret key material is not logged, printed or sent",
  """No key share, pre-parameter, presign secret, node or client key, password or API token is written to a log, printed,
  put into the text of an error or a panic, or sent to another node or to the client. This holds for values derived from
  them by formatting, encoding or slicing, and for whole structures that contain them.""",
  ["inputs"], "every log, print, error, message and client argument in the node, on every path",
  "A test would have to search the output of every path for every secret.",
  ["core/heart.go", "db/database.go", "worker", "run/run.go", "client/client.go"],
  [("node key decryption", "core/heart.go"), ("keygen and presign outputs", "worker")],
  ["logs", "messages to other nodes", "arguments of client calls"],
  "interprocedural backward slicing from every disclosure to secret sources, with type-based containment",
  TRUST + "Secrets are the listed sources: key bytes, configuration secrets and the secret-bearing types of the threshold library.")

P("C19", "Secrets are encrypted with authenticated encryption and fresh nonces",
  """Encrypting gives the nonce followed by the AES-GCM encryption of exactly the data under the given key, or an error; the
  nonce is a new, full-size random value for every encryption. Decrypting returns data only if it was authenticated under
  that key, and gives an error for data too short to hold a nonce. The encrypted key store stores and loads under the name
  asked for and keeps nothing unencrypted.""",
  ["inputs"], "every key, plaintext, ciphertext and failure of the random source",
  "Reused or partly random nonces and unchecked lengths give correct round trips in every test.",
  ["utils/crypto.go", "store/store.go"],
  [("AES-GCM helpers", "utils/crypto.go"), ("encrypted key store", "store/store.go")],
  ["ciphertexts", "results and errors of the helpers and the store"],
  "path-sensitive abstract interpretation of every function that uses a cipher",
  TRUST + "The guarantees of AES-GCM and of the system's random source are those of the standard library.")

P("C20", "Storage failures are reported and never taken for empty results",
  """A storage operation reports success only if every step of it succeeded, and the end of a result set is taken as its end
  only after it was checked not to be a failure. Callers use what was loaded only when the load succeeded, generate new
  pre-parameters only if the storage says that there are none, and start a work only with the key data it needs. Keygen
  and presign outcomes are reported to the client only after they were stored.""",
  ["fault_sequences", "crash_points"], "every failure of every storage call",
  "Tests use a storage that does not fail; a failure must hit a particular call to matter.",
  ["db/database.go", "core", "worker"],
  [("SQL storage", "db/database.go"), ("pre-parameter loading", "core/heart.go"), ("saving results", "core/engine.go")],
  ["returned errors", "rows in the database", "results posted to the client"],
  "path-sensitive abstract interpretation of storage functions and of every caller with failing outcomes",
  TRUST)

P("C21", "What is stored is what is loaded, under the same key and columns",
  """Every statement names tables and columns that the created schema has, gets as many arguments as it has parameters for
  every number of elements, and writes every value to the column meant for it. Loading keygen data, pre-parameters,
  presigns and peers returns what was stored under the key or ids asked for, presigns in the order of the ids and none
  missing. Presigns of one work are stored under different ids, as unused, and listed as available only while unused.""",
  ["inputs"], "every key type, every list of presigns, ids and peers of every length",
  "Tests store one or two rows and cannot see swapped columns of equal content or wrong parameter counts for other lengths.",
  ["db/database.go", "db/database_helper.go", "db/migrations"],
  [("statements", "db/database.go"), ("schema", "db/migrations")],
  ["rows in the database", "results of the storage interface"],
  "abstract interpretation of the storage methods building symbolic statements, checked against the parsed schema",
  TRUST + "The text of a list of parameter marks is taken to be what its two numbers say; SQL semantics are those of the listed statement forms.")

P("C22", "A presign is used for at most one signing work",
  """Presigns handed out for signing are exactly those taken out of the table of available ones in one critical section, as
  many as asked for, and only after the storage recorded them as used without an error. Presigns become available only
  when they were loaded as unused or stored without an error, under their own id and parties. Every node that uses a
  presign, leader or member, marks it as used.""",
  ["schedules", "fault_sequences", "histories"], "every interleaving of works, every storage failure, every restart",
  "Reusing a presign reveals the key, but both signatures verify; it needs two works, a failure or a restart.",
  ["core/components/available_presign_manager.go", "worker/prework_selection.go", "db/database.go"],
  [("table of available presigns", "core/components/available_presign_manager.go"), ("use of presigns by members", "worker/prework_selection.go")],
  ["status of presigns in the database", "presign ids sent to the members"],
  "path-sensitive abstract interpretation with critical-section tracking, plus statement analysis of the storage",
  TRUST)

P("C25", "Client requests become exactly the work asked for, or an error",
  """While the client has not said that it is ready, after the key was set, or has said that it no longer is, its requests
  are refused. A request becomes at most one work, of the kind, key type and stored key share asked for, whose parties are
  as many as the keys of the request, all valid and known to the engine beforehand; a signing work has one message and
  chain for each message of the request, in their order. Whatever is not accepted as a work is an error for the client.""",
  ["inputs", "histories"], "every request, every list of keys and messages, every readiness history",
  "Tests send well-formed requests; invalid keys, empty lists, unknown key types and lost readiness need odd clients.",
  ["core/heart.go", "server/tss_api.go", "worker/types/work_request.go"],
  [("client requests", "core/heart.go"), ("API", "server/tss_api.go")],
  ["works given to the engine", "errors returned to the client"],
  "path-sensitive abstract interpretation of the API operations down to the engine interface, with list-length relations",
  TRUST)

P("C27", "The node's key is set once, checked, and can be retried after a failure",
  """Setting the key decrypts it with the configured key and accepts it only with the right size for the type asked for; it
  succeeds only if the engine, and then the network, were started with exactly that key. A key that was set is never
  replaced: giving it again changes nothing, giving another one is an error. After a failed attempt the node is as if no
  key had been given: it can be given again and the node cannot become ready without it.""",
  ["inputs", "fault_sequences", "histories"], "every sequence of attempts, every key and type, every failure while starting",
  "Tests set one valid key on a node that starts; the rest needs failing starts and repeated or conflicting attempts.",
  ["core/heart.go", "server/tss_api.go"],
  [("setting the key", "core/heart.go"), ("API", "server/tss_api.go")],
  ["result of setting the key", "key the network and the engine run with"],
  "path-sensitive abstract interpretation of the operation with every call that can fail splitting the path",
  TRUST + "The failure of a start is taken to have no lasting effect of its own.")

P("C31", "The threshold protocol runs with the parties and threshold of its work",
  """The threshold is such that at least two thirds of the parties are needed to sign and all of them can; a keygen needs all
  its parties, a signing one more than the threshold. Executing a work runs, for every job, the protocol of the work's type
  among the selected parties, as this node at its own position among them, with their number, the threshold of the work,
  and the key share of the work.""",
  ["inputs"], "every number of parties, every selection and every position of this node",
  "Tests use few sizes, and a wrong threshold still signs: it only shows when a minority signs or a quorum cannot.",
  ["utils/misc.go", "worker/types/work_request.go", "worker/worker_executor.go", "worker/job.go"],
  [("threshold", "utils/misc.go"), ("parties needed", "worker/types/work_request.go"), ("jobs", "worker/worker_executor.go")],
  ["parameters given to the threshold library", "number of parties a selection waits for"],
  "abstract interpretation with integer-form normalisation (floors of linear terms) and value tracking per work type",
  TRUST)

P("C40", "Nodes end a key generation with one key, and signatures verify under it",
  """When a key generation succeeds on several nodes they report the same public key and hold shares of it; any large enough
  set of them can sign every message, and every signature reported verifies under that key. Fewer nodes than needed learn
  nothing that lets them sign.""",
  ["inputs", "schedules"], "every set of parties, message and adversary",
  "It is a cryptographic statement; tests sample a few runs.",
  ["worker/job.go"], [("threshold protocol", "the pinned threshold library")],
  ["public keys and signatures posted by the nodes"], "", "")

P("C41", "Every accepted request ends with a result, even when messages are lost",
  """As long as enough nodes stay connected most of the time, every request a node accepted ends with exactly one result within
  a bounded time, although single messages are lost, delayed or repeated.""",
  ["schedules", "fault_sequences"], "every pattern of losses and delays",
  "Needs unbounded schedules of losses across nodes.",
  ["worker/components/message_monitor.go", "worker/prework_selection.go"], [("asking for missing messages", "worker/components/message_monitor.go")],
  ["results posted to the client"], "", "")

P("C42", "What was reported as stored survives a crash of the database",
  """A key share, pre-parameter or presign that a node reported as stored is there after the node, the database server or the
  machine crashed at any later point.""",
  ["crash_points"], "every crash point",
  "Tests use a storage that does not crash.",
  ["db/database.go"], [("SQL storage", "db/database.go")],
  ["rows after a restart"], "", "")

P("C43", "The configured timeouts are long enough for the work they limit",
  """With the default configuration no selection, key generation, presign or signing between healthy nodes on common hardware
  fails because a timeout ran out.""",
  ["configurations"], "every number of nodes and size of batch in use",
  "It depends on the hardware and the network.",
  ["core/config"], [("default timeouts", "core/config")],
  ["works that fail although every node is healthy"], "", "")
