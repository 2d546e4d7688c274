NA = []

prop("C01", "Acknowledged log changes survive crashes, whole and unchanged",
 "Once a change to the log, or a new auditor tree head, has been acknowledged, it is there after any crash of the server and any loss of unsynced data, including crashes during recovery. A change that was in progress is afterwards either there as a whole or not at all, and the log's head, entries, trees, indices and values always agree with each other. Clients that knew the log before the crash are served without noticing it.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "every history of mutations, removals and published auditor heads; every disk operation as a crash point (torn, short and lost unsynced writes, repeated crashes during recovery); all deployment modes and several sizes of the database's write buffer",
 "The tests only use the in-memory store; LevelDB is never opened, closed or crashed by any of them.",
 ["db/leveldb.go", T+"mutate.go", T+"transparency.go", "tree/log/log.go", "tree/prefix/prefix.go"],
 [("single synced batch per commit", "db/leveldb.go"), ("tree head is written together with everything that it covers", T+"mutate.go")],
 [("database", "log entries, log and prefix tree chunks, indices, values, tree head and auditor tree head", "db/leveldb.go")],
 ["tree head after reopening", "a new client verifies every version of every label", "existing clients verify consistency"],
 "Power loss keeps a random prefix of what was not synced and may tear it. Assumes that the disk does not lose synced data, and that a new LevelDB manifest is durable once CURRENT names it (goleveldb v1.0.0 does not sync it).")

prop("C02", "A change that fails leaves no trace",
 "If a change to the log is refused or fails, for whatever reason and at whatever point, then readers keep being served exactly the log from before, and later changes are either refused or build on exactly that log. After a restart the log is the acknowledged one, or that plus exactly one of the changes that failed while being written.",
 ["fault_sequences", "histories", "crash_points"],
 "every history in which reads of the store, or writes and syncs of the disk, fail once or persistently (I/O errors, full disk, short writes) at any point of any change, the signing key fails, the clock goes back, removals are not allowed or labels too long (together with changes that are in order), and the server may be restarted or lose power afterwards",
 "No test makes any storage operation fail.",
 ["db/leveldb.go", T+"mutate.go", T+"crypto.go", "tree/log/log.go", "tree/prefix/prefix.go"],
 [("writes are deferred until the change is known to be acceptable", T+"mutate.go"), ("pending changes are dropped, and the connection poisoned, when a commit fails", "db/leveldb.go")],
 [("pending batch", "changes that were not committed yet", "db/leveldb.go")],
 ["tree head after every failure", "searches by new and existing clients", "tree head after reopening"],
 "Failing reads are injected in front of the store, failing writes below LevelDB, failing signatures in the signing key.")

prop("C04", "Honest service: answers are right and clients accept them",
 "Every response of an honest server is accepted by every client in every state, and what the client learns is exactly what the log contains at the tree size of the response: the right version and value, or that it does not exist. The client's stored state always describes the tree that it accepted, and refusals happen exactly where the protocol asks for them (a clock out of range, an expired or unknown version, an auditor that lags, a state that changed since the request).",
 ["histories", "schedules", "configurations", "inputs"],
 "every history of mutations, searches, monitoring, ownership and updates by several clients, under delayed, reordered and lost messages and restarts of clients and server, in all modes, stores, cipher suites and window sizes, on logs of up to 2^62 entries, in which nothing changes for most of the time",
 "The tests check a handful of fixed logs, and mostly one layer at a time; client and server are never run against each other over a history.",
 [T+"client.go", T+"client_crypto.go", T+"transparency.go", T+"algorithms/search.go", T+"algorithms/proof_handle.go", T+"algorithms/data_provider.go", T+"math/math.go", T+"math/ladders.go", "tree/log/log.go", "tree/prefix/prefix.go", "tree/prefix/verify.go"],
 [("search algorithms run by both sides over different proof handles", T+"algorithms/search.go"), ("client state update", T+"client.go")],
 [("client state", "accepted tree head, full subtrees and frontier entries", T+"structs/client.go")],
 ["every response and every accepted or rejected verification", "the client's stored state after every step"],
 "The reference model was written from the protocol's description and shares no code with the repository except for structure encodings.")

prop("C05", "Clients never accept anything false",
 "Whatever a client is sent instead of, or as, the response to its request - a response that was changed in any place, that answers another request or is replayed, or one that a server produced from wrong data - it is rejected, or what the client concludes from it is true: the version and value that it accepts, or the claim that a version does not exist, is what the log contains at the accepted tree size, and what it stores is the accepted tree. A response that is rejected changes nothing.",
 ["inputs", "fault_sequences", "histories", "configurations"],
 "every response to every kind of request in every client state, with any changes to its bytes or structure, including parts of other genuine responses, old tree heads, and arbitrary errors in what the server reads, on logs of up to 2^62 entries",
 "The tests change a few fields of proofs in single layers; no test feeds a client the responses of a server that misbehaves.",
 [T+"client.go", T+"client_crypto.go", T+"algorithms/proof_handle.go", T+"algorithms/data_provider.go", T+"algorithms/search.go", "tree/log/verify.go", "tree/prefix/verify.go", "crypto/commitments/commitments.go"],
 [("received proof handle checks every prefix proof against the log entry's root", T+"algorithms/proof_handle.go"), ("values are checked against the commitment in the prefix tree", T+"client.go"), ("tree head signature", T+"client_crypto.go")],
 [("client state", "accepted tree head, full subtrees, frontier entries; monitoring state of labels", T+"structs/client.go")],
 ["every verification result", "client state after it"],
 "The server has no other log than the honest one here; forked logs and logs with a false content are the subject of other properties.")

prop("C03", "Clients only ever follow one append-only log",
 "Once a client has accepted a log of some size, it only ever accepts that log or extensions of it: no response built from another version of the log (a fork, a restored backup, a shorter log, a log with any entry replaced), with whatever signed tree heads and proofs the operator can put together from all of its logs, moves the client to a log that does not contain all entries that it had accepted. Extensions are always accepted.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "every history of up to four logs forked from each other at any points, and clients that are answered from any of them for every kind of request, with heads and proofs mixed between them, on logs of up to 2^62 entries",
 "The tests verify proofs of single logs; none shows a client that follows one log a different one.",
 [T+"client.go", T+"client_crypto.go", T+"algorithms/data_provider.go", "tree/log/verify.go", "tree/log/math/math.go"],
 [("consistency proof and retained full subtrees", "tree/log/verify.go"), ("tree size may only grow", T+"client_crypto.go")],
 [("client state", "accepted tree head, full subtrees and frontier entries", T+"structs/client.go")],
 ["every verification result", "client state after it"],
 "Signature forgery is outside of the model; the operator signs whatever it likes.")

prop("C11", "An auditor only signs a log that follows the rules",
 "An auditor signs exactly the log that results from the changes it was given, and accepts a change only if it is legal: timestamps never go back, nothing is added that is there already, nothing is removed that is not there, that has another commitment, or that was not yet part of a distinguished log entry, every key occurs once and in order, and the proof matches the log so far. It accepts every legal change with a right proof, no matter which false ones it was given before. A rejected change has no effect; a tree head is only given out once the state behind it is stored, and after a restart at any point, or a failure of its storage, the auditor continues from there.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "every history of legal and illegal changes of a prefix tree whose keys are few and close to each other, with the best possible proofs for them, forged results, proofs of older versions and changed bytes; restarts, failing and half-failing storage, a signing key that fails, damaged state, on logs of up to 2^62 entries",
 "The tests process two or three correct updates and check a handful of single mistakes.",
 [T+"auditor/auditor.go", T+"auditor/state.go", "tree/prefix/verify.go", "tree/prefix/proof.go", T+"algorithms/algorithms.go", T+"structs/third_party.go"],
 [("root before and after a change from one proof", "tree/prefix/verify.go"), ("insertions that are not distinguished yet", T+"auditor/state.go")],
 [("auditor state", "tree head, full subtrees, frontier timestamps, prefix tree root and recent insertions", T+"auditor/state.go")],
 ["verdict on every change", "every published tree head", "stored state at every commit and restart"],
 "Not a violation but a listed finding: removals that move another leaf up can not be followed with the proofs that exist. Keys that share their first 255 bits are outside of the model (a depth of 256 can not be encoded).")

prop("C06", "A search binds the operator to one answer",
 "Against an operator that builds the log as it likes - versions skipped, hidden, brought back or replaced between entries - and answers with the best proofs that it can put together, a search is accepted exactly if the log entries that it must inspect by the rules show the version that is claimed and nothing that contradicts it; and what is concluded (the version and value, that it does not exist, that it expired) is what those entries show. Where the log is consistent, everything that is true can be proven.",
 ["histories", "inputs", "configurations"],
 "every log of up to some dozens of entries with any changes between entries, every target version, every window for distinguished entries and maximum lifetime, and proofs changed in single steps (answers for another version, omitted or repeated results, other entries' timestamps)",
 "The tests search logs that were built correctly.",
 [T+"algorithms/search.go", T+"algorithms/algorithms.go", T+"algorithms/proof_handle.go", T+"algorithms/data_provider.go", T+"math/math.go", T+"math/ladders.go", T+"client.go"],
 [("search tree walk from the frontier, expiry, distinguished entries", T+"algorithms/search.go"), ("binary ladder and its interpretation", T+"math/ladders.go")],
 [("client state", "accepted tree head, retained versions and commitments of labels", T+"structs/client.go")],
 ["verdict on every response, and what it concludes", "client state after it"],
 "The reference walks were written from the protocol's description. Fixed-version searches follow the code at the boundary where a version first appears at the terminal entry, which an existing test requires.")

prop("C08", "Contact monitoring notices what was rewritten",
 "In contact monitoring mode, a client that accepted a version outside of a distinguished log entry keeps an obligation for it. It carries the obligation along the log to the distinguished entry that settles it, and each step is accepted exactly if the entry that it moves to still contains the version with the same commitment and all that the rules require before it. An operator that hid, replaced or took back the version is refused at the latest at that distinguished entry; with an honest log the obligation is always settled. Obligations are never lost, weakened or moved to an entry that was not verified, whatever responses come in between.",
 ["histories", "inputs", "configurations"],
 "every log with any changes between entries, several clients with several obligations each, and proofs changed in single steps, searches and monitoring in any order",
 "The tests monitor logs that were built correctly.",
 [T+"algorithms/monitor.go", T+"algorithms/proof_handle.go", T+"algorithms/algorithms.go", T+"client.go", T+"structs/client.go", T+"math/math.go"],
 [("contact monitor walk along the direct path", T+"algorithms/monitor.go"), ("monitoring map", T+"client.go")],
 [("monitoring map", "position and version of every obligation of a label", T+"structs/client.go")],
 ["verdict on every response", "the monitoring map after it"],
 "Greatest and fixed-version searches add obligations; the map after each step is compared with the reference.")

prop("C09", "A label's owner notices every version that it did not make",
 "The owner of a label knows from the start of its ownership which versions exist at every distinguished log entry and accepts an entry exactly if the binary ladder there shows the versions that the owner knows about and no other, with the commitments that the owner retains. Through initialisation, updates and monitoring, in any order, the owner never skips a distinguished entry, never accepts versions that were added, hidden, taken back or replaced behind its back, and never refuses an honest log. Everything that it concludes about its own updates - which versions were assigned to which values, and where - is what the log entry of the update shows.",
 ["histories", "inputs", "configurations"],
 "every log with any changes between entries, owners that join at any point, updates of any size answered from any log entry, and proofs changed in single steps, in all deployment modes",
 "The tests run owner initialisation and monitoring on logs that were built correctly.",
 [T+"algorithms/monitor.go", T+"algorithms/update.go", T+"algorithms/proof_handle.go", T+"client.go", T+"structs/client.go", T+"math/ladders.go"],
 [("owner walk over distinguished entries", T+"algorithms/monitor.go"), ("update view before and after the new versions", T+"algorithms/update.go")],
 [("owner state", "start of monitoring, known version there and versions since then", T+"structs/client.go")],
 ["verdict on every response", "the owner state after it"],
 "A version made by someone else is visible to the owner through Update or a refused monitoring step; the protocol lets the owner wait for versions whose update it did not see yet.")

prop("C10", "Every update request is told the whole truth, once and in order",
 "A user's update request hands its values to the sequencing part of the service exactly once and unchanged, or not at all if it was cancelled or refused before. Its stream of responses tells of every version that the user does not know yet in log order without gaps, repetitions or omissions, each in a tree that contains it, and ends only after the user's own values are in a response, or with an error if and only if they could not be sequenced or the request could not be served. Users accept every response and learn the version numbers that the log assigned. Cancelled requests and requests whose sequencing fails end promptly and leave nothing running behind.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every interleaving of update requests by several users for the same and other labels with each other, with the sequencer (slow, stalled, failing), with other changes to the log and with cancellation after any response or at any time, in all deployment modes",
 "The tests send one update at a time to a server that nobody else uses, in one interleaving, with a sequencer that succeeds at once.",
 [T+"update.go", T+"managed/managed.go", T+"algorithms/update.go", T+"client.go", T+"wire/wire.go"],
 [("stream of responses: what is there, submission, own values", T+"update.go"), ("operator signs consecutive versions", T+"managed/managed.go")],
 [("updater", "next version to be told about, and the tree that it is told in", T+"update.go"), ("operator's counter", "next version of a label that the operator signs", T+"managed/managed.go")],
 ["every value that is submitted", "every response and the end of every stream", "goroutines left after cancellation"],
 "In managed deployments a refused update uses up version numbers of the operator's counter by design; updates that can not be aligned any more are expected to fail.")

prop("C17", "Requests are served from one consistent snapshot while the log changes",
 "A response is computed from the log as it was at one moment between the start of the server instance and the response, no matter how the log is changed while the request is served: it never mixes two states of the log, never goes back behind what the instance served before, and is exactly what a server that is left alone would answer in that moment. Any number of requests, on the same or on different server instances, can be served at once; they neither block nor disturb each other or changes to the log.",
 ["schedules", "histories", "configurations"],
 "every interleaving, at each storage operation and between statements of the server's code, of searches, monitoring, owner initialisation and updates by several clients, on fresh and shared server instances, with changes to the log and published auditor heads, for both kinds of storage and in all deployment modes",
 "No test serves a request while the log changes.",
 [T+"transparency.go", T+"update.go", T+"mutate.go", T+"algorithms/proof_handle.go", "db/leveldb.go", "db/memory/memory.go", "tree/log/log.go", "tree/prefix/prefix.go"],
 [("tree head is read once and everything is computed for its size", T+"transparency.go"), ("append-only storage of log entries, chunks and prefix tree nodes", "db/leveldb.go")],
 [("server instance", "tree head and auditor tree head that it was started with", T+"transparency.go")],
 ["tree size and auditor head of every response", "verdict and conclusion of the client", "writes through read-only stores"],
 "Goroutines are interleaved at storage and channel operations and between any two statements of the code under test, not within one statement or in dependencies; torn words and weak memory orderings are out of reach of the serialised execution.")


prop("C16", "A request whose storage reads fail gets an error or the right answer",
 "If any read of the server's storage fails while it serves a request (search, contact or owner monitoring, initialisation, update) or starts, the requester gets an error or exactly the answer that would have been given without the failure: never a wrong, partial or empty answer that a client accepts or that hides the failure. The server does not crash. What the server was not able to read is not remembered: the same and every other instance of the server answers the next request right, and the log, its storage and all clients stay as they were. An update stream that runs into a failure ends with one error, after responses which are all right; the update itself has either been made or not, and its owner learns which by asking again. Read errors while a database is opened never make it lose anything.",
 ["fault_sequences", "histories", "configurations", "inputs"],
 "every position of a failing read (once, several times, for good) in every kind of request, in every state of the log and of the client, in all modes; failures of single reads of the disk below LevelDB, with cold caches, small tables, during compactions and while the database is opened",
 "The tests have no failing storage.",
 [T+"transparency.go", T+"algorithms/update.go", T+"algorithms/data_provider.go", T+"update.go", "tree/prefix/prefix.go", "tree/log/log.go", "db/leveldb.go"],
 [("reads of the server", T+"transparency.go"), ("update streams", T+"update.go"), ("opening of the database", "db/leveldb.go")],
 [("server instance", "tree head and providers that outlive a request", T+"transparency.go")],
 ["result of every request", "reaction of the client to every response", "state of the log after every failure"],
 "Reads that return nothing or old data without an error are a different fault (lost data, covered as hostile storage by C05: clients reject what is built from it).")

prop("C21", "The stores keep exactly what was put into them",
 "Every store behaves like a map: a record is read back as it was last put under exactly this label, version, position or key; records with different keys or of different kinds never mix; deleted and unknown records are absent, and absence differs from an empty value; nothing is no value. Values that were handed over or read are copies. The LevelDB store behaves like a map with transactions: its user sees its own pending changes, clones see what is committed and can not change anything, a commit takes effect as a whole and survives every crash once it returned, a commit that fails leaves no trace until the process ends, and after that either all or nothing of it is there. After a failed commit nothing else is committed until the database is opened again, and it can always be opened again. The operator's store gives out each version number once.",
 ["inputs", "histories", "crash_points", "fault_sequences"],
 "every sequence of puts, deletions, single and batch reads, clones and commits with keys chosen to collide (empty, prefixes of each other, containing separators and digits, extreme numbers), with write, sync, create and read errors, short and torn writes, crashes and power loss at every disk operation, also again and again while the database is opened; write buffers from 300 bytes to 4 MB, so that commits go through LevelDB's journal, its transactions and compactions",
 "The tests of the repository only use the stores through the trees, without failures, and never reopen a database.",
 ["db/leveldb.go", "db/memory/memory.go", "db/db.go"],
 [("keys of the records", "db/leveldb.go"), ("atomic commit", "db/leveldb.go"), ("in-memory stores", "db/memory/memory.go")],
 [("pending batch", "changes since the last commit", "db/leveldb.go"), ("database", "committed records", "db/leveldb.go")],
 ["result of every read, compared with the model", "contents of the database after every restart"],
 "The in-memory store has no transactions and its clones share its records: it is only compared with a plain map, and clones of it are not tried to be written through. It has no locks either, so it is not used concurrently.")

prop("C22", "A client knows exactly what it has stored, whatever fails or crashes",
 "A client that crashes, or whose storage fails at any operation with or without having stored something, is always in the state before or in the state after the request: never in between, and never in another one. A result is only reported to the user once the state that goes with it is stored, so after every reported success the client remembers the tree head, the versions that it has to monitor and the labels that it owns. A failure never makes it forget these, skip or repeat something, or accept later what it would not have accepted; requests and responses that were in flight are judged by what is stored. Once storage works again, requests succeed and monitoring completes as if nothing had happened.",
 ["crash_points", "fault_sequences", "histories", "schedules"],
 "every storage operation (reads and writes, while a request is made or a response is processed) in every kind of request, failing or crashing with and without effect, in every state of the client and log, with several requests in flight, messages that are lost, delayed and reordered, in all deployment modes, and on logs of up to 2^62 entries",
 "The tests use a map that never fails and never restart a client.",
 [T+"client.go", T+"client_crypto.go", "db/db.go"],
 [("state is read", T+"client.go"), ("state is replaced, together with the label's", T+"client.go")],
 [("client state", "tree heads, subtrees and log entries", T+"client.go"), ("label state", "monitoring map, ownership and retained versions", T+"client.go")],
 ["stored records after every request", "verdicts of the client", "requests that it makes next"],
 "PutLabelState is atomic, as its interface demands. Responses are processed one after another: the library has no locking of its own.")

prop("C20", "No message breaks a party or means two things",
 "Every message and every stored record has one meaning: bytes are decoded exactly if they follow the wire format, to the values that the format gives them, and encode to the same bytes again; values that the format can not hold are refused, never cut off. Decoding, and whatever a server does with the request afterwards, ends without a panic, uses memory in proportion to the message, and writes nothing. A server that receives a request which makes no sense - labels and versions that do not exist or are out of range, tree sizes from the future, monitoring positions that could not have come about, owners who own nothing, updates without, with wrong or with missing signatures or for another deployment mode - refuses it, or ends its stream with an error, and goes on serving others as before. It never stores or signs what no party asked for.",
 ["inputs", "histories", "configurations"],
 "every message and record with any parts present or missing, at and beyond the size limits, cut off, extended or changed in any byte, read through readers that return any number of bytes at a time; every request with any field replaced, at any point of a log's history, in all deployment modes",
 "The tests encode and decode a few well-formed messages, and send well-formed requests to the server.",
 [T+"structs/structs.go", T+"structs/operations.go", T+"structs/tree_head.go", T+"structs/client.go", T+"structs/config.go", T+"structs/third_party.go", "tree/prefix/proof.go", T+"transparency.go", T+"update.go", T+"algorithms/monitor.go"],
 [("bounded reads", T+"structs/structs.go"), ("presence of tree heads and auditor heads by deployment mode", T+"structs/operations.go"), ("requests are checked before the log is consulted", T+"transparency.go")],
 [("log", "tree head, entries and indices that false requests must not change", T+"transparency.go")],
 ["decoded fields, bytes consumed and re-encoding", "answer to each request", "writes to the store", "memory in use"],
 "The format was written down independently, field by field, in sim/wire.go; it is compared by field names through reflection.")

prop("C12", "A managed log's operator signs one value per version, only what users ask for",
 "In a log with third-party management the service operator never signs two different values for the same version of a label, whatever its processes, its storage, its key and the manager of the log do. It signs exactly the values of a user's request, with the next versions of the request's label that its storage has given out, and nothing after a failure of its storage or key; the signatures verify with the leaf key that clients have. The manager gets exactly the user's request with these signatures, once; the user gets exactly what the manager answers, to updates and to all other requests, with the caller's context and unchanged errors. An operator process does not start with a configuration or a key that would make its signatures worthless, and it does not change the caller's request.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "every interleaving of concurrent requests for the same and different labels to several operator processes with shared storage, crashes at every storage, key and manager call, storage calls that fail with or without effect, key failures, refusals by the manager, labels that are too long, requests without values",
 "One test sends one request through an operator with one process and no failures.",
 [T+"managed/managed.go", "db/memory/memory.go", T+"wire/wire.go"],
 [("versions are reserved before anything is signed", T+"managed/managed.go"), ("values are signed", T+"managed/managed.go"), ("the request is submitted", T+"managed/managed.go")],
 [("greatest version per label", "the operator's only durable state", "db/memory/memory.go")],
 ["every message that is signed", "every call of the storage and the manager", "every result given to users"],
 "Refused updates use up versions, so that a later update of the same label can be refused as well: the statement is about safety. The storage is the in-memory one, made atomic by the simulator (it has no locking of its own).")

prop("C13", "Deleting a label erases it, and nothing else",
 "A label may be deleted if and only if its last version was there at a distinguished log entry that stays behind; a change that asks for a deletion which is not allowed is refused as a whole. Once a deletion is acknowledged, the values and commitment openings of all versions of the label are gone from the database, also after crashes, and no response of any server instance contains them. The label starts again from version 0, if it comes back at all, in the same log entry or later. Clients that search for it are told the truth at the tree size that they are shown, or are refused: what the log said before the deletion is never taken for what it says now, nor the other way around; and once a later log entry is distinguished, everybody finds the label as it is. All other labels and their versions stay as they are.",
 ["histories", "inputs", "configurations", "crash_points"],
 "every history of deletions, alone and together with each other, with unknown labels, with other labels and with new versions of the same label, at any time relative to the distinguished entries; searches for every version by clients of any size that know nothing about the label, through server instances started before and after; restarts and power loss; in all deployment modes and stores, on logs of up to 2^62 entries",
 "One test deletes a label, from a log of three entries, and looks at the output for the auditor.",
 [T+"mutate.go", T+"algorithms/update.go", T+"transparency.go", "db/leveldb.go", "db/memory/memory.go", "tree/prefix/prefix.go"],
 [("deletion is allowed up to the previous rightmost distinguished entry", T+"mutate.go"), ("index and versions are deleted", T+"mutate.go"), ("removal of prefix tree leaves", "tree/prefix/prefix.go")],
 [("label index and versions", "positions, values and openings of a label's versions", "db/leveldb.go")],
 ["outcome of every change", "contents of the database", "bytes of every response", "verdict and conclusion of every client"],
 "The server answers from its index, which forgets deleted versions: a proof that involves log entries from before the deletion may be one that no client accepts (by design of the index). Clients that still follow a deleted label are not told about the deletion; they are only checked for safety. Old data may survive in unused parts of LevelDB's files until they are compacted.")

prop("C14", "The prefix tree is exactly the dictionary that was put into it",
 "At every version, the prefix tree holds exactly the keys and commitments that all changes up to that version have put there: its root is the one that the protocol defines for them, no matter in which order, grouping or over which detours they came about, and older versions stay as they were. Searches return, for every set of keys, what the dictionary holds, and the one proof that the format defines; everybody who verifies a proof gets the root and the results from it, and the proof of a change leads from the old root to the new. A proof that was changed in any way is refused, or leads to another root, or says what is true. A change or search that is refused, or fails while reading or writing its storage, has no effect, and never gives an answer that is built on what it could not read.",
 ["histories", "inputs", "fault_sequences", "schedules"],
 "every history of changes with any number of additions, removals and replacements, of keys that share prefixes of any length; every set of keys searched in any version; storage reads that fail, lose, or shorten single records; writes that fail; searches overlapping with changes; and proofs with parts changed, dropped, added or exchanged for those of other trees",
 "The tests build a few trees from random keys, which share only short prefixes, and check that a proof's root matches the root that the same code computed.",
 ["tree/prefix/prefix.go", "tree/prefix/nodes.go", "tree/prefix/proof.go", "tree/prefix/verify.go", "db/memory/memory.go"],
 [("batched search and insertion over tiles", "tree/prefix/prefix.go"), ("evaluation of a proof before and after a change", "tree/prefix/verify.go")],
 [("tree", "tiles of nodes addressed by version and counter", "tree/prefix/nodes.go")],
 ["root of every version", "bytes of every proof", "results of every search, and verdict on every proof"],
 "The reference computes roots and proofs from sorted lists of keys. Where a removal collapses a subtree whose other half was not looked up, the verifier can not know the resulting root (known finding of the auditor property); such changes are compared up to that.")

prop("C15", "The log tree commits to exactly the sequence of its entries",
 "A log tree of any size has the root that the protocol defines for its entries. For every set of entries, every size of the tree, and everything that a verifier may have retained from smaller trees, the proof contains exactly the nodes that the protocol asks for, and verifies to the right root and the right subtrees to retain; sizes and positions that make no sense are refused on both sides. A proof that was changed in any way, or that is for another tree, is refused or leads to a different root, and leaves the verifier as it was. A failure to read or write the storage makes the operation fail, and a node that can not be read is never replaced.",
 ["histories", "inputs", "fault_sequences", "schedules"],
 "every tree of up to 2^63 entries, built entry by entry or given by its chunks, every set of entries in them, every chain of sizes retained by a verifier; storage reads and writes that fail, lose, or shorten single records; proofs made while entries are appended; and proofs with hashes changed, dropped, added or exchanged",
 "The tests check proofs for random entries of trees of a few thousand entries, with verifiers that are moved forward once, and with storage that never fails.",
 ["tree/log/log.go", "tree/log/chunk.go", "tree/log/verify.go", "tree/log/math/math.go"],
 [("proofs for batches of entries with retained subtrees", "tree/log/log.go"), ("retained full subtrees", "tree/log/verify.go"), ("implicit positions of nodes in chunks", "tree/log/math/math.go")],
 [("tree", "chunks of eight leaves and their parents", "tree/log/chunk.go"), ("verifier", "full subtrees retained", "tree/log/verify.go")],
 ["root of every size", "hashes of every proof", "verdict of the verifier and what it retains"],
 "Trees that are too large to be built are represented by a sparse model in which unread subtrees have arbitrary hashes.")

prop("C23", "Signatures, commitments and VRF outputs hold only for what they were made for",
 "Every signature, commitment and VRF proof that a party issues verifies wherever the protocol uses it, also after the party has restarted from its stored key. Whatever verifies was issued by the owner of that key for exactly this message: this deployment (suite, mode, keys, and all limits), this tree size, timestamp and root, this label, version, value and opening. Nothing else does: not the same bytes in another context, not bytes of any other length or encoding, and no proof that only someone without the key could have made. A key and a message have one VRF output, whoever computes it; different messages have different ones. Openings have full size, are fresh and never repeat. Keys that are no keys - zero, out of range, not on the curve, of small order, of the wrong length - are refused. What is hashed, signed and committed to is exactly what the protocol says. Clients and auditors refuse tree heads, auditor heads, values and log entries that were made for a deployment that differs from theirs in any part of its configuration.",
 ["inputs", "histories", "configurations"],
 "every history of keys of both suites that sign, prove and commit, restart and are presented with each other's output, alone or changed, cut, extended, re-encoded, with torsion or chosen by an adversary who knows other keys; pairs of deployments that differ in one field or key only and have the same log up to any point, with every message delivered to the wrong one",
 "The tests sign or prove one fixed message with one key of each suite and verify it again.",
 ["crypto/commitments/commitments.go", "crypto/vrf/vrf.go", "crypto/vrf/p256/p256.go", "crypto/vrf/edwards25519/edwards25519.go", "crypto/suites/suites.go", T+"crypto.go", T+"client_crypto.go", T+"structs/config.go"],
 [("bytes that are signed, committed to, or given to the VRF", T+"crypto.go"), ("verification of a VRF proof", "crypto/vrf/vrf.go")],
 [("keys", "private keys in their stored form, public keys in the configuration", "crypto/suites/suites.go")],
 ["every signature, proof, opening and commitment issued", "every verdict on every presented one", "verdict of clients of the other deployment"],
 "Cryptographic hardness is assumed: the adversary makes the forgeries that flawed checks would let through (bad encodings, short lengths, small-order points, exchanged contexts), not those that need broken primitives. The encodings were written down a second time in sim/encode.go.")

prop("C24", "Answers disclose nothing but what was asked for",
 "Whoever talks to the log learns about the labels and versions that it asks for, and nothing about others. An answer to a search has the value and commitment opening of the version that it finds, if that version is in the tree that the answer is about, and of no other version; an answer to a request for monitoring or for becoming an owner has none; an answer to an update has exactly those of the versions that it tells about, and never those that the owner knows. No answer has an opening, a value, or a VRF proof of another label, or a label's name, so that the leaves of the prefix tree which appear in proofs can not be linked to labels. What the auditor is given has no labels, values, openings or VRF proofs at all, and is in the order of the VRF outputs, which says nothing. This holds for well-formed and senseless requests, before, during and after changes and deletions, and when requests overlap.",
 ["inputs", "histories", "schedules", "configurations"],
 "every history of changes and deletions, every request with any fields at any time, also while other requests and changes are in progress, and server instances that are older than the database, in all deployment modes",
 "The tests look at what answers prove, never at what else they contain.",
 [T+"transparency.go", T+"update.go", T+"monitor.go", T+"crypto.go", T+"mutate.go", T+"structs/operations.go"],
 [("value and opening of a search's answer", T+"transparency.go"), ("values and openings of an update's answer", T+"update.go"), ("VRF proofs of a binary ladder", T+"monitor.go"), ("what the auditor gets", T+"mutate.go")],
 [("versions", "values and openings, stored under label and version", T+"crypto.go")],
 ["bytes of every response", "bytes of every update for the auditor"],
 "That commitments and VRF outputs hide what they are made from is assumed, given fresh openings of full size (the binding property). Commitments are not secrets. Deleted versions are the deletion property's business.")
