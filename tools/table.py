JN = 'Assumes the stated RocksDB contract (atomic, prefix-durable writes; sync=true is durable), mutual exclusion by std::mutex, and values below 2^60; see the evidence file.'
prop('C01', 'Terms never go back and each term has at most one vote, durably',
 'The term a node reports never decreases, and once it has cast (or blocked) its vote in a term, that vote stays the same until the term advances, also across restarts and crashes. A vote is only granted to the first asker of the current term while the node follows nobody, and term and vote are stored together and on disk before the answer is given.',
 ['inputs', 'histories', 'crash_points', 'schedules'], 'every history of term observations, vote requests, candidacies and restarts, with any terms and servers, and a crash after any write',
 'tests play a few fixed sequences with two or three servers and never crash a node between a write and its answer',
 ['src/raft/RaftState.cc', 'src/raft/RaftState.hh', 'src/raft/RaftJournal.cc'],
 [('term and vote checked and stored in one synced batch', 'src/raft/RaftJournal.cc setCurrentTerm, commitBatch'), ('vote and term decided under one lock', 'src/raft/RaftState.cc grantVote, observed, becomeCandidate'), ('vote blocked once a leader is known', 'src/raft/RaftState.cc observed')],
 [('currentTerm, votedFor', 'cached term and vote, mirrored on disk', 'src/raft/RaftJournal.hh')], ['return values of the vote and term operations', 'term and vote after reopening'], JN)
prop('C02', 'Role changes follow the protocol and readers see one coherent state',
 'A node becomes leader only from candidacy in the same term, as a voting member that voted for itself, after its leadership marker was appended; it becomes candidate only from follower without vote or leader; a newer term always makes it a follower and shutdown is final. The leader of a term, once recognised, never changes within the term. Every published state shows term, role, leader, vote and marker of one single moment.',
 ['inputs', 'histories', 'schedules'], 'every order of observations, candidacies, ascents, drop-outs, votes and shutdowns, from any number of threads, and every reader in between',
 'tests drive one linear scenario; readers racing with transitions and unusual orders (drop-out after step-down, ascent after demotion) are not enumerated',
 ['src/raft/RaftState.cc', 'src/raft/RaftState.hh'], [('all transitions under one mutex', 'src/raft/RaftState.cc'), ('immutable snapshot swapped atomically', 'src/raft/RaftState.cc updateSnapshot')],
 [('status, leader, leadershipMarker', 'role of this node in the term', 'src/raft/RaftState.hh')], ['published snapshot', 'return values'], JN)
prop('C03', 'The replicated log stays contiguous, ordered, and keeps what was committed',
 'The log always holds exactly one entry for each index between its start and its end, with terms that never decrease and never exceed the current term; appending is accepted only at the end and changes no earlier entry. The commit index never goes back nor passes the end, committed entries are never truncated, and trimming never passes the commit index. Comparing or matching entries reports exactly the first difference or match and changes nothing.',
 ['inputs', 'histories'], 'every history of appends, truncations, trims, commits and comparisons with any indexes, terms and contents',
 'tests use a handful of hand-picked indexes and never check all stored indexes after every operation',
 ['src/raft/RaftJournal.cc', 'src/raft/RaftJournal.hh'], [('index, term and commit checks before each batch', 'src/raft/RaftJournal.cc appendNoLock, removeEntries, trimUntil, setCommitIndex'), ('first difference', 'src/raft/RaftJournal.cc compareEntries, matchEntries')],
 [('logStart, logSize, commitIndex', 'bounds of the log', 'src/raft/RaftJournal.hh')], ['stored entries and bounds after each operation'], JN)
prop('C04', 'What the journal acknowledged as durable survives a crash at any point',
 'After a crash following any single write, reopening yields a consistent journal: bounds, entries, terms and membership agree with each other. Updates of term, vote and membership, important entries, and everything under the strictest policy are on disk when acknowledged, unless the operator chose asynchronous syncing. Reopening recovers exactly what was stored and changes nothing.',
 ['crash_points', 'histories', 'configurations'], 'a crash after every database write of every operation, from any consistent state, under each sync policy',
 'no test kills the process or drops unsynced bytes; reopening is tested only after clean shutdown',
 ['src/raft/RaftJournal.cc', 'src/utils/FsyncThread.cc'], [('one batch per logical update', 'src/raft/RaftJournal.cc commitBatch'), ('sync decision', 'src/raft/RaftJournal.cc shouldSync'), ('recovery', 'src/raft/RaftJournal.cc initialize')],
 [('stored counters and entries', 'durable image of the journal', 'src/raft/RaftJournal.cc')], ['journal reopened from a crash image'], JN)
prop('C06', 'Membership changes one at a time, exactly as asked, and roll back with the log',
 'A membership change is refused while an earlier one is uncommitted; an accepted one takes effect at its log index with exactly the requested addition, promotion, demotion or removal, and every other change is refused leaving members, epoch and log alone. Truncating an uncommitted change brings back the members and epoch it replaced. Members survive being written as text and read back.',
 ['inputs', 'histories'], 'every membership, every server, every order of changes, commits and truncations',
 'tests check single additions and one rollback; arbitrary memberships, refused changes and later truncation are not covered',
 ['src/raft/RaftJournal.cc', 'src/raft/RaftMembers.hh', 'src/Utils.cc'], [('uncommitted-epoch check', 'src/raft/RaftJournal.cc membershipUpdate'), ('set operations', 'src/raft/RaftMembers.hh'), ('rollback keys', 'src/raft/RaftJournal.cc appendNoLock, removeEntries')],
 [('members, membershipEpoch', 'current membership and where it was set', 'src/raft/RaftJournal.hh')], ['membership after each operation and after reopening'], JN)
prop('C17', 'Replies are well-formed and carry exactly the data they stand for',
 'Every reply the server encodes (strings, numbers, statuses, errors, lists, scans, push messages, redirections, journal entries, statistics, health reports) is one complete, well-formed protocol message that a strict client reads back to exactly the data it was made from, whatever bytes that data holds. Array headers announce exactly the elements that follow, each once and in order. An array under construction is never handed out with fewer, nor filled with more, elements than it announced.',
 ['inputs'], 'every byte string, every number, every list length and nesting, with either push format',
 'tests do not decode replies; empty, binary, huge and nested values are not sampled',
 ['src/Formatter.cc', 'src/redis/ArrayResponseBuilder.cc', 'src/health/HealthIndicator.hh'], [('length-prefixed encoding', 'src/Formatter.cc'), ('count of missing items', 'src/redis/ArrayResponseBuilder.cc')],
 [('ss, itemsRemaining', 'text so far and items still missing', 'src/redis/ArrayResponseBuilder.hh')], ['encoded reply'], 'Decimal rendering by the standard library is trusted; status and error lines carry their text verbatim, as the protocol defines them.')
prop('C18', 'Transactions keep their requests and say truthfully whether they write',
 'A transaction accepts only reads and writes, keeps every request byte for byte and in order through encoding and decoding, and counts as read-write exactly when it contains a write. It announces one reply per request when it batches independent requests, and one in total when the client asked for a transaction. Any payload that is not a complete encoding is refused without reading past its end; lease requests receive the timestamp as an added argument and clients cannot issue the internal timestamped forms.',
 ['inputs'], 'every list of requests with arbitrary binary arguments, every payload including truncated and hostile ones, every timestamp',
 'tests serialise one or two fixed transactions; hostile payloads, binary and empty arguments and reuse are not sampled',
 ['src/redis/Transaction.cc', 'src/redis/Transaction.hh', 'src/redis/LeaseFilter.cc', 'src/redis/InternalFilter.cc', 'src/RedisRequest.hh'], [('length-prefixed encoding', 'src/redis/Transaction.cc serialize, deserialize'), ('classification', 'src/redis/Transaction.cc checkNthCommandForWrites'), ('timestamping', 'src/redis/LeaseFilter.cc'), ('internal commands', 'src/redis/InternalFilter.cc')],
 [('requests, hasWrites, phantom', 'the batch, whether it writes, and its kind', 'src/redis/Transaction.hh')], ['serialized form', 'decoded requests'], 'The command table is checked by the harness, not proved. That a decoded read-write batch contains a write is checked by the harness only.')
prop('C09', 'Storage keys are unambiguous, reversible and sort as intended',
 'Every key, field, hint, index, lease, configuration item and deadline maps to one storage key built from its type and its own bytes, whatever they are; different elements never share a storage key, and all fields of a key, and no others, share its prefix. Reading a storage key back gives exactly the type, key and field it was built from; malformed storage keys are never read outside their bounds. Deadlines sort by time.',
 ['inputs'], 'every byte string as key, field or hint, of any length, including ones made of separator and escape characters, and arbitrary malformed storage keys',
 'tests use short printable keys; separators, escapes, empty parts, the inline-buffer boundary and malformed keys are barely sampled',
 ['src/storage/KeyLocators.hh', 'src/storage/ReverseLocator.hh', 'src/utils/SmartBuffer.hh'], [('hash escaping', 'src/storage/KeyLocators.hh appendEscapedString'), ('parsing back', 'src/storage/ReverseLocator.hh extractPrefix'), ('sortable deadlines', 'src/storage/KeyLocators.hh ExpirationEventLocator')],
 [('keyBuffer, keyPrefixSize', 'storage key and where its field starts', 'src/storage/KeyLocators.hh')], ['storage key', 'key and field read back'], 'The escaping has one known ambiguity (see KNOWN_FINDINGS.txt). That two different elements get different keys, and that reading back inverts writing, are checked by the harness (exhaustively for short keys); the form of every storage key and that what is read was written are proved. The growing buffer is covered by its harness only.')
SMN = 'Engine-level assumptions about RocksDB reads and writes are listed in the evidence. Numbers of elements are taken below 2^60, and floating point as real arithmetic.'
prop('C10', 'Every key has one type and a truthful size, and vanishes when empty',
 'After any history of requests each key has exactly one type; requests for another type are refused and change nothing. The size recorded for a key always equals the number of elements it holds, keys that become empty disappear together with everything stored for them, and no request touches anything but the keys it names. No request leaves stray elements behind or brings the server down.',
 ['inputs', 'histories'], 'every request on every data type, with any keys, fields and values including empty, binary and separator bytes, from any state reachable by any history, alone and within transactions',
 'tests drive a few short histories per command; sizes, leftovers and mixed-type interference after arbitrary histories are not sampled',
 ['src/StateMachine.cc', 'src/StateMachine.hh', 'src/storage/KeyDescriptor.hh', 'src/storage/StagingArea.hh'], [('type check and descriptor update', 'src/StateMachine.cc WriteOperation'), ('per-command size accounting', 'src/StateMachine.cc hset, hdel, sadd, lhset, dequePushFront, vhset and the others'), ('transfer between two keys', 'src/StateMachine.cc smove')],
 [('key descriptors', 'type, size and positions of each key', 'src/storage/KeyDescriptor.hh')], ['raw database contents after each request'], SMN)
prop('C11', 'Reads return exactly what was last written',
 'Every read of a string, hash, set, locality hash or configuration item returns the value most recently written to it, and reports absence exactly when it was never written or was removed since, whatever order, hint, batch or transaction the writes came in. Writes tell truthfully whether they created, replaced or removed something, and increments return and store the exact sum or are refused without effect. A read never changes anything.',
 ['inputs', 'histories'], 'every read and write of these types with any arguments, from any state, reading committed data or data written earlier in the same transaction',
 'tests check a handful of values per command; hint changes, overlapping prefixes, repeated fields in one request and extreme numbers are not sampled',
 ['src/StateMachine.cc', 'src/storage/StagingArea.hh', 'src/utils/ParseUtils.hh'], [('reads through the batch', 'src/storage/StagingArea.hh get'), ('hint index', 'src/StateMachine.cc lhset, lhget'), ('increments', 'src/StateMachine.cc hincrby, hincrbyfloat')],
 [('stored elements', 'value of each field', 'src/StateMachine.cc')], ['reply of each request', 'raw database contents'], SMN)
prop('C12', 'Deques keep order, and versioned hashes advance once per batch of changes',
 'Pushing, popping and trimming at either end of a deque behave as on one sequence: nothing is lost, duplicated or reordered, and popping the last element removes the key. A versioned hash advances its version by exactly one per transaction that changes it and not otherwise, every reply in that transaction names that version, and the revision published to subscribers carries exactly its changes.',
 ['inputs', 'histories'], 'every sequence of pushes, pops, trims and clears, and of field updates and deletions within and across transactions',
 'tests run short fixed sequences; interleaved ends, trims past the end, repeated and useless changes within one transaction are not covered',
 ['src/StateMachine.cc', 'src/storage/VersionedHashRevisionTracker.cc', 'src/storage/VersionedHashRevisionTracker.hh', 'src/storage/KeyDescriptor.hh'], [('range of positions', 'src/StateMachine.cc dequePush, dequePop, dequeTrimFront'), ('one version per batch', 'src/StateMachine.cc vhset, vhdel, WriteOperation'), ('revision of a batch', 'src/storage/VersionedHashRevisionTracker.cc')],
 [('start and end index', 'where the deque begins and ends', 'src/storage/KeyDescriptor.hh'), ('revision tracker', 'updates of the current batch', 'src/storage/VersionedHashRevisionTracker.hh')], ['reply of each request', 'raw database contents', 'published revisions'], SMN + ' Deque positions are taken to stay away from the ends of the 64-bit range.')
prop('C15', 'Listing and scanning visits every element exactly once',
 'Listing a key, or scanning it or the key space page by page with any positive page sizes and following the returned cursors to the end, returns every element that exists throughout exactly once, nothing that never existed, and always comes to an end. A pattern selects exactly the elements it matches; each page is limited by its size and says whether something may remain. Deleting a key or everything removes exactly its elements, and no pattern, cursor or count brings the server down.',
 ['inputs', 'histories'], 'every content, page size, pattern and cursor handed out, with modifications in between, on the key space, hashes, sets, locality hashes, deques, versioned hashes and configuration',
 'tests scan a few small collections with one page size; page limits at element boundaries, patterns across pages, binary keys and concurrent changes are not covered',
 ['src/StateMachine.cc', 'src/storage/PatternMatching.hh', 'deps/StringMatchLen.h', 'src/utils/CommandParsing.cc'], [('page loops', 'src/StateMachine.cc scan, hscan, sscan, lhscan, dequeScanBack'), ('pattern prefix', 'src/storage/PatternMatching.hh extractPatternPrefix'), ('removal by prefix', 'src/StateMachine.cc remove_all_with_prefix'), ('glob matcher', 'deps/StringMatchLen.h')],
 [('stored elements', 'elements under a prefix, in byte order', 'src/StateMachine.cc')], ['pages and cursors', 'raw database contents'], SMN + ' The glob matcher and the pages of locality hashes are compared with a reference by the harness, not proved.')
prop('C13', 'Writes are applied all or nothing, in order, with their journal position',
 'Every batch of requests is applied in one atomic write that holds exactly the effect of its requests, in order, together with the journal index it was applied at; only the next index is accepted, and anything else is refused without effect. After a crash at any moment the state machine holds exactly the state at its last applied index, and a checkpoint holds the current one. A read-only batch sees one moment of the database, changes nothing and never takes an index; a write batch excludes all others while it runs, and what it changed is announced to subscribers once, after it is committed.',
 ['inputs', 'histories', 'schedules', 'crash points'], 'every sequence of single requests, transactions and journal entries without requests, at any index, with failures at any step, concurrent readers and crashes at any byte of the log',
 'tests apply a few entries in order without crashes, refused indices or concurrent readers',
 ['src/StateMachine.cc', 'src/storage/StagingArea.hh', 'src/Dispatcher.cc'], [('index in the same write', 'src/StateMachine.cc commitTransaction'), ('batch and snapshot', 'src/storage/StagingArea.hh'), ('one commit per batch', 'src/Dispatcher.cc dispatch, dispatchReadWriteAndCommit'), ('entries without requests', 'src/StateMachine.cc noop')],
 [('lastApplied', 'index of the last applied journal entry', 'src/StateMachine.hh'), ('writeBatchWithIndex, snapshot', 'pending writes, moment read', 'src/storage/StagingArea.hh')], ['database contents after each batch, refusal, crash and reopening', 'what concurrent readers see'], 'Atomicity and durability of one RocksDB write batch, and isolation of snapshots, are trusted (crashes are tested by cutting the log at random bytes). Exclusion is proved as "the lock is taken once, held at the commit and released", not over all schedules.')
prop('C14', 'A lease has one holder until exactly its deadline, and the clock never goes back',
 'A lease is granted only when nobody else holds it, stays with its holder until its deadline unless released, renewed or deleted, and is gone, together with everything stored for it, as soon as the replicated clock reaches the deadline, for every lease and on every node alike. Renewing moves the deadline to the given duration after the clock, whether later or earlier than before. The clock takes the latest time it was given and never goes back, and the pending deadlines it reports are exactly those of the leases held, also after a restart.',
 ['inputs', 'histories'], 'every sequence of acquisitions, renewals, releases, lookups, deletions and clock updates on any keys, with times in any order, within and across transactions and restarts',
 'tests walk through a few leases with increasing times; equal deadlines, times that arrive late, several leases that end together and restarts in between are barely sampled',
 ['src/StateMachine.cc', 'src/storage/ExpirationEventCache.cc', 'src/storage/ExpirationEventIterator.cc', 'src/redis/LeaseFilter.cc'], [('acquisition, release, lookup', 'src/StateMachine.cc lease_acquire, lease_release, lease_get'), ('expiry', 'src/StateMachine.cc advanceClock, maybeAdvanceClock'), ('deadlines in memory', 'src/storage/ExpirationEventCache.cc'), ('loading at start', 'src/StateMachine.cc loadExpirationCache')],
 [('mExpirationCache', 'deadlines of the leases held', 'src/StateMachine.hh'), ('__clock', 'replicated clock', 'src/StateMachine.cc'), ('lease descriptors and expiration events', 'renewal and deadline of each lease', 'src/storage/KeyDescriptor.hh')], ['reply of each request', 'raw database contents', 'deadlines in memory'], 'The state invariant (memory mirrors the stored leases; all leases end after the clock) is assumed before each call and proved to be kept by each; that it holds after opening an existing database is checked by the harness only. Clock values stay below 2^63.')
prop('C30', 'Every request gets the reply its outcome calls for, and none breaks the server',
 'Every command runs exactly the store operations it names, with its own arguments in their order, and the reply reports their outcome: a wrong number of arguments, an option or a value that does not parse, a command the store does not have or a failed operation gives an error, and nothing else does. A request refused for its form runs nothing and changes nothing. No request of a client, whatever its bytes, alone or within a transaction, brings the server down or is left without a reply.',
 ['inputs', 'histories'], 'every request with any command name, number and contents of arguments, including malformed transactions, scans and lease requests, alone and in transactions, over any contents of the store',
 'tests send each command a few times with valid arguments; the many malformed forms, and each outcome of each store operation, are barely sampled',
 ['src/Dispatcher.cc', 'src/redis/Transaction.cc', 'src/Formatter.cc', 'src/Commands.cc', 'src/utils/CommandParsing.hh'], [('writes', 'src/Dispatcher.cc dispatchWrite'), ('reads', 'src/Dispatcher.cc dispatchRead'), ('malformed transactions', 'src/redis/Transaction.cc deserialize'), ('options of scans', 'src/utils/CommandParsing.hh')],
 [('command, arguments', 'the request', 'src/RedisRequest.hh'), ('status of a store operation', 'outcome to report', 'src/StateMachine.hh')], ['replies', 'store operations run and their arguments', 'raw database contents after refused requests'], 'The store operations, the formatter and the unpacking of transactions stand for their own contracts here. Commands of the replication layer and of connections are not part of this property.')

prop('C31', 'Each connection gets one reply per request, in order, and blocks run whole',
 'Whatever a client sends on one connection, in whatever pieces, it gets exactly as many replies as its requests call for, each to the right request, in the order the requests were sent, also when writes are still being replicated while later reads could be answered at once, and when the node loses leadership with requests pending. The requests of a MULTI block are acknowledged as queued, run as one transaction at EXEC, exactly those and in their order, or not at all after DISCARD; runs of pipelined writes may be grouped, which no client can tell. A notification sent to a connection never splits or overtakes a reply.',
 ['inputs', 'histories', 'schedules'], 'every sequence of requests of a connection and every order in which replicated writes complete, with leadership lost and notifications sent at any point',
 'tests send a few fixed pipelines; reads between pending writes, blocks pending when leadership is lost, and nested or unfinished blocks are barely sampled',
 ['src/Connection.cc', 'src/redis/MultiHandler.cc', 'src/redis/Transaction.cc'], [('queue of pending requests', 'src/Connection.cc PendingQueue'), ('blocks and grouping of writes', 'src/redis/MultiHandler.cc'), ('loop over requests', 'src/Connection.cc processRequests')],
 [('pending', 'requests waiting, with replies that must wait for them', 'src/Connection.hh'), ('activated, transaction', 'block being collected', 'src/redis/MultiHandler.hh')], ['bytes written to the connection', 'transactions handed to the dispatcher'], 'The dispatcher, the formatter and the request parser stand for their own contracts. Exclusion between threads is by the mutex of the queue, not modelled.')

prop('C07', 'Entries commit and leaders are elected and lead only with a quorum',
 'A leader declares an entry committed only when a majority of the full members, itself included, has acknowledged that entry and all before it in its own term, and never one of an earlier term unless an entry of its own term after it is. A node becomes leader of a term only with the votes of a majority of the full members for exactly that term and without a veto, and a leader out of contact with a majority for longer than the lease gives up; contact with a node counts from the moment the request it answered was sent. Observers count nowhere, and an answer that is late, missing or not understood never counts as agreement.',
 ['inputs', 'histories', 'schedules'], 'every cluster size and membership, every order, loss and delay of acknowledgements and votes, lagging and diverging replicas, membership changes and leadership lost at any point',
 'tests run three nodes without loss; even cluster sizes, leases at their end, entries of earlier terms, malformed answers and membership changed while leading are not covered',
 ['src/raft/RaftCommitTracker.cc', 'src/raft/RaftLease.cc', 'src/raft/RaftVoteRegistry.cc', 'src/raft/RaftUtils.cc', 'src/raft/RaftDirector.cc', 'src/raft/RaftReplicator.cc'], [('commit index from acknowledgements', 'src/raft/RaftCommitTracker.cc recalculateCommitIndex'), ('lease', 'src/raft/RaftLease.cc getDeadline'), ('outcome of an election', 'src/raft/RaftVoteRegistry.cc determineOutcome'), ('asking for votes', 'src/raft/RaftUtils.cc RaftElection'), ('stepping down', 'src/raft/RaftDirector.cc leaderLoop'), ('entries sent and acknowledged', 'src/raft/RaftReplicator.cc')],
 [('match index of each member', 'entries it acknowledged', 'src/raft/RaftCommitTracker.hh'), ('last contact of each member', 'when a request it answered was sent', 'src/raft/RaftLease.hh'), ('votes of a round', 'answer of each member', 'src/raft/RaftVoteRegistry.hh')], ['commit index of the leader', 'entries held by the members', 'role and term of a node', 'requests sent to other nodes'], 'Each function is proved for all inputs; interleavings of threads enter as arbitrary changes of the shared state at each read. The simulation samples schedules. What a replica does with the requests is not part of this property.')

prop('C08', 'Nodes accept entries, votes and writes only where this is safe',
 'A node takes entries only from the leader of the current term and only where they fit what it has: it keeps everything that agrees, replaces what does not, never overwrites a committed or applied entry, and declares committed nothing the leader did not send. It votes at most once per term, and only for a candidate whose journal is at least as complete and holds every entry it knows to be committed; requests of outsiders never disturb a working cluster, and nobody who did not prove to belong to the cluster is listened to. Only a leader that knows everything committed serves reads and writes, each write is answered once it is committed and applied and with its own reply, or refused when leadership is lost, none blocks its node, and a membership change is accepted only when a majority of the resulting members is up to date.',
 ['inputs', 'histories', 'schedules'], 'every sequence of entries, heartbeats and votes of any terms and indices from any node, client requests, membership changes and losses of leadership in between',
 'tests replay a few hand-written messages; entries left over from earlier terms, terms changing between a check and the write, unknown replicas and pending replies at a loss of leadership are not covered',
 ['src/raft/RaftDispatcher.cc', 'src/raft/RaftWriteTracker.cc', 'src/raft/RaftBlockedWrites.cc', 'src/raft/RaftCommon.hh'], [('entries of a leader', 'src/raft/RaftDispatcher.cc appendEntries'), ('votes', 'src/raft/RaftDispatcher.cc requestVote'), ('reads and writes of clients', 'src/raft/RaftDispatcher.cc service'), ('pending writes', 'src/raft/RaftWriteTracker.cc'), ('guard of membership changes', 'src/raft/RaftDispatcher.cc checkIfNodeRemovalAcceptable, dispatch')],
 [('blocked writes', 'connections waiting for an index', 'src/raft/RaftBlockedWrites.hh'), ('status of each replica', 'size of its journal and whether it is reachable', 'src/raft/RaftCommon.hh')], ['answers to other nodes', 'journal and commit index', 'replies to clients'], 'Each function is proved for all inputs with the state other threads may change read as arbitrary. The harness samples sequences, and races of writes with changes of leadership.')

prop('C16', 'A client\'s requests are understood the same however their bytes arrive',
 'Whatever the pieces in which the bytes of a connection arrive, the requests read from it are exactly those the stream spells out, each with the announced number of elements and every element byte for byte, in order, each as soon as its last byte is there, and they stay intact while later bytes are read. A stream that is malformed, announces sizes out of range, or has an empty request or element is refused where that shows, never crashes the server and never shifts or alters a request; so is a client that has not authenticated and announces five or more elements or one of a megabyte or more. Nothing is refused otherwise.',
 ['inputs', 'schedules'], 'every stream of bytes, well-formed or not, cut into pieces in any way, with or without authentication',
 'tests feed a few requests in fixed pieces; pieces that end within sizes and line ends, elements across several buffers and malformed sizes are barely sampled',
 ['src/RedisParser.cc', 'src/BufferedReader.cc'], [('sizes', 'src/RedisParser.cc readInteger'), ('elements and requests', 'src/RedisParser.cc fetch, readElement, readString'), ('bytes of the connection', 'src/BufferedReader.cc')],
 [('request_size, current_element, element_size, current_integer', 'how far the current request is read', 'src/RedisParser.hh'), ('buffers, position_read, position_write', 'bytes received and not yet read', 'src/BufferedReader.hh')], ['requests handed on', 'refusal of the connection'], 'Numbers are read as the C library reads them, so a plus sign is accepted. Elements within 128 KB of 2 GB are not covered.')
