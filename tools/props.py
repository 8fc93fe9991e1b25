import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
V='verifiable/'
p('C01','Every log tree head is the RFC 6962 Merkle root of the entries it covers',
 "For a user log, and for the mutation log and tree head log of a map, the tree head answered for any size n from 1 up to the current size is the RFC 6962 Merkle tree hash of the log's first n entries in index order (leaf hash = SHA-256 of byte 0 and the leaf input, node hash = SHA-256 of byte 1 and the two children). Size 0 stands for the latest size, and the latest head of a log that never received an entry has size 0 and no root hash.",
 ['inputs','histories'],'all sequences of additions, all sizes n up to the current one, all three log types',
 'The repository checks the roots of one log of 405 entries with one insertion pattern, and those tests do not even link here; the claim is about every history and every historical size, also of the two logs derived from a map.',
 [V+'insertion_log.go',V+'service_log_tree_hash.go',V+'util_service_data.go',V+'util_fetch_proofs.go','merkle/util_merkle.go'],
 [('incremental hashing with a stack of complete subtrees',V+'insertion_log.go:writeOutLogTreeNodes'),('tree head lookup by size',V+'service_log_tree_hash.go:LogTreeHash')],
 ['LogTreeHash response','LogFetchEntries response'],[('root hash by size','Merkle root per historical size','storage, written by addEntryToLog'),('object size','number of entries','storage, metadata/size')])
p('C02','Logs only grow: add appends once, re-adding is a no-op, entries never change',
 "Adding an entry whose leaf input is not yet in the log appends it at the end as exactly one new entry carrying the data given; adding one whose leaf input is already present changes nothing: not the size, the root, or the data stored with the first addition. Entries already in a log are never altered, reordered or removed, and each addition answers with the leaf hash of its leaf input.",
 ['inputs','histories'],'all interleavings of new and repeated additions with equal or different attached data, over any number of logs',
 'Existing tests add distinct entries only and look at sizes; no test re-adds an entry, and none re-reads old entries after growth.',
 [V+'insertion_log.go',V+'service_log_add_entry.go',V+'service_log_fetch_entries.go','mutator/instant/mutator_instant.go'],
 [('lookup of the leaf hash before insertion',V+'insertion_log.go:addEntryToLog'),('size written only when it changed','mutator/instant/mutator_instant.go:QueueMutation')],
 ['LogAddEntry response','LogFetchEntries response','LogTreeHash response'],[('index by leaf hash','leaf hash to index','storage')])
p('C03','Inclusion proofs are produced and verify for every entry at every tree size',
 "For every log type, every tree size n up to the current one (0 meaning current) and every index i below n, an inclusion proof is returned both by index and by leaf hash; it names index i and size n, is exactly the RFC 6962 audit path, and is accepted by the library's verifier against the tree head for n. A leaf hash that is not in the log yields no proof but a not-found error, and one that is in the log only beyond the requested size, or an out-of-range index, yields an error.",
 ['inputs','histories'],'all logs, all (i, n) with i < n <= size, by hash and by index',
 'Tests verify proofs only against the newest head of a 205 entry log; old sizes, lookup by index and unbalanced subtrees at their edges are sampled by accident, if at all.',
 [V+'service_log_inclusion_proof.go',V+'util_fetch_proofs.go','merkle/util_merkle.go',V+'api_highlevel_log.go'],
 [('path decomposition','merkle/util_merkle.go:Path'),('stored or computed subtree hashes',V+'util_fetch_proofs.go:fetchSubTreeHashes, calcSubTreeHash')],
 ['LogInclusionProof response','VerifyLogInclusionProof','VerifyInclusion'])
p('C04','Consistency proofs are produced and verify between every two sizes of a log',
 "For every log type and all sizes 1 <= m < n <= current size (n given as 0 meaning current), the consistency proof returned is exactly the RFC 6962 proof between m and n, and the library's verifier accepts it against the two tree heads. Requests with m < 1, m >= n or n above the current size yield an invalid-argument error.",
 ['inputs','histories'],'all logs and all pairs m < n up to the current size',
 'One pair (3, 7) is tested.',
 [V+'service_log_consistency_proof.go',V+'util_fetch_proofs.go','merkle/util_merkle.go'],
 [('subproof decomposition','merkle/util_merkle.go:SubProof'),('stored or computed subtree hashes',V+'util_fetch_proofs.go')],
 ['LogConsistencyProof response','VerifyLogConsistencyProof','VerifyConsistency'])
p('C05','Log proof verifiers accept only true statements and never crash',
 "Given tree heads that are the Merkle roots of real entry lists, the inclusion verifier accepts a (32-byte leaf hash, index, size, path) exactly when that leaf is at that index of the list and the path is its audit path, and the consistency verifier accepts exactly when the first list is a prefix of the second and the path is the consistency proof for those sizes. Any alteration of an index, size, leaf, root or path element is rejected with an error, and no content of a proof - empty, truncated, extended, negative or huge sizes - makes a verifier panic or loop.",
 ['inputs'],'all proofs an adversary can assemble, including every short combination of the hashes that occur in the trees',
 'No test ever gives a verifier a wrong proof.',
 [V+'service_log_inclusion_proof.go',V+'service_log_consistency_proof.go',V+'api_highlevel_log.go','merkle/util_merkle.go'],
 [('inclusion verification',V+'service_log_inclusion_proof.go:VerifyLogInclusionProof'),('consistency verification',V+'service_log_consistency_proof.go:VerifyLogConsistencyProof')],
 ['return value of the verifiers'])
p('C06','Entry fetches return exactly the requested range; bad ranges get clean errors',
 "Fetching [first, last) from a log returns exactly the entries with those indices, in order, with the leaf input, extra data and format they were stored with; last = 0 means the current size, a single-entry read returns that entry, and streaming entries delivers each index of the range once and in order. A range that is empty or reaches past the current size, or has a negative bound, is refused with an invalid-argument error and no entries; tree sizes that are negative or above the current size are refused the same way by tree head, inclusion proof, consistency proof and map requests.",
 ['inputs','histories'],'all ranges and sizes, in and out of bounds, over all logs and maps, at all sizes including empty, and ranges longer than one internal batch',
 'Tests read whole logs within bounds, by one path.',
 [V+'service_log_fetch_entries.go',V+'api_highlevel_wrapper.go',V+'service_log_tree_hash.go',V+'service_map_get_value.go',V+'service_map_tree_hash.go'],
 [('range checks',V+'service_log_fetch_entries.go:LogFetchEntries'),('batched streaming',V+'api_highlevel_wrapper.go:Entries')],
 ['LogFetchEntries','Log.Entry','Log.Entries','error codes'])
p('C07','Map contents are the in-order result of the mutation log at every size',
 "At every size n the value a map gives for any key is the result of applying the first n mutations in order to an empty map: set stores the value, delete removes it, and update stores its value only if the leaf hash of the key's current value equals the stated previous leaf hash (an absent key counting as the leaf hash of the empty string), otherwise leaving the map unchanged. A value is returned with its leaf input and the extra data and format supplied when that leaf input was first stored in the map, an absent key as an empty value, and size 0 means the latest size.",
 ['inputs','histories'],'all mutation sequences over keys whose hashed paths share prefixes of any length, read at all historical sizes',
 'The map stress tests drive internal insertion with synthetic paths, and API tests only set distinct keys and read at the head; updates, deletes followed by sets, and reads at old sizes are not covered.',
 [V+'insertion_map.go',V+'service_map_get_value.go',V+'service_map_set_value.go',V+'util_service_data.go'],
 [('descent to the fork and path copying',V+'insertion_map.go:setMapValue, descendToFork, writeAncestors'),('mutation semantics',V+'insertion_map.go:mutationLeafHash')],
 ['MapGetValue response','Map.Get / Set / Update / Delete'],[('map node by (size, path)','persistent sparse tree','storage, map_node/')])
p('C08','Every map root hash is the sparse Merkle root of the contents, however built',
 "The root hash a map answers for size n is the root of the 256-level sparse Merkle tree whose leaf for each present key (at the position given by the bits of the key's SHA-256) is the leaf hash of its value's leaf input and whose other leaves are the leaf hash of the empty string. It therefore depends only on the contents after n mutations and not on the order or history that led to them: a deleted or never-set key leaves no trace, and the root of an empty map, also before any mutation, is the empty-tree root.",
 ['inputs','histories'],'all mutation sequences, all historical sizes, all key sets including those with long shared path prefixes',
 'insertion_map_test compares the code with itself on random synthetic paths; there is no independent statement of what the root should be, and deletes are sampled.',
 [V+'insertion_map.go',V+'util_fetch_proofs.go',V+'service_map_tree_hash.go','merkle/util_merkle.go',V+'util_path.go'],
 [('node hash with default siblings',V+'util_fetch_proofs.go:calcNodeHash'),('default hashes','merkle/util_merkle.go:GenerateMapDefaultLeafValues')],
 ['MapTreeHash response','tree head log entries'])
p('C09','Map reads carry a proof that verifies, for present and absent keys alike',
 "For every key, set or never set or deleted, and every size n, the value answered comes with a 256-element audit path (empty elements standing for default hashes) that reconstructs the map root for size n from the value's leaf input, and the answer names that size; the library's verifier accepts it against the map tree head for n.",
 ['inputs','histories'],'all mutation sequences, keys and sizes',
 'Tests verify 2000 keys at one head of one set-only map; fork positions depend on hash prefixes that random keys reach only up to about 20 bits.',
 [V+'service_map_get_value.go',V+'util_fetch_proofs.go',V+'insertion_map.go',V+'util_path.go'],
 [('proof assembly',V+'service_map_get_value.go:MapGetValue')],
 ['MapGetValue response','VerifyMapInclusionProof','VerifiedGet'])
p('C10','The map proof verifier accepts only the true value and never crashes',
 "Given a map tree head whose root is that of real contents, the map proof verifier accepts a (key, value, size, path) only if the value's leaf input is what the contents hold for the key (empty for an absent key) and the size is the head's; any other value, key, size, root or path element is rejected. No response - wrong number of path elements, missing value, missing parts - makes it panic.",
 ['inputs'],'all altered responses: every single-element alteration, swapped keys, values, sizes, wrong lengths',
 'No test gives the verifier a wrong proof.',
 [V+'service_map_get_value.go',V+'api_highlevel_map.go'],
 [('verification',V+'service_map_get_value.go:VerifyMapInclusionProof')],
 ['return value of the verifier','VerifiedGet'])
p('C11','A map, its mutation log and its tree head log advance in lockstep',
 "After every accepted mutation the map's mutation log has gained exactly one entry - the requested action, key, value and previous leaf hash, in request order, its leaf input the object hash of the entry without the value's extra data - and the tree head log exactly one entry. Entry i of the tree head log states the map root for size i+1 together with the mutation log's size i+1 and root, equal to what the map answers for that size, and both logs and the map always report the same size; the leaf hash answered for the mutation is that of its mutation log entry.",
 ['histories','inputs'],'all mutation sequences including no-ops, conditional updates that fail, repeats and deletes of absent keys',
 'Tests never read the mutation log or tree head log entry by entry.',
 [V+'insertion_log.go',V+'service_map_set_value.go',V+'util_json.go',V+'service_map_tree_hash.go'],
 [('three-step application',V+'insertion_log.go:applyLogAddEntry'),('unique timestamped mutation entry',V+'service_map_set_value.go:makeJSONMutationEntry')],
 ['LogFetchEntries on the mutation and tree head logs','MapTreeHash response','MapSetValue response'])
p('C12','An answer given for a fixed size never changes as the object grows',
 "Once a tree head, map root, entry, value (leaf input, extra data and format), inclusion proof or consistency proof has been answered for an explicit size or index, the same request made at any later time, whatever has been added, set or deleted since and whether it was accepted or refused, returns the same content.",
 ['histories','inputs'],'all pairs of equal requests around any later operations, including operations that reuse the same leaf inputs with different attached data',
 'Needs pairs of observations separated by adversarially chosen growth; tests observe once.',
 [V+'insertion_log.go',V+'insertion_map.go',V+'util_service_data.go'],
 [('write-once, size-keyed records',V+'util_service_data.go'),('path copying',V+'insertion_map.go:writeAncestors')],
 ['all read responses'])
p('C13','The batching mutator applies every queued mutation exactly once, in order',
 "Every mutation accepted by the batching mutator is applied to the object it was queued for exactly once and in the order queued for that object, whatever the batch size, buffer size, timeout and interleaving of mutations for different logs and maps; none is lost, duplicated, reordered within an object or applied to another. The states it commits are states that applying a prefix of the queue one by one would give, and when the queue has drained the result equals that of the immediate mutator.",
 ['schedules','configurations','histories'],'all interleavings of mutations for several objects with batch boundaries and timeouts, all batch, buffer and timeout settings',
 'One test queues to a single log and then to a single map with one setting; object switches inside a batch never happen.',
 ['mutator/batch/mutator_batch.go','mutator/instant/mutator_instant.go',V+'service.go'],
 [('consumer loop with carried-over item','mutator/batch/mutator_batch.go:consume, handleBatch'),('write-back overlay','mutator/batch/mutator_batch.go:mapNoLockDB')],
 ['state read back through the service after the queue drains','storage transactions issued'],[('queue','pending mutations','batchMutatorImpl.Ch'),('seed','item read but not applied','consume')])
p('C14','Concurrent readers and writers see one linear history of consistent states',
 "With any number of concurrent callers, completed operations are explainable by a single order of the writes that respects real time: with immediate application each write takes effect once, between its call and its return, and each read - tree head, proof, entries, map value, map root - reflects exactly one state of its object, never a mixture of an older and a newer one, and no older than the writes that returned before it began. No schedule deadlocks, panics or leaves the object in a state that no serial order produces.",
 ['schedules'],'all interleavings of concurrent operations at the granularity of storage accesses',
 'All existing tests are single-threaded.',
 ['storage/memory/storage_memory.go','storage/bolt/storage_bolt.go','mutator/instant/mutator_instant.go',V+'service_map_get_value.go',V+'service_map_tree_hash.go',V+'service_log_inclusion_proof.go',V+'service_log_fetch_entries.go'],
 [('one storage transaction per request','ExecuteReadOnly / ExecuteUpdate callers'),('reader-writer locking','storage/memory/storage_memory.go')],
 ['call and return events of concurrent clients','storage transactions issued'])
p('C15','A mutation takes effect completely or not at all, through faults and restarts',
 "If a storage access fails, or the process stops, anywhere while a mutation is applied on a transactional store, the object afterwards is in the state before the mutation or the state after it, the caller is told of a failure, and later operations work normally - a retry applies the mutation once. On the durable stores a mutation that was acknowledged is still there after closing and reopening, with identical answers for every size.",
 ['crash_points','fault_sequences','histories'],'every storage access as failure point, for every kind of mutation, followed by retry and further growth; kill and reopen at arbitrary points',
 'No test injects a fault or reopens a store.',
 ['mutator/instant/mutator_instant.go','mutator/batch/mutator_batch.go','storage/bolt/storage_bolt.go','storage/badger/storage_badger.go',V+'insertion_log.go',V+'insertion_map.go'],
 [('single update transaction per mutation','mutator/instant/mutator_instant.go:QueueMutation'),('transaction commit or rollback','storage/bolt/storage_bolt.go:ExecuteUpdate')],
 ['answers after fault or reopen','returned errors'])
p('C16','Every storage backend provides isolated namespaces and transactions',
 "For each backend, a read of a key inside a transaction returns the value last written to it in the same namespace - by this transaction first, else by the last committed one - or a no-such-key error if it was never written or was deleted, byte for byte whatever the value, including empty ones; namespaces never see each other's keys. An update whose function returns nil is visible to every later transaction; a reader never observes part of an update and keeps one view for its whole transaction; updates of one namespace take place one at a time, however many callers there are, and each of them is applied; the errors of the function are returned to the caller; on the transactional backends (all but the in-memory one) an update whose function fails leaves no effect.",
 ['histories','schedules','inputs'],'all sequences and interleavings of transactions over several namespaces and keys, on the in-memory, Bolt, Badger and PostgreSQL backends',
 'Backends are only exercised through one log and one map on the in-memory store; Bolt, Badger and PostgreSQL are merely checked to implement the interface.',
 ['storage/memory/storage_memory.go','storage/bolt/storage_bolt.go','storage/badger/storage_badger.go','storage/postgres/storage-postgres.go',V+'storage_headers.go'],
 [('namespace to file, directory or table','getOrCreateDB, getOrCreateNS'),('transaction wrappers','ExecuteReadOnly, ExecuteUpdate')],
 ['results of Get, Set, ExecuteReadOnly, ExecuteUpdate'])
p('C17','A verifying log client never accepts a head inconsistent with one it holds',
 "When a client asks for a verified tree head giving the head it holds, whatever the server answers it obtains either an error or a head that is consistent with the one it holds; asking for the latest never yields a smaller tree than it holds, and its inclusion and supplied-proof checks succeed only for entries in the tree of the head used. With an honest server every such request for an existing size succeeds, for older, newer and equal sizes and also when the head it holds is that of the then empty log.",
 ['histories','fault_sequences','inputs'],'all answers of a server that may fork, roll back, truncate or alter heads and proofs at any step, and all honest histories and sizes',
 'No test runs the verifying client against a dishonest server; only honest growth in one direction is exercised.',
 [V+'api_highlevel_log.go',V+'service_log_consistency_proof.go',V+'service_log_inclusion_proof.go'],
 [('consistency check against the held head',V+'api_highlevel_log.go:VerifiedTreeHead, VerifyConsistency'),('monotonic latest head',V+'api_highlevel_log.go:VerifiedLatestTreeHead')],
 ['return values of VerifiedTreeHead, VerifiedLatestTreeHead, VerifyConsistency, VerifyInclusion, VerifySuppliedInclusionProof'])
p('C18','A log audit succeeds exactly when all entries between two heads are genuine',
 "Auditing the entries between a held head (or the start) and a newer head calls the callback once per entry, in index order with the right index, and succeeds if and only if the entries delivered are exactly those committed to by the newer head and continue the older one; missing, extra, altered or reordered entries, a wrong starting proof or an error from the callback make it fail. No answer of the server makes it panic.",
 ['inputs','fault_sequences','histories'],'all pairs of heads, and all single alterations a server can make to the entries or proofs it returns',
 'No test calls the audit.',
 [V+'api_highlevel_log.go',V+'api_highlevel_wrapper.go'],
 [('recomputation of the root from the audit path of the first new entry',V+'api_highlevel_log.go:VerifyEntries'),('entry streaming',V+'api_highlevel_wrapper.go:Entries')],
 ['return value and callback calls of VerifyEntries'])
p('C19','A map audit accepts honest maps, catches tampering, reports each real change',
 "Auditing a map between two states it was in succeeds for an honest map whatever its mutations; it fails if any map root, mutation log root or entry that the audited tree head log states differs from what replaying the mutation log gives. The value callback is called for every mutation replayed and the change callback exactly for those mutations that changed the map's contents, with the mutation's index, key and value, in order; no answer of the server makes the audit panic.",
 ['histories','inputs','fault_sequences'],'all mutation histories (no-ops, failed updates, returns to earlier contents), all start and end states, and all single alterations by the server',
 'No test calls the map audit.',
 [V+'util_map_audit.go',V+'api_highlevel_map.go',V+'util_json.go'],
 [('replay in an in-memory sparse tree',V+'util_map_audit.go:addMutationToTree, ProcessUntilAtLeast'),('comparison per tree head entry',V+'util_map_audit.go:CheckTreeHeadEntry')],
 ['return value and callback calls of VerifyMap'])
p('C20','Verified map states and values are only returned when proven',
 "A client that asks for a verified map state obtains, whatever the server answers, either an error or a state whose map head is an entry of a tree head log consistent with the state it held and whose mutation log is consistent too; the latest state never goes backwards. A verified read returns only the value that state's root commits to for the key, and against an honest server both always succeed, for every size, key and earlier state held, with no state for a map that has no mutations yet.",
 ['histories','fault_sequences','inputs'],'all honest histories and sizes, and all answers of a server that forks, rolls back or alters map heads, log heads, proofs or values',
 'One test fetches one state of an honest map.',
 [V+'api_highlevel_map.go',V+'util_map_tree_state.go',V+'api_highlevel_log.go',V+'service_map_tree_hash.go'],
 [('tree head log inclusion and double consistency',V+'api_highlevel_map.go:VerifiedMapState'),('verified read',V+'api_highlevel_map.go:VerifiedGet')],
 ['return values of VerifiedMapState, VerifiedLatestMapState, VerifiedGet'])
p('C21','Every operation requires its own permission and has no effect without it',
 "Each operation is carried out only if the access policy grants, for the account, key and object name of the request, the permission belonging to that operation: log add, entry read, tree head and consistency proof (hash read) and inclusion proof each have their own for user logs, mutation log entries need the mutation entry read permission, every other read of mutation and tree head logs the mutation hash read permission, map writes the map set and map reads and map heads the map get permission. A refused request gets a permission-denied error, reveals nothing and changes nothing, and no permission allows adding directly to a mutation or tree head log.",
 ['inputs','configurations'],'all operations x log types x granted permission sets',
 'One test tries four denied additions and one granted permission.',
 [V+'util_permissions.go',V+'service_log_add_entry.go',V+'service_log_fetch_entries.go',V+'service_map_set_value.go',V+'service_map_get_value.go',V+'service_map_tree_hash.go',V+'service_log_tree_hash.go',V+'service_log_inclusion_proof.go',V+'service_log_consistency_proof.go'],
 [('permission per operation and log type',V+'util_permissions.go:operationForLogType'),('check first in every handler','service_*.go')],
 ['response and error code of every operation','permission asked of the policy'])
p('C22','The static policy grants exactly what its first matching rule says',
 "The static policy grants a request exactly if some rule of the requested account lists the permission (or the all-permissions wildcard), has the request's API key or the key wildcard, and has a name pattern that globs the object name; an empty rule key matches no request, and anything not so granted is refused. The fields visible are those of the first such rule in configuration order, all of them only if that rule's list is the all-fields wildcard.",
 ['inputs','configurations'],'all small rule lists and requests',
 'Two rules and five requests are tested.',
 ['oracle/policy/authorization_static.go','oracle/policy/authorization_all.go'],
 [('nested first-match evaluation','oracle/policy/authorization_static.go:VerifyAllowed')],
 ['VerifyAllowed result'])
p('C23','Field filtering hides exactly the other fields and stays verifiable',
 "When a rule limits the visible fields, entries of user logs, values of maps and the values inside mutation log entries are returned with each top-level field outside the limit replaced by its hash, never the data itself, while permitted fields and the leaf input are unchanged and the leaf input still is the object hash of what is returned; data not declared as JSON is refused. Absent values, and mutations without a value, remain readable, and proofs and roots are the same for restricted and unrestricted readers.",
 ['inputs','configurations'],'all JSON objects, allowed-field subsets and log/map read operations, including deletes and absent keys',
 'One object with one filter is read from a user log; maps and mutation logs are not tried.',
 [V+'util_permissions.go',V+'service_log_fetch_entries.go',V+'service_map_get_value.go',V+'util_json.go'],
 [('filter applied to read values',V+'util_permissions.go:filterLeafData'),('mutation entries filtered inside',V+'service_log_fetch_entries.go:LogFetchEntries')],
 ['LogFetchEntries and MapGetValue responses under restricted policies'])
p('C24','Objects never influence each other',
 "Logs and maps that differ in account, in name or in kind (a log and a map of the same name) are independent: no operation on one - successful, refused, concurrent or failing - changes any answer given for another. The API key used plays no part in which object is addressed, and a map's mutation and tree head logs belong to that map alone.",
 ['inputs','histories'],'all pairs of objects, including names and accounts that are prefixes, concatenations or near-collisions of each other, and all interleavings of operations on them',
 'Tests use one log and one map at a time.',
 [V+'util_service_data.go','storage/memory/storage_memory.go','storage/bolt/storage_bolt.go','mutator/batch/mutator_batch.go'],
 [('namespace derivation',V+'util_service_data.go:logBucket, mapBucket'),('per-namespace storage','storage/*')],
 ['all responses for the other objects'])
p('C25','REST and gRPC give the same results and error kinds as direct calls',
 "Any sequence of requests the REST addresses can express gives, through the REST client and server or the gRPC client and server, the same observable results as direct calls on the service: the same heads, proofs, entries and values, the same effects on the object, and permission-denied, invalid-argument and not-found errors still told apart; over gRPC this holds for all requests. The REST convenience forms (raw, JSON and redactable bodies, text or hex keys, conditional updates by header) store and return what they document.",
 ['inputs','histories'],'all operation sequences through each transport, including binary keys and values, empty values, empty maps and error cases',
 'One log and one map smoke test through a REST-over-gRPC chain on the happy path.',
 ['server/httprest/client_http_rest.go','server/httprest/server_http_handler.go','server/grpc/client_grpc.go','server/grpc/server_grpc.go'],
 [('URL, body and header encoding','server/httprest/client_http_rest.go'),('decoding and error mapping','server/httprest/server_http_handler.go'),('pass-through','server/grpc/client_grpc.go')],
 ['responses and error codes through each transport'])
p('C26','Malformed requests are refused without effect and without crashing',
 "A request with a missing object, account, value or mutation, an unknown log type or an unknown mutation action, and a write to a service that has no mutator, is answered with an error rather than a crash, does not stop the service or its mutator, and leaves every object exactly as it was, so that all later requests behave as if it had never been made.",
 ['inputs','histories'],'all requests with parts missing or out of vocabulary, at any point of any history, with either mutator and over each transport',
 'No test sends a malformed request.',
 [V+'service_log_add_entry.go',V+'service_map_set_value.go',V+'insertion_map.go',V+'insertion_log.go','mutator/batch/mutator_batch.go',V+'util_service_data.go'],
 [('request checks','service_*.go'),('error on unknown action',V+'insertion_map.go:mutationLeafHash')],
 ['errors, and answers to later requests'])
p('C27','Waiting on an update returns only once it is provably included',
 "Waiting for a log addition returns a tree head that was shown to include that entry, and waiting for a map mutation returns a map head covering that mutation; waiting neither returns earlier nor fails to return once the update has been applied, however long application takes and whatever heads are seen meanwhile. Waiting for a map to reach a size returns a head of at least that size.",
 ['schedules','histories'],'all delays between acknowledgement and application, including growth by others in between',
 'Tests wait only on services that apply at once or within one poll.',
 [V+'api_highlevel_wrapper.go',V+'api_highlevel_log.go',V+'api_highlevel_map.go'],
 [('polling with inclusion check',V+'api_highlevel_log.go:BlockUntilPresent'),('polling by size',V+'api_highlevel_map.go:BlockUntilSize')],
 ['return values of Wait, BlockUntilPresent, BlockUntilSize'])
p('C28','JSON entry helpers produce leaf inputs that validate, also after redaction',
 "An entry made from JSON - plain, redactable, from an object or message, or from a mutation - validates against its own leaf input, and one whose data or leaf input was altered in any field does not; replacing fields by their hashes keeps it valid, and shedding redacted fields yields the original values of exactly the fields that were not redacted. For mutations the leaf input covers the action, key, previous leaf hash, timestamp and the value's leaf input but not its extra data or format.",
 ['inputs'],'all JSON documents, redaction subsets and single-field alterations',
 'Only one redactable object is created in tests; validation and shedding are not called.',
 [V+'util_json.go'],
 [('object hash construction',V+'util_json.go:CreateJSONLeafData*'),('validation',V+'util_json.go:ValidateJSONLeafData*')],
 ['return values of the helpers'])
p('C29','Binary path operations behave as operations on bit sequences',
 "A binary path represents a sequence of 0 to 256 bits: taking its length, reading a bit, slicing and joining give exactly the results of the same operations on bit sequences - for every length up to the full 256, any bounds and any byte alignment - the path of a key is the 256 bits of its SHA-256, most significant first, and equal sequences have equal encodings.",
 ['inputs'],'all paths of length 0 to 256, all slice bounds and all joins up to 256 bits',
 'The four unit tests use a handful of constants.',
 [V+'util_path.go','merkle/util_merkle.go'],
 [('packed encoding with length byte',V+'util_path.go:BPath')],
 ['results of Length, At, Str, Slice, BPathJoin, BPathFromKey, ConstructMapKeyPath'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert x['statement'].count('. ')<=3,x['id']
    if len(x['title'])>80: print(x['id'],len(x['title']))
print(len(P))
