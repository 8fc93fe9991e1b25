"""What each check consists of."""

ASSUMPTIONS = [
    'github.com/continusec/objecthash is replaced by a stand-in that follows the algorithm of the repository\'s JavaScript client',
    'SHA-256 has no collisions among the inputs used; TLC and its module overrides (checked by MCHash) are correct',
]


def maps_gen(q):
    return [
        ('GenMap', {'NK': 2, 'NV': 2, 'MaxLen': q(2, 3)}),
        ('GenMap', {'NK': 4, 'NV': 3, 'MaxLen': q(7, 9)}, q(60, 600), q(9, 11)),
        ('GenKVMap', {'SPECIFICATION': 'GSpec', 'VIEW': 'GView', 'Keys': '{"a", "b", "c", "d"}', 'Vals': '{}', 'NV': q(1, 2), 'MaxMut': 99, 'MaxLen': q(7, 9),
                      'Depth <-': 'MCDepth', 'KB <-': 'MCKB5'}),
    ]


MERKLE = lambda q: [('MCMerkle.cfg', 'MCMerkle'), ('MCHash.cfg', 'MCHash', True)]
VDSMC = lambda q: [(q('MCVDS.cfg', 'MCVDSdeep.cfg'), 'MCVDS'), ('MCHash.cfg', 'MCHash', True)]


MAPMC = lambda q: VDSMC(q) + [(q('MCKVMap.cfg', 'MCKVMapdeep.cfg'), 'KVMap')]


def vds(scen, *facets):
    return [{'scen': scen, 'module': 'TraceVDS', 'consts': {'KB': '<- TraceKB', 'Facets': '= {' + ', '.join('"%s"' % f for f in facets) + '}'}}]


CHECKS = {
    'C01': dict(note='Spec exhaustively checked (trees to 9 leaves symbolic); every head of real logs of all three kinds at every size (72, 270 entries; maps 34 mutations; memory, bolt, badger, batching mutator) equals the RFC 6962 root that TLC computes with SHA-256 over the entries read back. Sampled executions, not all sizes.',
                mc=MERKLE, traces=vds('C01', 'head')),
    'C02': dict(note='Real logs on four backends/mutators driven with fresh, repeated and look-alike entries; after every addition the complete contents and the head must be those of the specification.',
                mc=VDSMC, traces=vds('C02', 'grow')),
    'C03': dict(note="All (index, size) pairs of logs to 33 entries and samples to 300, all log kinds, by index and by hash: the proof must equal the audit path TLC computes, the library's verifier must accept it, and requests without a proof must fail with the specified error kind.",
                mc=MERKLE, traces=vds('C03', 'incl')),
    'C04': dict(note="All (from, size) pairs of logs to 34 entries and samples to 300, all log kinds, and all kinds of bad sizes: the proof must equal the RFC 6962 proof TLC computes, the library's verifier must accept it.",
                mc=MERKLE, traces=vds('C04', 'cons')),
    'C06': dict(note='All (first,last) of small logs of each kind, single reads, streams across the 500-entry batches, and out-of-range sizes of every request, compared with the contents last read completely.',
                mc=VDSMC, traces=vds('C06', 'fetch', 'range')),
    'C07': dict(note='Every history of 2 (thorough: 3) mutations over 2 keys and 2 values up to renaming, random model-generated and longer histories over keys whose positions share up to 51 bits; values of all keys at the latest and at every size equal those of the specification.',
                mc=MAPMC, gen=maps_gen, traces=vds('C07', 'get')),
    'C08': dict(note='Same histories as C07; the map root for the latest and every size equals the sparse Merkle root that TLC computes from the contents.',
                mc=MAPMC, gen=maps_gen, traces=vds('C08', 'mroot')),
    'C09': dict(note="Same histories as C07; every proof folds to the answered map root and is accepted by the library's verifier, for present, absent and deleted keys at every size.",
                mc=MAPMC, gen=maps_gen, traces=vds('C09', 'mproof')),
    'C11': dict(note='Same histories as C07; after every mutation both logs of the map are read back completely and compared with the specification, entry by entry, including leaf inputs recomputed as object hashes.',
                mc=MAPMC, gen=maps_gen, traces=vds('C11', 'lock')),
    'C12': dict(note='Interleaved growth of a log and a map; every answer for a fixed size is asked again after later operations and must be the same.',
                mc=MAPMC, traces=vds('C12', 'stable')),
    'C05': dict(note="Spec: exhaustively checked that the RFC 9162 procedures accept only truth over all paths from the universe of hashes of small trees. Code: the same universe enumerated through both real verifiers (trees to 4 and 5 leaves), and every kind of alteration of true proofs for all trees to 9 leaves and samples to 513, each verdict compared with what the entry lists imply.",
                mc=MERKLE, traces=[{'scen': 'C05', 'module': 'TraceVerify'}]),
    'C10': dict(note="Every kind of alteration (each of 256 path elements, lengths, values, keys, sizes, roots, missing parts) of true map proofs for maps over keys sharing long prefixes; every acceptance must be true and fold to the root as computed by TLC.",
                mc=VDSMC, traces=[{'scen': 'C10', 'module': 'TraceVerify'}]),
    'C29': dict(note="The packed representation is model checked to refine bit sequences for all paths up to the full length of a 3-bit byte; the real operations are run as a register machine over all short paths and long ones at all byte edges up to 256 bits, every result compared with the same operation on sequences.",
                mc=lambda q: [('MCBPath.cfg', 'MCBPath')], traces=[{'scen': 'C29', 'module': 'TraceBPath', 'consts': {'W': '= 8'}}]),
    'C28': dict(note="Laws of leaf inputs (determine the document, survive redaction, shedding gives back what was not redacted) model checked over all 496 small documents; the same documents and random ones run through every helper of the real code: all redactions, every kind of alteration of each field, malformed text; mutations in all shapes, each field altered. Hashes recomputed by TLC from the document trees.",
                mc=lambda q: [('MCJsonLeaf.cfg', 'MCJsonLeaf'), ('MCHash.cfg', 'MCHash', True)], gen=lambda q: [('GenJson', {})], traces=[{'scen': 'C28', 'module': 'TraceJson'}]),
    'C21': dict(note="Every operation on every kind of object, existing or not, under policies that grant exactly one (account, key, name, permission), everything but the needed one, or everything; directly and through REST and gRPC. The specification names the permission each operation needs; a refused request must say so, answer nothing and leave everything readable as it was.",
                mc=lambda q: [('MCPolicy.cfg', 'MCPolicy')], traces=[{'scen': 'C21', 'module': 'TraceAccess'}]),
    'C22': dict(note="The declarative policy is model checked against the rule by rule procedure and globs against their laws; the real policy is run on all patterns to length 3 (thorough: 4) over the special characters and longer random ones against 99 names, and on random policies and requests, each verdict and field list compared with the specification.",
                mc=lambda q: [('MCPolicy.cfg', 'MCPolicy')], traces=[{'scen': 'C22', 'module': 'TraceAccess'}]),
    'C23': dict(note="Documents enumerated from the specification and random ones in logs, maps and mutation logs, read under seven field lists and unrestricted; every value must be the filtered document of the specification with the same leaf input, proofs and roots the same.",
                mc=lambda q: [('MCJsonLeaf.cfg', 'MCJsonLeaf'), ('MCHash.cfg', 'MCHash', True)], gen=lambda q: [('GenJson', {})], traces=[{'scen': 'C23', 'module': 'TraceAccess'}]),
    'C24': dict(note="Logs and maps whose accounts, names and kinds look alike share a service (three backends, immediate and batching mutator); every object also lives alone in a service of its own that receives only its requests. Every answer must be the one given by the lonely twin, and answers asked again after writes, refusals, malformed and failing requests to other objects must be the same; also with all objects used concurrently.",
                mc=lambda q: [('MCFrame.cfg', 'MCFrame')], traces=[{'scen': 'C24', 'module': 'TraceTwin'}]),
    'C26': dict(note="Every kind of malformed request (missing parts, unknown log types and actions, raw HTTP bodies, headers, numbers and paths) is sent to services on three backends with the immediate and the batching mutator, directly and through REST and gRPC, between and at the same time as well-formed requests; each must be refused, and every later answer must be that of a twin service that never received them. Writes to a service without mutator likewise.",
                mc=lambda q: [('MCFrame.cfg', 'MCFrame')], traces=[{'scen': 'C26', 'module': 'TraceTwin'}]),
    'C13': dict(note="The batching mutator (bounded channel, one consumer, seed carried over, read/commit transactions, process stop) is model checked: what is stored is always a prefix of what was accepted, in order, and drains. Schedules enumerated from that specification are replayed into the real mutator through a store that holds it at each transaction, and it is run freely with many callers over batch sizes, buffers, timeouts and backends; after every stored update the complete contents of the objects (entries, map and log roots) must be the result of applying one by one a longer prefix of what was queued, and finally all of it and equal to the immediate mutator.",
                mc=lambda q: [(q('MCBatch.cfg', 'MCBatchdeep.cfg'), 'BatchMutator')],
                gen=lambda q: [('GenBatch', dict(SPECIFICATION='GSpec', Objs='{"a", "b"}', MaxMuts=20, BatchSizes='{1,2,3}', BufferSizes='{1,3}', MaxLen=q(5, 7))),
                               ('GenBatch', dict(SPECIFICATION='GSpec', Objs='{"a", "b"}', MaxMuts=20, BatchSizes='{1,2,3,5}', BufferSizes='{0,1,2,4}', MaxLen=14), q(120, 1500), 60)],
                traces=[{'scen': 'C13', 'module': 'TraceBatch', 'consts': {'KB': '<- TraceKB'}}]),
    'C16': dict(note="Versions of namespaces, snapshots and serial updates are model checked; all schedules of two transactions with 5 (thorough: 6) steps and random longer ones over three transactions and two keys, generated from the specification, are run on the real memory, bolt, badger and Postgres backends (the latter against a stand-in server with PostgreSQL's isolation levels and table locks), with transactions held open at each step, plus freely concurrent callers, look-alike keys and namespaces, empty and binary values and reopening; every read must be one that the specification allows.",
                mc=lambda q: [('MCStoragedeep.cfg', 'Storage')] + q([], [('MCStorage.cfg', 'Storage')]),
                gen=lambda q: [('GenStorage', dict(Slots='{1,2}', Keys='{1}', MaxLen=q(5, 6))),
                               ('GenStorage', dict(Slots='{1,2,3}', Keys='{1,2}', MaxLen=16), q(150, 2000), 40)],
                traces=[{'scen': 'C16', 'module': 'TraceStorage'}]),
    'C15': dict(note="The storage accesses of an addition, with a failure at any of them and a process stop at any point, are model checked (log kept in a key-value store; contents, heads and proofs stay those of the entries that took effect). On the real code every storage access (begin, each read, each write, commit) of every mutation of random histories is made to fail in turn, on bolt, badger and Postgres, followed by complete reads, other writes, reopening and the retry; reads are made to fail in the same way; stores are reopened in the course of growth; processes are killed at random points and their stores reopened; a process with the batching mutator fails or stops at any access of any batch, and others go on from what it left, queueing what was lost again. All answers at all sizes must be those of the specification for the writes that took effect.",
                mc=lambda q: [(q('MCKVLog.cfg', 'MCKVLogdeep.cfg'), 'KVLog'), (q('MCBatch.cfg', 'MCBatchdeep.cfg'), 'BatchMutator'), ('MCHash.cfg', 'MCHash', True)],
                traces=vds('C15', 'head', 'grow', 'incl', 'cons', 'fetch', 'range', 'get', 'mroot', 'mproof', 'lock', 'stable')),
    'C14': dict(note="Callers, transactions and answers are model checked and the procedure that judges histories is shown to accept exactly the linearizable ones (it refuses those of systems without isolation). Schedules of 2 and 3 callers generated from the specification are replayed on the real service with callers held before, after and (finer) inside their transactions; many callers run freely on four backends, REST, gRPC and the batching mutator with delays inside transactions, through several services over one storage (one of them without mutator). Every answer must be that of one state on the way to the final contents, in an order that respects real time.",
                mc=lambda q: [(q('MCLinear.cfg', 'MCLineardeep.cfg'), 'Linear')],
                gen=lambda q: [('GenLin', dict(NP=3, Steps=1, MaxReads=2)), ('GenLin', dict(NP=2, Steps=2, MaxReads=1)),
                               ('GenLin', dict(NP=2, Steps=3, MaxReads=1))] + q([], [('GenLin', dict(NP=2, Steps=5, MaxReads=1)), ('GenLin', dict(NP=4, Steps=2, MaxReads=3), 3000, 20)]),
                traces=[{'scen': 'C14', 'module': 'TraceLin', 'consts': {'KB': '<- TraceKB'}}]),
    'C17': dict(note="The conclusions of the client are model checked: for every held head of a small log, every head over and every proof from the universe of hashes of its trees, forks and strangers, what is accepted continues or is continued by what was held. The real client is put before a scripted server that gives every head and proof of a log, four forks, mislabelled and made-up ones, for every held head (240 000 calls), before servers that fork, roll back and mix at random, and before real services of all kinds at all sizes; every acceptance is judged against the lists of entries, and every honest request must succeed.",
                mc=lambda q: [(q('MCClient.cfg', 'MCClientdeep.cfg'), 'MCClient'), ('MCHash.cfg', 'MCHash', True)],
                traces=[{'scen': 'C17', 'module': 'TraceClient'}]),
    'C18': dict(note="The audit (stack of subtrees from the starting proof, folded to the newer head) is model checked to accept exactly the true starting proof and exactly the true entries, over all proofs and entry sequences from the hashes of small trees. The real audit runs over all pairs of heads of logs to 14 (thorough: 22) entries and samples to 1004, with every kind of alteration of entries, answers, proofs and heads, callback failures, and real services; the callback's calls and the result are judged against the lists of entries.",
                mc=lambda q: [(q('MCClient.cfg', 'MCClientdeep.cfg'), 'MCClient'), ('MCHash.cfg', 'MCHash', True)],
                traces=[{'scen': 'C18', 'module': 'TraceClient'}]),
    'C19': dict(note="The map, its logs and what a history changes are model checked. The real audit runs between all pairs of tree heads of made-up maps (every kind of step that changes nothing included) and of real services on all backends and transports, with servers whose mutation log grows meanwhile, and with every kind of alteration of mutation entries, tree heads, their trees and their order, and callback failures; from the delivered entries the specification computes which audits may succeed, and every call that the callbacks must have got.",
                mc=VDSMC, traces=[{'scen': 'C19', 'module': 'TraceMapClient', 'consts': {'KB': '<- TraceKB'}}]),
    'C20': dict(note="The map and its logs are model checked. The real client asks for verified states and values before scripted servers that hold a map and forks of it, roll back, answer for other sizes, mix answers, and alter every field, holding every kind of earlier state, in random chains and before real services; every state that it returns must be logged in the tree head log of the map or a fork, be continued by or continue the state held, and carry the values of its contents; honest requests must succeed.",
                mc=VDSMC, traces=[{'scen': 'C20', 'module': 'TraceMapClient', 'consts': {'KB': '<- TraceKB'}}]),
    'C25': dict(note="The REST interface is specified (body forms, keys, headers, what is shown of an entry, statuses) on top of the service's state machine; raw HTTP requests of every form, well-formed and not, are sent to the real server and each answer and effect compared. The REST and gRPC clients, and REST in front of gRPC, run random histories over three policies and three backends next to direct calls and to a twin service without transport: every answer and every kind of error must be the same.",
                mc=lambda q: [('MCFrame.cfg', 'MCFrame'), ('MCHash.cfg', 'MCHash', True)] ,
                traces=[{'scen': 'C25rest', 'module': 'TraceRest', 'consts': {'KB': '<- TraceKB'}}, {'scen': 'C25twin', 'module': 'TraceTwin'}]),
    'C27': dict(note="One who waits (polls heads, looks for the entry in the tree of each that is newer than all before) is model checked with a service that applies the update late, lets others extend the log and answers with heads that are out of date: a head that is returned has the entry, none that has it is passed over, and waiting ends. Every schedule of polls to a bound, generated from the specification, and longer ones with servers that do not prove what they should, are run on the real client in virtual time, as are services that apply after random delays with many callers; the batching mutator behind all transports in real time. Every head returned must have been shown to have the entry, and the client must return once it is shown.", virtual=True,
                mc=lambda q: [(q('MCWait.cfg', 'MCWaitdeep.cfg'), 'Wait'), ('MCHash.cfg', 'MCHash', True)],
                gen=lambda q: [('GenWait', dict(SPECIFICATION='GSpec', MaxN=q(4, 5), Want=9, MaxPolls=q(4, 5)))],
                traces=[{'scen': 'C27', 'module': 'TraceWait'}]),
    'C30': dict(note="What a client may conclude is model checked (as for C17 and C18). The JavaScript client that the server ships runs under node with a stand-in for XMLHttpRequest and timers whose requests the real REST server answers, in front of the scripted services of C17 and C18 and real ones: heads, consistency, inclusion, audits, waiting, adding, reading, sizes beyond 2^31 and 2^32 and mangled answers; every acceptance is judged against the lists of entries, honest requests must succeed, with exactly one call back each, and failures must have the documented reason.",
                mc=lambda q: [(q('MCClient.cfg', 'MCClientdeep.cfg'), 'MCClient'), ('MCHash.cfg', 'MCHash', True)],
                traces=[{'scen': 'C30', 'module': 'TraceClient'}]),
    'C31': dict(note="The map, its logs and the laws of leaf inputs are model checked. The JavaScript client that the server ships runs under node against the real REST server in front of scripted maps with forks (as for C20) and real services: states, values, setting, waiting, mangled answers; what it returns must be logged, continue what was held and carry the values of its contents. Its object hash, leaf hashes and shedding are compared with those of the specification on the documents that the specification enumerates and random ones, all redactions included.",
                mc=lambda q: VDSMC(q) + [('MCJsonLeaf.cfg', 'MCJsonLeaf')], gen=lambda q: [('GenJson', {})],
                traces=[{'scen': 'C31map', 'module': 'TraceMapClient', 'consts': {'KB': '<- TraceKB'}}, {'scen': 'C31json', 'module': 'TraceJson'}]),
    'C32': dict(note="The program's doors (transports, encryption, certificates) and its life - writes sent, stored, answered, the process killed at any moment and started again - are model checked: what was acknowledged or read stays, and nobody comes in by a door that the configuration does not open. The vdbserver binary is built and run as a process with generated configuration files (and without one); callers try every door, ask random requests with all keys over every transport, next to a twin service with the same accounts and rules, and write from many callers until it is killed; after each restart the number of writes found and every answer must be those that the specification allows.", server=True,
                mc=lambda q: [(q('MCServer.cfg', 'MCServerdeep.cfg'), 'MCServer')],
                traces=[{'scen': 'C32', 'module': 'TraceServer'}]),
}
