----------------------------- MODULE BatchMutator -----------------------------
(* The batching mutator: callers put mutations into a bounded channel; a single *)
(* consumer takes them out, works out a batch of mutations of one object against *)
(* the state it read at the start, and stores the result in one transaction. A   *)
(* batch ends when it is full, when a mutation for another object comes out of   *)
(* the channel (it starts the next batch), or when nothing comes for a while.    *)
(* A mutation is its number; an object is the sequence of mutations applied.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Objs, MaxMuts, BatchSizes, BufferSizes

VARIABLES accepted,  \* object -> mutations accepted by the mutator, in order
          queue,     \* the channel
          pc, seed,  \* consumer: "idle", "batch" or "commit"; mutation it holds for the next batch
          cur, base, batch,  \* object of the batch, its state when read, what is added
          store,     \* object -> what is stored
          n, down,   \* mutations so far; the process has stopped
          bs, bu     \* batch and buffer size
conf == <<bs, bu>>
vars == <<bs, bu, accepted, queue, pc, seed, cur, base, batch, store, n, down>>

None == [o |-> "", id |-> 0]
Init == /\ accepted = [o \in Objs |-> <<>>] /\ queue = <<>> /\ pc = "idle" /\ seed = None
        /\ cur = "" /\ base = <<>> /\ batch = <<>> /\ store = [o \in Objs |-> <<>>] /\ n = 0 /\ down = FALSE
        /\ bs \in BatchSizes /\ bu \in BufferSizes

\* (with a buffer of 0 the consumer has to be waiting at the channel)
Waiting == (pc = "idle" /\ seed = None) \/ (pc = "batch" /\ Len(batch) < bs)
Room == Len(queue) < bu \/ (queue = <<>> /\ Waiting)
Queue(o) == /\ n < MaxMuts /\ Room
            /\ n' = n + 1
            /\ accepted' = [accepted EXCEPT ![o] = Append(@, n + 1)]
            /\ queue' = Append(queue, [o |-> o, id |-> n + 1])
            /\ UNCHANGED <<pc, seed, cur, base, batch, store>>
Take == /\ pc = "idle" /\ seed = None /\ queue # <<>>
        /\ seed' = Head(queue) /\ queue' = Tail(queue)
        /\ UNCHANGED <<accepted, pc, cur, base, batch, store, n>>
Begin == /\ pc = "idle" /\ seed # None
         /\ pc' = "batch" /\ cur' = seed.o /\ base' = store[seed.o] /\ batch' = <<seed.id>> /\ seed' = None
         /\ UNCHANGED <<accepted, queue, store, n>>
More == /\ pc = "batch" /\ Len(batch) < bs /\ queue # <<>>
        /\ queue' = Tail(queue)
        /\ IF Head(queue).o = cur
           THEN batch' = Append(batch, Head(queue).id) /\ UNCHANGED <<pc, seed>>
           ELSE pc' = "commit" /\ seed' = Head(queue) /\ UNCHANGED batch
        /\ UNCHANGED <<accepted, cur, base, store, n>>
Enough == /\ pc = "batch" /\ (Len(batch) >= bs \/ queue = <<>>)   \* full, or time is up
          /\ pc' = "commit"
          /\ UNCHANGED <<accepted, queue, seed, cur, base, batch, store, n>>
Commit == /\ pc = "commit"
          /\ store' = [store EXCEPT ![cur] = base \o batch]
          /\ pc' = "idle" /\ batch' = <<>> /\ base' = <<>> /\ cur' = ""
          /\ UNCHANGED <<accepted, queue, seed, n>>
Consumer == Take \/ Begin \/ More \/ Enough \/ Commit
Up == ~down /\ down' = FALSE /\ UNCHANGED conf
\* The process stops: what is not stored is gone
Stop == ~down /\ down' = TRUE /\ UNCHANGED <<bs, bu, accepted, queue, pc, seed, cur, base, batch, store, n>>
Next == (Up /\ ((\E o \in Objs : Queue(o)) \/ Consumer)) \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Up /\ Consumer)

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Of(o, s) == LET f == SelectSeq(s, LAMBDA m : m.o = o) IN [i \in 1..Len(f) |-> f[i].id]
\* Stored is always a prefix of what was accepted; the rest is on its way, in order
Prefixes == \A o \in Objs : IsPrefix(store[o], accepted[o])
OnItsWay == \A o \in Objs : accepted[o] = store[o] \o (IF cur = o THEN batch ELSE <<>>) \o Of(o, (IF seed = None THEN <<>> ELSE <<seed>>) \o queue)
BaseOK == pc # "idle" => base = store[cur]
Grows == [][\A o \in Objs : IsPrefix(store[o], store'[o])]_vars
\* Everything accepted is stored in the end, unless the process stops
Drains == (<>down) \/ \A o \in Objs, i \in 1..MaxMuts : [](i \in {accepted[o][j] : j \in 1..Len(accepted[o])} => <>(i \in {store[o][j] : j \in 1..Len(store[o])}))
=============================================================================
