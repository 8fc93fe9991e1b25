-------------------------------- MODULE TraceLin --------------------------------
(* Histories of concurrent callers of the real service. A history starts with    *)
(* what its objects contained in the end, complete reads of their logs; then     *)
(* follow the calls and returns in the order in which the driver saw them.       *)
(* Every operation has to be explained by one of the states that the object went *)
(* through on its way to the final contents (VDS), as LinJudge says.             *)
EXTENDS Observed, LinJudge, Json, IOUtils

NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])
TraceKeys == LET T == Traces
             IN UNION {{T[i][j].key : j \in {x \in 1..Len(T[i]) : T[i][x].ev = "keys"}} : i \in 1..Len(T)}
TraceKB == TLCEval([k \in TraceKeys |-> KeyBits(k)])

VARIABLES t, l, objs, js, deferred
vars == <<t, l, objs, js, deferred>>

------------------------------------------------------------------------------
(* The objects: what they contained in the end                                  *)


Places(hs) == [h \in {hs[i] : i \in 1..Len(hs)} |-> CHOOSE i \in 1..Len(hs) : hs[i] = h]
NoDup(hs) == \A i, j \in 1..Len(hs) : i # j => hs[i] # hs[j]
Has(f, x) == x \in DOMAIN f

Known(e) == IF Has(objs, e.o) THEN objs[e.o]
            ELSE [obj |-> IF e.kind = "map" THEN EmptyMap ELSE EmptyLog, pos |-> [x \in {} |-> 0], dump |-> [x \in {} |-> <<>>]]
FinalObj(e) == CASE e.lt = "log" -> AppendAll(EmptyLog, Pairs(e.v))
                 [] e.lt = "mut" -> ApplyMuts(EmptyMap, AsMuts(e.v))
                 [] e.lt = "head" -> Known(e).obj
FinalOK(e) ==
    /\ e.code = (IF e.v = <<>> THEN "InvalidArgument" ELSE "OK")
    /\ CASE e.lt = "log" -> NoDup([i \in 1..Len(e.v) |-> e.v[i].li])
         [] e.lt = "mut" -> (\A i \in 1..Len(e.v) : MutEntryOK(e.v[i])) /\ NoDup([i \in 1..Len(e.v) |-> e.v[i].li])
         [] e.lt = "head" -> LET o == Known(e).obj
                             IN Len(e.v) = Size(o) /\ \A i \in 1..Len(e.v) : HeadEntryIs(e.v[i], o, i)
FinalUpd(e) == LET k == Known(e)
                   o == FinalObj(e)
               IN (e.o :> [obj |-> o, pos |-> Places(Hs(o, "log")), dump |-> (e.lt :> e.v) @@ k.dump]) @@ objs

\* The object after its first n writes (the levels of its trees serve for all of them)
Cut(s, n) == SubSeq(s, 1, n)
At(o, n) == IF o.kind = "log" THEN [o EXCEPT !.ents = Cut(@, n), !.hs = Cut(@, n)]
            ELSE [o EXCEPT !.muts = Cut(@, n), !.cont = Cut(@, n), !.roots = Cut(@, n), !.hs = Cut(@, n), !.ths = Cut(@, n)]

------------------------------------------------------------------------------
(* Answers                                                                      *)

CodeOK(e, a) == IF a.code = "ERR" THEN e.code \notin {"OK", "PANIC", "HANG", "NIL"} ELSE e.code = a.code
MapProof(e) == FoldSparse(KB[e.key], LeafH(e.li), e.path, Depth)
\* Is this what object o answers?
Right(e, o, dump, fold) ==
    CASE e.ev = "head" -> LET a == HeadAns(o, e.lt, e.size)
                          IN CodeOK(e, a) /\ (a.code = "OK" => e.rs = a.rs /\ e.root = a.root)
      [] e.ev = "incl" -> LET a == IF e.by = "index" THEN InclIndexAns(o, e.lt, e.size, e.idx) ELSE InclHashAns(o, e.lt, e.size, e.h)
                          IN CodeOK(e, a) /\ (a.code = "OK" => e.ri = a.ri /\ e.rs = a.rs /\ e.path = a.path)
      [] e.ev = "cons" -> LET a == ConsAns(o, e.lt, e.from, e.size)
                          IN CodeOK(e, a) /\ (a.code = "OK" => e.rf = a.rf /\ e.rs = a.rs /\ e.path = a.path)
      [] e.ev = "fetch" -> LET a == FetchRange(o, e.first, e.last)
                           IN CodeOK(e, a) /\ (a.code = "OK" => Len(e.v) = a.b - a.a /\ e.v = SubSeq(dump[e.lt], a.a + 1, a.b))
      [] e.ev = "get" -> LET a == GetAns(o, e.key, e.size)
                         IN CodeOK(e, a) /\ (a.code = "OK" => /\ e.rs = a.rs /\ e.li = a.li /\ e.ex = a.ex /\ e.fmt = a.fmt
                                                              /\ e.plen = 256 /\ fold = MRoot(o, a.rs))
      [] e.ev = "mhead" -> LET a == MapHeadAns(o, e.size)
                           IN CodeOK(e, a) /\ (a.code = "OK" => e.root = a.root /\ e.ms = a.ms /\ e.mroot = a.mroot)

\* What a write did, if it took place where it stands in the end
Did(e, k, p) ==
    CASE e.ev = "add" -> e.lh = LeafH(e.li) /\ k.obj.ents[p] = [li |-> e.li, ex |-> e.ex, fmt |-> e.fmt]
      [] e.ev = "set" -> MutEntryIs(k.dump["mut"][p], [act |-> e.act, key |-> e.key, hv |-> e.hv, li |-> e.li, ex |-> e.ex, fmt |-> e.fmt, prev |-> e.prev, lh |-> e.lh])

\* States that explain an operation
PosOf(e) == LET k == objs[e.o] IN IF e.w = "" \/ ~Has(k.pos, e.w) THEN 0 ELSE k.pos[e.w]
Cand(e, k, j) ==
    IF e.a.ev \in {"add", "set"}
    THEN LET p == IF Has(k.pos, e.a.lh) THEN k.pos[e.a.lh] ELSE 0
         IN IF e.a.code # "OK" \/ p = 0 THEN {}
            ELSE IF ~Did(e.a, k, p) THEN {}
            ELSE IF e.a.ev = "add" THEN JAdd(j, e.id, p) ELSE JWrite(j, e.id, p)
    ELSE LET fold == IF e.a.ev = "get" /\ e.a.code = "OK" THEN MapProof(e.a) ELSE ""
         IN {n \in JRange(j, e.id) : Right(e.a, At(k.obj, n), k.dump, fold)}
RetCand(e) == Cand(e, objs[e.o], js[e.o])

Conforms(e) ==
    CASE e.ev = "final" -> FinalOK(e)
      [] e.ev = "ret" -> RetCand(e) # {}
      [] e.ev = "end" -> \A o \in DOMAIN objs : js[o].called = 1..Size(objs[o].obj)
      [] e.ev = "crash" -> FALSE
      [] OTHER -> TRUE

Empty == [x \in {} |-> 0]
Init == t \in 1..NTraces /\ l = 1 /\ objs = Empty /\ js = Empty /\ deferred = FALSE
Upd(e) ==
    CASE e.ev = "begin" -> objs' = Empty /\ js' = Empty /\ deferred' = e.deferred
      [] e.ev = "final" -> objs' = FinalUpd(e) /\ js' = (e.o :> JStart) @@ js /\ UNCHANGED deferred
      [] e.ev = "call" -> js' = [js EXCEPT ![e.o] = JCall(@, e.id, PosOf(e))] /\ UNCHANGED <<objs, deferred>>
      [] e.ev = "ret" -> /\ js' = [js EXCEPT ![e.o] = JRet(@, e.id, IF deferred /\ e.a.ev \in {"add", "set"} THEN {} ELSE RetCand(e))]
                         /\ UNCHANGED <<objs, deferred>>
      [] OTHER -> UNCHANGED <<objs, js, deferred>>
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF Conforms(e) THEN l' = l + 1 /\ t' = t /\ Upd(e)
              ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
