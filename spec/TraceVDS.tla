------------------------------- MODULE TraceVDS -------------------------------
(* Validation of traces of the real service against VDS. A trace is a sequence  *)
(* of requests with their answers, recorded at the public API by the driver in  *)
(* harness/. Every event is checked against the answer that VDS gives. Events   *)
(* of kind "ents" (a complete read of a log) tell what the object contains, so   *)
(* that one property can be judged when another one does not hold: unless a      *)
(* facet that judges contents is selected, the specification adopts what was     *)
(* observed and goes on from there. TLC walks every trace; an event that VDS     *)
(* does not explain is reported as <<"REJECT", trace, line>>.                    *)
(*                                                                              *)
(* Facets selects what is judged:                                               *)
(*   head    tree heads of logs are RFC 6962 roots                        (C01) *)
(*   grow    what additions do to a log; logs only grow                   (C02) *)
(*   incl    inclusion proofs                                             (C03) *)
(*   cons    consistency proofs                                           (C04) *)
(*   fetch   entry reads                                                  (C06) *)
(*   range   sizes out of range                                           (C06) *)
(*   get     map values                                                   (C07) *)
(*   mroot   map roots                                                    (C08) *)
(*   mproof  map proofs                                                   (C09) *)
(*   lock    map, mutation log and tree head log in lockstep              (C11) *)
(*   stable  answers for a fixed size never change                        (C12) *)
(*   frame   answers of an object only change by requests to it      (C24, C26) *)
(* C15 selects most of them; its traces have additions and mutations that fail   *)
(* (field f), ones whose outcome nobody was told (amb) and restarts (reopen).    *)
EXTENDS Observed, TLC, Json, IOUtils

CONSTANTS Facets

NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])

\* Key positions of all keys that occur
KeyEvents == {"set", "get", "keys"}
KeysOf(e) == IF e.ev \in KeyEvents THEN {e.key}
             ELSE IF e.ev = "ents" THEN IF e.lt = "mut" THEN {e.v[x].key : x \in 1..Len(e.v)} ELSE {}
             ELSE {}
TraceKeys == LET T == Traces
             IN UNION {UNION {KeysOf(T[i][j]) : j \in 1..Len(T[i])} : i \in 1..Len(T)}
TraceKB == TLCEval([k \in TraceKeys |-> KeyBits(k)])

VARIABLES t, l, objs, seen
vars == <<t, l, objs, seen>>

On(f) == f \in Facets
Judge(f, cond) == On(f) => cond

Obj(e) == IF e.o \in DOMAIN objs THEN objs[e.o] ELSE IF e.kind = "map" THEN EmptyMap ELSE EmptyLog
SetObj(e, o) == [x \in (DOMAIN objs) \cup {e.o} |-> IF x = e.o THEN o ELSE objs[x]]

Crash == {"PANIC", "HANG", "CRASH"}

------------------------------------------------------------------------------
(* What an answer has to look like                                              *)

CodeOK(e, a) == IF a.code = "ERR" THEN e.code \notin {"OK"} \cup Crash ELSE e.code = a.code

HeadOK(e) == LET a == HeadAns(Obj(e), e.lt, e.size)
             IN a.code = "OK" => e.code = "OK" /\ e.rs = a.rs /\ e.root = a.root

InclOK(e) == LET a == IF e.by = "index" THEN InclIndexAns(Obj(e), e.lt, e.size, e.idx) ELSE InclHashAns(Obj(e), e.lt, e.size, e.h)
             IN CodeOK(e, a) /\ (a.code = "OK" => e.ri = a.ri /\ e.rs = a.rs /\ e.path = a.path /\ e.ver = "OK")

ConsOK(e) == LET a == ConsAns(Obj(e), e.lt, e.from, e.size)
             IN CodeOK(e, a) /\ (a.code = "OK" => e.rf = a.rf /\ e.rs = a.rs /\ e.path = a.path /\ e.ver = "OK")

Wanted(e) == IF e.ev = "stream" THEN [code |-> "OK", a |-> e.first, b |-> e.last] ELSE FetchRange(Obj(e), e.first, e.last)
\* The entries of a range, as the last complete read showed them
FetchOK(e) == LET a == Wanted(e)
                  q == <<"dump", e.o, e.lt>>
                  d == IF q \in DOMAIN seen THEN seen[q] ELSE <<>>
              IN /\ CodeOK(e, a)
                 /\ e.code # "OK" => e.v = <<>>
                 /\ a.code = "OK" => a.b <= Len(d) /\ e.v = SubSeq(d, a.a + 1, a.b)

GetOK(e) == LET a == GetAns(Obj(e), e.key, e.size)
            IN CodeOK(e, a) /\ (a.code = "OK" => /\ e.rs = a.rs /\ e.li = a.li
                                                 /\ e.ex = a.ex /\ e.fmt = a.fmt)

\* The path folds the value up to the root that the map answers for this size (e.mr), and the library's verifier agrees
InRange(e) == e.size >= 0 /\ e.size <= Size(Obj(e))
MapProofOK(e) == InRange(e) =>
                    /\ e.code = "OK" /\ e.mcode = "OK"
                    /\ e.rs = (IF e.size = 0 THEN Size(Obj(e)) ELSE e.size)
                    /\ e.plen = 256
                    /\ FoldSparse(KB[e.key], LeafH(e.li), e.path, Depth) = e.mr
                    /\ e.ver = "OK"

MapHeadOK(e) == InRange(e) => e.code = "OK" /\ e.root = MapHeadAns(Obj(e), e.size).root

\* Sizes out of range are refused as such, by every request that has one
Asked(e) == IF e.ev = "cons" THEN {e.from, e.size} ELSE {e.size}
RangeOK(e) == (\E s \in Asked(e) : s < 0 \/ s > Size(Obj(e))) => e.code = "InvalidArgument"

LockHead(e) == e.size = 0 /\ e.lt # "log" => e.code = "OK" /\ e.rs = Size(Obj(e))
LockMapHead(e) == InRange(e) => LET a == MapHeadAns(Obj(e), e.size)
                                IN e.code = "OK" /\ e.ms = a.ms /\ e.mroot = a.mroot /\ e.root = a.root

------------------------------------------------------------------------------
(* Contents: judged when the facet is selected, adopted otherwise               *)


Extends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

FreshLog(s) == LET hs == TLCEval([i \in 1..Len(s) |-> LeafH(s[i].li)])
               IN [EmptyLog EXCEPT !.ents = s, !.hs = hs, !.lv = Levels(hs)]
AdoptLog(o, v) ==
    LET s == TLCEval(Pairs(v))
    IN IF o.ents = <<>> THEN FreshLog(s) ELSE IF Extends(s, o.ents) THEN AppendAll(o, SubSeq(s, Len(o.ents) + 1, Len(s))) ELSE FreshLog(s)

AdoptMap(o, v) ==
    LET s == TLCEval(AsMuts(v))
    IN IF Extends(s, o.muts) THEN ApplyMuts(o, SubSeq(s, Len(o.muts) + 1, Len(s))) ELSE ApplyMuts(EmptyMap, s)

\* The tree head log as observed (only when it is not judged)
AdoptHeads(o, v) == LET hs == [i \in 1..Len(v) |-> LeafH(v[i].li)]
                    IN IF hs = o.ths THEN o ELSE [o EXCEPT !.ths = hs, !.tlv = Levels(hs)]

EntsCode(e) == IF e.v = <<>> THEN e.code = "InvalidArgument" ELSE e.code = "OK"
DumpQ(e) == <<"dump", e.o, e.lt>>

EntsOK(e) ==
    LET o == Obj(e)
    IN /\ EntsCode(e)
       /\ Judge("fetch", e.n >= 0 => Len(e.v) = e.n)      \* n: the size that the head stated
       /\ (On("grow") \/ On("stable")) => (DumpQ(e) \in DOMAIN seen => Extends(e.v, seen[DumpQ(e)]))
       /\ CASE e.lt = "log" ->
               Judge("grow", Len(e.v) = Len(o.ents) /\ \A i \in 1..Len(e.v) : Pairs(e.v)[i] = o.ents[i])
            [] e.lt = "mut" ->
               /\ \A i \in 1..Len(e.v) : e.v[i].okp
               /\ Judge("lock", Len(e.v) = Len(o.muts) /\ \A i \in 1..Len(e.v) : MutEntryIs(e.v[i], o.muts[i]))
            [] e.lt = "head" ->
               Judge("lock", Len(e.v) = Len(o.muts) /\ \A i \in 1..Len(e.v) : HeadEntryIs(e.v[i], o, i))

EntsUpd(e) ==
    LET o == Obj(e)
    IN CASE e.lt = "log" -> IF On("grow") THEN objs ELSE SetObj(e, AdoptLog(o, e.v))
         [] e.lt = "mut" -> IF On("lock") THEN objs ELSE SetObj(e, AdoptMap(o, e.v))
         [] e.lt = "head" -> IF On("lock") THEN objs ELSE SetObj(e, AdoptHeads(o, e.v))

\* Events with a field f were recorded while a storage access was made to fail: an error is in order then
Flagged(e) == "f" \in DOMAIN e
Failed(e) == Flagged(e) /\ e.code \notin Crash \cup {"OK"}

AddOK(e) == Judge("grow", Failed(e) \/ (e.code = "OK" /\ e.lh = LeafH(e.li)))
SetOK(e) == Judge("lock", Failed(e) \/ e.code = "OK")

AddUpd(e) == IF e.code = "OK" /\ On("grow") THEN SetObj(e, LogAdd(Obj(e), [li |-> e.li, ex |-> e.ex, fmt |-> e.fmt])) ELSE objs
SetUpd(e) == IF e.code = "OK" /\ On("lock")
             THEN SetObj(e, MapApply(Obj(e), [act |-> e.act, key |-> e.key, hv |-> e.hv, li |-> e.li, ex |-> e.ex, fmt |-> e.fmt, prev |-> e.prev, lh |-> e.lh]))
             ELSE objs
\* The process stopped during the request; what was found afterwards says whether it took effect
AmbUpd(e) == IF ~e.applied THEN objs ELSE IF e.kind = "log" THEN AddUpd([e EXCEPT !.code = "OK"]) ELSE SetUpd([e EXCEPT !.code = "OK"])

------------------------------------------------------------------------------
(* The same question gets the same answer: for ever if it names a size that    *)
(* exists ("stable"), until the next request to the same object otherwise       *)
(* ("frame")                                                                    *)

Queries == {"head", "incl", "cons", "fetch", "get", "mhead"}
Question(e) ==
    CASE e.ev = "head" -> <<"head", e.o, e.lt, e.size>>
      [] e.ev = "incl" -> <<"incl", e.o, e.lt, e.size, e.by, e.idx, e.h>>
      [] e.ev = "cons" -> <<"cons", e.o, e.lt, e.size, e.from>>
      [] e.ev = "fetch" -> <<"fetch", e.o, e.lt, e.first, e.last>>
      [] e.ev = "get" -> <<"get", e.o, e.size, e.key>>
      [] e.ev = "mhead" -> <<"mhead", e.o, e.size>>
      [] e.ev = "ents" -> DumpQ(e)
NonDefault(p) == {<<p[i][1], p[i][2]>> : i \in {j \in 1..Len(p) : p[j][2] # Def(p[j][1])}}
Answer(e) ==
    CASE e.ev = "head" -> <<e.code, e.rs, e.root>>
      [] e.ev = "incl" -> <<e.code, e.ri, e.rs, e.path>>
      [] e.ev = "cons" -> <<e.code, e.rf, e.rs, e.path>>
      [] e.ev = "fetch" -> <<e.code, e.v>>
      [] e.ev = "get" -> <<e.code, e.rs, e.li, e.ex, e.fmt, NonDefault(e.path)>>
      [] e.ev = "mhead" -> <<e.code, e.root, e.ms, e.mroot>>
      [] e.ev = "ents" -> e.v
Fixed(e) == e.code = "OK" /\ (IF e.ev = "fetch" THEN e.last > 0 ELSE e.size > 0)
SameOK(e) == Question(e) \in DOMAIN seen => Answer(e) = seen[Question(e)]

Learn(e) == IF Question(e) \in DOMAIN seen THEN seen ELSE seen @@ (Question(e) :> Answer(e))
Forget(e) == [q \in {x \in DOMAIN seen : x[2] # e.o} |-> seen[q]]
SeenUpd(e) ==
    CASE e.ev = "reset" -> [x \in {} |-> 0]
      [] Failed(e) -> seen
      [] e.ev = "ents" -> (DumpQ(e) :> e.v) @@ seen
      [] e.ev \in Queries /\ On("frame") -> Learn(e)
      [] e.ev \in Queries /\ On("stable") /\ Fixed(e) -> Learn(e)
      [] e.ev \in {"add", "set"} /\ On("frame") -> Forget(e)
      [] OTHER -> seen

------------------------------------------------------------------------------
Same(e) == Judge("stable", SameOK(e)) /\ Judge("frame", SameOK(e))

\* A read during which a storage access failed
FlaggedOK(e) ==
    CASE e.ev = "head" -> HeadOK(e) /\ RangeOK(e)
      [] e.ev = "incl" -> InclOK([e EXCEPT !.ver = "OK"])
      [] e.ev = "cons" -> ConsOK([e EXCEPT !.ver = "OK"])
      [] e.ev = "fetch" -> FetchOK(e)
      [] e.ev = "get" -> GetOK(e)
      [] e.ev = "mhead" -> MapHeadOK(e)
      [] e.ev = "ents" -> EntsOK(e)
      [] e.ev = "add" -> AddOK(e)
      [] e.ev = "set" -> SetOK(e)

Conforms(e) ==
    CASE Flagged(e) -> Failed(e) \/ FlaggedOK(e)
      [] e.ev = "amb" -> TRUE
      [] e.ev = "reopen" -> e.code = "OK"
      [] e.ev = "head" -> Judge("head", HeadOK(e)) /\ Judge("range", RangeOK(e)) /\ Judge("lock", LockHead(e)) /\ Same(e)
      [] e.ev = "incl" -> Judge("incl", InclOK(e)) /\ Judge("range", RangeOK(e)) /\ Same(e)
      [] e.ev = "cons" -> Judge("cons", ConsOK(e)) /\ Judge("range", RangeOK(e)) /\ Same(e)
      [] e.ev = "fetch" -> Judge("fetch", FetchOK(e)) /\ Same(e)
      [] e.ev = "stream" -> Judge("fetch", FetchOK(e))
      [] e.ev = "get" -> Judge("get", GetOK(e)) /\ Judge("mproof", MapProofOK(e)) /\ Judge("range", RangeOK(e)) /\ Same(e)
      [] e.ev = "mhead" -> Judge("mroot", MapHeadOK(e)) /\ Judge("lock", LockMapHead(e)) /\ Judge("range", RangeOK(e)) /\ Same(e)
      [] e.ev = "ents" -> EntsOK(e) /\ Judge("frame", SameOK(e))
      [] e.ev = "add" -> AddOK(e)
      [] e.ev = "set" -> SetOK(e)
      [] e.ev = "path" -> e.v = PathRanges(e.m, 0, e.n)          \* the exported arithmetic of trees
      [] e.ev = "proof" -> e.v = ProofRanges(e.m, 0, e.n, TRUE)
      [] e.ev = "calck" -> e.p = IsPow2(e.n) /\ e.k = (IF e.n < 2 THEN 1 ELSE K(e.n))
      [] e.ev = "bad" -> e.code \notin {"OK"} \cup Crash     \* a malformed request
      [] e.ev = "same" -> e.a = e.b                          \* two services that have to agree
      [] e.ev = "crash" -> FALSE
      [] OTHER -> TRUE

Upd(e) == CASE Failed(e) -> objs
            [] e.ev = "ents" -> EntsUpd(e)
            [] e.ev = "add" -> AddUpd(e)
            [] e.ev = "set" -> SetUpd(e)
            [] e.ev = "amb" -> AmbUpd(e)
            [] e.ev = "reset" -> [x \in {} |-> 0]
            [] OTHER -> objs

Init == t \in 1..NTraces /\ l = 1 /\ objs = [x \in {} |-> 0] /\ seen = [x \in {} |-> 0]
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF Conforms(e)
              THEN /\ l' = l + 1
                   /\ objs' = Upd(e)
                   /\ seen' = SeenUpd(e)
                   /\ t' = t
              ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
