------------------------------ MODULE TraceBatch ------------------------------
(* Traces of the real batching mutator on a store that reports what is there     *)
(* after every update (commit), against BatchMutator: what is stored for an       *)
(* object is always the result of applying, one by one, a prefix of what was      *)
(* queued for it, in order, each mutation once; and in the end all of it.         *)
(*   begin   a new service                                                        *)
(*   call    a caller is about to queue mutation id for o                         *)
(*   ret     that call has returned                                               *)
(*   commit  an update was stored; what o then contains                           *)
(*   end     nothing more is going to happen                                      *)
(*   same    the answers of a service with the immediate mutator                  *)
(* Calls for an object marked conc overlap: a mutation then has to come after     *)
(* those whose calls returned before its own began. Their values are all          *)
(* different, their number being the extra data.                                  *)
EXTENDS Observed, TLC, Json, IOUtils
NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])
TraceKeys == LET T == Traces
             IN UNION {UNION {IF T[i][j].ev = "call" THEN {T[i][j].key} ELSE {} : j \in 1..Len(T[i])} : i \in 1..Len(T)}
TraceKB == TLCEval([k \in TraceKeys |-> KeyBits(k)])

VARIABLES t, l, objs
vars == <<t, l, objs>>

New(kind) == [v |-> IF kind = "map" THEN EmptyMap ELSE EmptyLog, calls |-> <<>>, next |-> 0, done |-> {}, rets |-> {}]
At(e) == IF e.o \in DOMAIN objs THEN objs[e.o] ELSE New(e.kind)
PutAt(e, x) == (e.o :> x) @@ objs
None == [none |-> TRUE]   \* what cannot be explained

\* One more mutation applied; lh is the leaf hash of the mutation log entry
Apply(v, c, lh) == IF v.kind = "log" THEN LogAdd(v, [li |-> c.li, ex |-> c.ex, fmt |-> c.fmt])
                   ELSE MapApply(v, [act |-> c.act, key |-> c.key, hv |-> c.hv, li |-> c.li, ex |-> c.ex, fmt |-> c.fmt, prev |-> c.prev, lh |-> lh])
LhAt(v, obs) == IF v.kind = "log" THEN "" ELSE LeafH(obs[Size(v) + 1].li)

\* In the order of the calls, until there is as much as observed
RECURSIVE InOrder(_, _)
InOrder(x, obs) ==
    IF Size(x.v) >= Len(obs) THEN x
    ELSE IF x.next = Len(x.calls) THEN None
    ELSE LET c == x.calls[x.next + 1]
         IN InOrder([x EXCEPT !.v = Apply(@, c, LhAt(x.v, obs)), !.next = @ + 1, !.done = @ \cup {c.id}], obs)
\* In the order observed, if that is allowed
NumOf(entry) == IF "vex" \in DOMAIN entry THEN entry.vex ELSE entry.ex
RECURSIVE AsObserved(_, _)
AsObserved(x, obs) ==
    IF Size(x.v) >= Len(obs) THEN x
    ELSE LET J == {j \in 1..Len(x.calls) : x.calls[j].ex = NumOf(obs[Size(x.v) + 1])}
         IN IF J = {} THEN None
            ELSE LET c == x.calls[CHOOSE j \in J : TRUE]
                 IN IF c.id \in x.done \/ ~ (c.before \subseteq x.done) THEN None
                    ELSE AsObserved([x EXCEPT !.v = Apply(@, c, LhAt(x.v, obs)), !.done = @ \cup {c.id}], obs)
Explain(e) == LET x == At(e) IN IF e.conc THEN AsObserved(x, e.v) ELSE InOrder(x, e.v)

Is(v, e) == /\ Size(v) = Len(e.v)
            /\ e.size = Size(v)
            /\ IF v.kind = "log"
               THEN /\ \A i \in 1..Len(e.v) : Pairs(e.v)[i] = v.ents[i]
                    /\ e.root = RootL(v.lv, Size(v))
               ELSE /\ \A i \in 1..Len(e.v) : MutEntryIs(e.v[i], v.muts[i])
                    /\ Len(e.h) = Len(e.v) /\ \A i \in 1..Len(e.h) : HeadEntryIs(e.h[i], v, i)
                    /\ e.root = MRoot(v, Size(v)) /\ e.mroot = RootL(v.lv, Size(v))

CommitOK(e) == LET x == Explain(e) IN x # None /\ Is(x.v, e)

\* All that returned is there; what is left of the calls (in order) changes nothing
EndOK(e) == LET x == At(e)
            IN IF e.conc THEN x.rets \subseteq x.done
               ELSE IF e.kind = "map" THEN x.next = Len(x.calls)
               ELSE \A j \in (x.next + 1)..Len(x.calls) : LogHas(x.v, x.calls[j].li)

EvOK(e) == CASE e.ev = "begin" -> TRUE
             [] e.ev = "call" -> TRUE
             [] e.ev = "ret" -> e.code = "OK"
             [] e.ev = "commit" -> CommitOK(e)
             [] e.ev = "end" -> EndOK(e)
             [] e.ev = "same" -> e.a = e.b
             [] OTHER -> FALSE
Upd(e) == CASE e.ev = "begin" -> [x \in {} |-> 0]
            [] e.ev = "call" -> PutAt(e, [At(e) EXCEPT !.calls = Append(@, [id |-> e.id, before |-> At(e).rets, act |-> e.act, key |-> e.key, hv |-> e.hv,
                                                                           li |-> e.li, ex |-> e.ex, fmt |-> e.fmt, prev |-> e.prev])])
            [] e.ev = "ret" -> PutAt(e, [At(e) EXCEPT !.rets = @ \cup {e.id}])
            [] e.ev = "commit" -> PutAt(e, Explain(e))
            [] OTHER -> objs
Init == t \in 1..NTraces /\ l = 1 /\ objs = [x \in {} |-> 0]
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF EvOK(e) THEN l' = l + 1 /\ t' = t /\ objs' = Upd(e) ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
