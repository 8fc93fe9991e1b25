----------------------------- MODULE TraceStorage -----------------------------
(* Traces of transactions on a real storage backend against Storage.             *)
(*   store   a new, empty store                                                  *)
(*   open    a transaction is asked for (tx, ns, upd)                            *)
(*   enter   its function runs                                                   *)
(*   get     a read in it: code OK with a value, NoSuchKey, or ERR               *)
(*   set     a write; val "absent" for a deletion                                *)
(*   leave   its function returns; ok: without error                             *)
(*   end     the store has answered: res "OK", "SAME" (the function's error) or  *)
(*           "ERR" (another one)                                                 *)
(*   reopen  the store was closed and opened again                               *)
(*   stuck   a transaction that should run does not                              *)
(* hist[ns] are the versions there have been, in the order in which updates left *)
(* their function; vis counts those that have certainly been stored.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])

VARIABLES t, l, hist, vis, txs
vars == <<t, l, hist, vis, txs>>

ST == INSTANCE Storage WITH Spaces <- {}, Keys <- {}, Vals <- {}, Txs <- {}, MaxUpdates <- 0, Transactional <- TRUE, vs <- hist, tx <- txs, n <- 0
Absent == ST!Absent
Val(c, k) == ST!Val(c, k)

Hist(ns) == IF ns \in DOMAIN hist THEN hist[ns] ELSE <<ST!NoKeys>>
Vis(ns) == IF ns \in DOMAIN vis THEN vis[ns] ELSE 1
Tx(e) == txs[e.tx]

\* What a read in the transaction has to give
ReaderSees(x, e) == {i \in x.cand : i <= Len(Hist(x.ns)) /\ Val(Hist(x.ns)[i], e.key) = e.val}
\* (a reader may still see versions that came up since it was opened, until it has read something)
Cands(x) == IF x.fixed THEN x.cand ELSE x.lo..Len(Hist(x.ns))
UpdaterSees(x, e) == Val(x.w @@ Hist(x.ns)[Len(Hist(x.ns))], e.key)
GetOK(e) ==
    LET x == Tx(e)
    IN /\ x.in
       /\ e.code = (IF e.val = Absent THEN "NoSuchKey" ELSE "OK")
       /\ IF x.upd THEN e.val = UpdaterSees(x, e)
          ELSE ReaderSees([x EXCEPT !.cand = Cands(x)], e) # {}

\* A namespace has no other update running
Alone(e, ns) == \A y \in DOMAIN txs : y # e.tx /\ txs[y].ns = ns => ~(txs[y].in /\ txs[y].upd)

\* Nothing is left of a failed update
EndOK(e) ==
    LET x == Tx(e)
    IN /\ ~x.in
       /\ e.res = (IF x.ok THEN "OK" ELSE "SAME")

EvOK(e) ==
    CASE e.ev = "store" -> TRUE
      [] e.ev = "open" -> TRUE
      [] e.ev = "enter" -> ~Tx(e).in /\ (Tx(e).upd => Alone(e, Tx(e).ns))
      [] e.ev = "get" -> GetOK(e)
      [] e.ev = "set" -> Tx(e).in /\ Tx(e).upd /\ e.code = "OK"
      [] e.ev = "leave" -> Tx(e).in
      [] e.ev = "end" -> EndOK(e)
      [] e.ev = "reopen" -> e.code = "OK"
      [] OTHER -> FALSE

PutTx(e, x) == txs' = (e.tx :> x) @@ txs
Upd(e) ==
    CASE e.ev = "store" -> hist' = [x \in {} |-> 0] /\ vis' = [x \in {} |-> 0] /\ txs' = [x \in {} |-> 0]
      [] e.ev = "open" -> PutTx(e, [ns |-> e.ns, upd |-> e.upd, in |-> FALSE, ok |-> FALSE, ver |-> 0, lo |-> Vis(e.ns), cand |-> {}, fixed |-> FALSE, w |-> ST!NoKeys])
                          /\ UNCHANGED <<hist, vis>>
      [] e.ev = "enter" -> PutTx(e, [Tx(e) EXCEPT !.in = TRUE]) /\ UNCHANGED <<hist, vis>>
      [] e.ev = "get" -> PutTx(e, IF Tx(e).upd THEN Tx(e) ELSE [Tx(e) EXCEPT !.cand = ReaderSees([Tx(e) EXCEPT !.cand = Cands(Tx(e))], e), !.fixed = TRUE])
                         /\ UNCHANGED <<hist, vis>>
      [] e.ev = "set" -> PutTx(e, [Tx(e) EXCEPT !.w = (e.key :> e.val) @@ @]) /\ UNCHANGED <<hist, vis>>
      [] e.ev = "leave" ->
            LET x == Tx(e)
                h == Hist(x.ns)
                keep == x.upd /\ e.ok
            IN /\ PutTx(e, [x EXCEPT !.in = FALSE, !.ok = e.ok, !.ver = IF keep THEN Len(h) + 1 ELSE 0])
               /\ hist' = IF keep THEN (x.ns :> Append(h, ST!Written(h[Len(h)], x.w))) @@ hist ELSE hist
               /\ UNCHANGED vis
      [] e.ev = "end" -> LET x == Tx(e)
                             rest == [y \in (DOMAIN txs) \ {e.tx} |-> txs[y]]
                         IN /\ txs' = rest
                            /\ IF DOMAIN rest = {}   \* no need to remember what has been
                               THEN hist' = [s \in DOMAIN hist |-> <<hist[s][Len(hist[s])]>>] /\ vis' = [s \in DOMAIN hist |-> 1]
                               ELSE hist' = hist /\ vis' = IF x.ver > Vis(x.ns) THEN (x.ns :> x.ver) @@ vis ELSE vis
      [] OTHER -> UNCHANGED <<hist, vis, txs>>
Init == t \in 1..NTraces /\ l = 1 /\ hist = [x \in {} |-> 0] /\ vis = [x \in {} |-> 0] /\ txs = [x \in {} |-> 0]
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF EvOK(e) THEN l' = l + 1 /\ t' = t /\ Upd(e) ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
