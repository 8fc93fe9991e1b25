------------------------------- MODULE TraceWait -------------------------------
(* Waits of the real client against Wait. A trace starts with the list of leaf    *)
(* hashes that the log has in the end (hist). Then, for each wait:                  *)
(*   wait    what is waited for: leaf (kind log, map) or a size (kind size)         *)
(*   head    the client was answered with this head of the log; honest: the server  *)
(*           will prove what is in the tree of this head                            *)
(*   proof   ... with this inclusion proof                                          *)
(*   mhead   ... with this head of the map                                          *)
(*   waited  what the client returned                                               *)
(* ok is FALSE where the answer was an error. HANG: it went on polling for long     *)
(* after it had been answered with all that it needs.                               *)
EXTENDS Client, TLC, Json, IOUtils

NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])

VARIABLES t, l, hist, lv, w, heads, shown, mheads, due, failed
vars == <<t, l, hist, lv, w, heads, shown, mheads, due, failed>>

Pos(leaf) == IF \E i \in 1..Len(hist) : hist[i] = leaf THEN CHOOSE i \in 1..Len(hist) : hist[i] = leaf ELSE 0
Genuine(n, root) == n \in 1..Len(hist) /\ root = RootL(lv, n)
In(leaf, n) == Pos(leaf) # 0 /\ Pos(leaf) <= n

WaitedOK(e) ==
    /\ e.code \in {"OK", "FAIL", "HANG"}
    /\ e.code = "OK" => CASE w.kind = "log" -> Head0(e.n, e.root) \in shown
                          [] w.kind = "map" -> <<e.n, e.mroot, e.root>> \in mheads /\ Genuine(e.n, e.mroot) /\ In(w.leaf, e.n)
                          [] w.kind = "size" -> <<e.n, e.mroot, e.root>> \in mheads /\ e.n >= w.want
    /\ e.code = "FAIL" => failed
    /\ e.code = "HANG" => failed \/ ~due
Conforms(e) ==
    CASE e.ev = "waited" -> WaitedOK(e)
      [] e.ev = "crash" -> FALSE
      [] OTHER -> TRUE

\* A head newer than all before that shows what is waited for
Due(e) == /\ e.ok /\ e.honest
          /\ CASE e.ev = "head" -> w.kind \in {"log", "map"} /\ Genuine(e.n, e.root) /\ In(w.leaf, e.n) /\ \A h \in heads : h.n < e.n
               [] e.ev = "mhead" -> w.kind = "size" /\ e.n >= w.want

Init == /\ t \in 1..NTraces /\ l = 1 /\ hist = <<>> /\ lv = <<>> /\ w = [kind |-> "", leaf |-> "", want |-> 0]
        /\ heads = {} /\ shown = {} /\ mheads = {} /\ due = FALSE /\ failed = FALSE
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF Conforms(e)
              THEN /\ l' = l + 1 /\ t' = t
                   /\ IF e.ev = "hist" THEN hist' = e.v /\ lv' = Levels(e.v) ELSE UNCHANGED <<hist, lv>>
                   /\ IF e.ev = "wait"
                      THEN w' = [kind |-> e.kind, leaf |-> e.leaf, want |-> e.want] /\ heads' = {} /\ shown' = {} /\ mheads' = {} /\ due' = FALSE /\ failed' = FALSE
                      ELSE /\ w' = w
                           /\ heads' = IF e.ev = "head" /\ e.ok THEN heads \cup {Head0(e.n, e.root)} ELSE heads
                           /\ shown' = IF e.ev = "proof" /\ e.ok THEN shown \cup {h \in heads : VerifyInclLib(w.leaf, e.i, h.n, e.path, h.root)} ELSE shown
                           /\ mheads' = IF e.ev = "mhead" /\ e.ok THEN mheads \cup {<<e.n, e.mroot, e.root>>} ELSE mheads
                           /\ due' = (due \/ (e.ev \in {"head", "mhead"} /\ Due(e)))
                           /\ failed' = (failed \/ (e.ev \in {"head", "mhead"} /\ ~e.ok))
              ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
