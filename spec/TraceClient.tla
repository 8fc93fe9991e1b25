------------------------------ MODULE TraceClient ------------------------------
(* What the real verifying client of a log concludes, against Client. A trace     *)
(* starts with the lists of leaf hashes that the heads in it may stand for (hist); *)
(* the server answered with heads and proofs of any of them, and with others.      *)
(*   vhead   a verified head was asked for (latest, or of a size), holding a head;  *)
(*           ans and path are what the server answered (ans.n = -2: not recorded)   *)
(*   vcons   two heads compared;  vincl  an entry looked for in the tree of a head  *)
(*   vsupp   a supplied inclusion proof checked, with the head this needs           *)
(*   audit   the entries between two heads audited: cbs are the calls of the        *)
(*           callback, which fails at call stop (0: never)                          *)
(* honest is the number of the list if the server answered as it should for it (hs:  *)
(* its size then), 0 otherwise. Refusals of dishonest answers are not recorded.      *)
EXTENDS Client, TLC, Json, IOUtils

NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])

VARIABLES t, l, hist, lvs
vars == <<t, l, hist, lvs>>

Crash == {"PANIC", "HANG", "NIL", "CRASH"}
Held(h) == IF h.n = -1 THEN NoHead ELSE h
Empty(h) == h = NoHead \/ h.n = 0
HeadOf(i, n) == Head0(n, IF n = 0 THEN "" ELSE RootL(lvs[i], n))
Is(h, i) == h.n >= 1 /\ h.n <= Len(hist[i]) /\ h.root = RootL(lvs[i], h.n)
Known(h) == {i \in 1..Len(hist) : Is(h, i)}
Min(a, b) == IF a < b THEN a ELSE b

\* The two heads are of lists one of which continues the other: known ones, or any the proof is right for
Agree(a, b, path) ==
    LET x == Known(a)
        y == Known(b)
    IN IF x # {} /\ y # {}
       THEN \E i \in x, j \in y : LET m == Min(a.n, b.n) IN Prefix(hist[i], m) = Prefix(hist[j], m)
       ELSE ConsCheck(a, b, path)
\* What may come of asking for a head, holding one
Accepted(e, held) ==
    /\ e.res = held \/ e.ans.n = -2 \/ e.res = e.ans
    /\ e.res = held \/ Empty(held) \/ Agree(held, e.res, e.path)

HonestHead(e, want) ==
    IF want < 0 \/ want > e.hs THEN e.code = "FAIL"
    ELSE e.code = "OK" /\ e.res = HeadOf(e.honest, IF want = 0 THEN e.hs ELSE want)

VHeadOK(e) ==
    LET held == Held(e.held)
    IN /\ e.code \notin Crash
       /\ e.code = "OK" => /\ e.honest # 0 \/ Accepted(e, held)
                           /\ e.latest /\ held # NoHead => e.res.n >= held.n
       /\ e.honest # 0 => HonestHead(e, IF e.latest THEN 0 ELSE e.want)

VConsOK(e) ==
    /\ e.code \notin Crash
    /\ e.code = "OK" => Agree(e.a, e.b, e.path)
    /\ e.honest # 0 => e.code = (IF e.a.n > 0 /\ e.b.n > 0 THEN "OK" ELSE "FAIL")

\* leaf is in the tree of head
In(leaf, head, i, path) ==
    LET x == Known(head)
    IN IF x # {} THEN \E j \in x : \E k \in 1..head.n : hist[j][k] = leaf
       ELSE VerifyInclLib(leaf, i, head.n, path, head.root)
VInclOK(e) ==
    /\ e.code \notin Crash
    /\ e.code = "OK" => In(e.leaf, e.head, e.i, e.path)
    /\ e.honest # 0 => e.code = (IF \E k \in 1..e.head.n : hist[e.honest][k] = e.leaf THEN "OK" ELSE "FAIL")

VSuppOK(e) ==
    LET held == Held(e.held)
    IN /\ e.code \notin Crash
       /\ e.code = "OK" => /\ e.honest # 0 \/ Accepted(e, held)
                           /\ In(e.leaf, e.res, e.i, e.ipath)
       /\ e.honest # 0 => e.code = "OK" /\ e.res = HeadOf(e.honest, e.pn)

AuditOK(e) ==
    LET m == IF e.prev.n < 0 THEN 0 ELSE e.prev.n
        trivial == e.head.n <= e.prev.n \/ e.head.n < 1
        got == IF e.nocb THEN e.deliv ELSE [i \in 1..Len(e.cbs) |-> e.cbs[i][2]]
        genuine == \E j \in Known(e.head) : (m = 0 \/ Is(e.prev, j)) /\ got = SubSeq(hist[j], m + 1, e.head.n)
    IN /\ e.code \in {"OK", "FAIL"}
       /\ \A i \in 1..Len(e.cbs) : e.cbs[i][1] = m + i - 1
       /\ ~trivial => /\ e.code = "OK" => genuine /\ (e.stop = 0 \/ Len(e.cbs) < e.stop)
                      /\ e.honest # 0 => e.code = "OK"

\* read: entries first..last-1 read (by the JavaScript client): <<index, contents, leaf hash>>
ReadOK(e) ==
    LET h == hist[e.honest]
    IN /\ e.code = (IF e.first < e.last /\ e.last <= Len(h) THEN "OK" ELSE "FAIL")
       /\ e.code = "OK" => e.got = [k \in 1..(e.last - e.first) |-> <<e.first + k - 1, e.got[k][2], h[e.first + k]>>]
       /\ \A k \in 1..Len(e.got) : LeafH(e.got[k][2]) = e.got[k][3]
\* added: an entry was added; own is the leaf hash the client has for it
AddedOK(e) == e.code = "OK" /\ e.lh = LeafH(e.li) /\ e.own = e.lh
\* wait: the client waited until the entry was in the log; shown: the server did show it
WaitOK(e) ==
    /\ e.code \notin Crash
    /\ e.code = "OK" => In(e.leaf, e.res, e.i, e.path)
    /\ e.honest # 0 => e.code = (IF e.shown THEN "OK" ELSE "WAIT")
\* why: what a request that was refused with an HTTP status (0: no connection) was said to have failed for
Reason(st) == CASE st = 0 -> "CONTINUSEC_NETWORK_ERROR"
                [] st = 400 -> "CONTINUSEC_INVALID_RANGE_ERROR"
                [] st \in {401, 403} -> "CONTINUSEC_UNAUTHORIZED_ERROR"
                [] st = 404 -> "CONTINUSEC_NOT_FOUND_ERROR"
                [] st = 409 -> "CONTINUSEC_OBJECT_CONFLICT_ERROR"
                [] OTHER -> "CONTINUSEC_INTERNAL_ERROR"
WhyOK(e) == e.code = "FAIL" /\ e.reason = Reason(e.status)

Conforms(e) ==
    CASE e.ev = "read" -> ReadOK(e)
      [] e.ev = "added" -> AddedOK(e)
      [] e.ev = "wait" -> WaitOK(e)
      [] e.ev = "why" -> WhyOK(e)
      [] e.ev = "vhead" -> VHeadOK(e)
      [] e.ev = "vcons" -> VConsOK(e)
      [] e.ev = "vincl" -> VInclOK(e)
      [] e.ev = "vsupp" -> VSuppOK(e)
      [] e.ev = "audit" -> AuditOK(e)
      [] e.ev = "crash" -> FALSE
      [] OTHER -> TRUE

Init == t \in 1..NTraces /\ l = 1 /\ hist = <<>> /\ lvs = <<>>
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF Conforms(e)
              THEN /\ l' = l + 1 /\ t' = t
                   /\ IF e.ev = "hist" THEN hist' = e.v /\ lvs' = [i \in 1..Len(e.v) |-> Levels(e.v[i])] ELSE UNCHANGED <<hist, lvs>>
              ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
