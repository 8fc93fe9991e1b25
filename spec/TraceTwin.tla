------------------------------ MODULE TraceTwin ------------------------------
(* Traces of services that have to behave alike, and of questions asked again.  *)
(*   same   two services that received the same requests (as far as the property *)
(*          goes) gave answers a and b                                           *)
(*   kind   the same, judged by the kind of the outcome                          *)
(*   write  a request that changes object o                                      *)
(*   ask    a question about object o: same answer until the next write to o     *)
(*   bad    a malformed or refused request: an error, and no write               *)
(*   lossy  a question whose reply was damaged on the way: an error or the answer *)
(*   begin  a new pair of services                                               *)
EXTENDS Frame, Sequences, Json, IOUtils
NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])
VARIABLES t, l, ver, known
vars == <<t, l, ver, known>>

Kinds == {"OK", "PermissionDenied", "InvalidArgument", "NotFound"}
Kind(c) == IF c \in Kinds \cup Crash THEN c ELSE "ERR"

Ans(e) == <<e.code, e.ans>>
EvOK(e) == CASE e.ev = "same" -> e.a = e.b
             [] e.ev = "kind" -> Kind(e.a) = Kind(e.b) /\ Kind(e.a) \notin Crash
             [] e.ev = "ask" -> e.code \notin Crash /\ Fits(known, ver, e.o, e.q, Ans(e))
             [] e.ev = "bad" -> e.code \notin Crash \cup {"OK"}
             [] e.ev = "lossy" -> e.code \notin Crash /\ (e.code = "OK" => e.a = e.b)
             [] e.ev = "write" -> e.code = "OK"
             [] e.ev = "begin" -> TRUE
             [] OTHER -> FALSE
Upd(e) == CASE e.ev = "ask" -> ver' = ver /\ known' = Know(known, ver, e.o, e.q, Ans(e))
            [] e.ev = "write" -> ver' = Bump(ver, e.o) /\ known' = known
            [] e.ev = "begin" -> ver' = Empty /\ known' = Empty
            [] OTHER -> UNCHANGED <<ver, known>>
Init == t \in 1..NTraces /\ l = 1 /\ ver = Empty /\ known = Empty
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF EvOK(e) THEN l' = l + 1 /\ t' = t /\ Upd(e) ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
