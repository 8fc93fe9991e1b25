----------------------------- MODULE TraceServer -----------------------------
(* Traces of the program that the repository ships.                              *)
(*   start  with configuration conf; up: it is running a moment later             *)
(*   door   a caller who comes by door d asks what everybody with key root may    *)
(*          know; code: what came back                                            *)
(*   kind, same   the program's answer (a) and that of a service with the accounts *)
(*          and rules of the configuration that got the same requests (b)          *)
(*   ack    a write to object o was acknowledged                                  *)
(*   found  after the program was killed and started again: the number of writes  *)
(*          to o that are there, with sent of them not answered                   *)
EXTENDS Server, Sequences, Json, IOUtils
NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])
VARIABLES t, l, acked, conf
vars == <<t, l, acked, conf>>
Kinds == {"OK", "PermissionDenied", "InvalidArgument", "NotFound"}
Kind(c) == IF c \in Kinds \cup Crash THEN c ELSE "ERR"
None == [rest |-> FALSE, grpc |-> FALSE, plain |-> FALSE]

EvOK(e) == CASE e.ev = "start" -> e.up
             [] e.ev = "door" -> e.code \notin Crash /\ (e.code = "OK") = Opens(conf, <<e.tr, e.way>>)
             [] e.ev = "kind" -> Kind(e.a) = Kind(e.b) /\ Kind(e.a) \notin Crash
             [] e.ev = "same" -> e.a = e.b
             [] e.ev = "ack" -> TRUE
             [] e.ev = "found" -> e.n \in Found(Ver(acked, e.o), e.sent)
             [] OTHER -> FALSE
Upd(e) == CASE e.ev = "start" -> conf' = e.conf /\ acked' = acked
            [] e.ev = "ack" -> acked' = Bump(acked, e.o) /\ conf' = conf
            [] e.ev = "found" -> acked' = (e.o :> e.n) @@ acked /\ conf' = conf
            [] OTHER -> UNCHANGED <<acked, conf>>
Init == t \in 1..NTraces /\ l = 1 /\ acked = Empty /\ conf = None
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF EvOK(e) THEN l' = l + 1 /\ t' = t /\ Upd(e) ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
