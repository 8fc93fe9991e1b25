------------------------------ MODULE MCServer ------------------------------
(* Checked: whatever moment the server dies at, each object has what was          *)
(* acknowledged and at most the one write that was not answered; nothing that was *)
(* read goes away; nobody who does not come through an open door, or without the  *)
(* permission, changes or learns anything.                                        *)
EXTENDS Server
CONSTANTS Objs, MaxOps
Confs == [rest : BOOLEAN, grpc : BOOLEAN, plain : BOOLEAN]
VARIABLES conf, up, sent, disk, acked, seen, n
vars == <<conf, up, sent, disk, acked, seen, n>>
Zero == [o \in Objs |-> 0]
Init == conf \in Confs /\ up = TRUE /\ sent = Zero /\ disk = Zero /\ acked = Zero /\ seen = Zero /\ n = 0
Op == n < MaxOps /\ n' = n + 1 /\ conf' = conf
Come(allowed, o) == Op /\ up /\ sent[o] = 0
                    /\ (\E d \in Doors : sent' = IF Opens(conf, d) /\ allowed THEN [sent EXCEPT ![o] = 1] ELSE sent)
                    /\ UNCHANGED <<up, disk, acked, seen>>
\* (the write is stored before it is answered)
Store(o) == Op /\ up /\ sent[o] = 1 /\ disk[o] = acked[o] /\ disk' = [disk EXCEPT ![o] = @ + 1] /\ UNCHANGED <<up, sent, acked, seen>>
Answer(o) == Op /\ up /\ sent[o] = 1 /\ disk[o] = acked[o] + 1 /\ acked' = [acked EXCEPT ![o] = @ + 1] /\ sent' = [sent EXCEPT ![o] = 0]
             /\ UNCHANGED <<up, disk, seen>>
Read(o) == Op /\ up /\ seen' = [seen EXCEPT ![o] = disk[o]] /\ UNCHANGED <<up, sent, disk, acked>>
Die == Op /\ up /\ up' = FALSE /\ UNCHANGED <<sent, disk, acked, seen>>
\* After a restart the callers look at what is there.
Start == Op /\ ~up /\ up' = TRUE /\ acked' = disk /\ sent' = Zero /\ UNCHANGED <<disk, seen>>
Next == Die \/ Start \/ \E o \in Objs : Store(o) \/ Answer(o) \/ Read(o) \/ Come(TRUE, o) \/ Come(FALSE, o)
Spec == Init /\ [][Next]_vars

Durable == \A o \in Objs : disk[o] \in Found(acked[o], sent[o])
Stays == \A o \in Objs : seen[o] <= disk[o]
Closed == ~(conf.rest \/ conf.grpc) => disk = Zero
OneWay == \A t \in Transports : Cardinality({w \in Ways : Opens(conf, <<t, w>>)}) = IF conf[t] THEN 1 ELSE 0
Encrypted == \A t \in Transports : Opens(conf, <<t, "plain">>) => conf.plain
Trusted == \A t \in Transports : ~Opens(conf, <<t, "other">>)
Grows == [][\A o \in Objs : disk'[o] >= disk[o]]_vars
=============================================================================
