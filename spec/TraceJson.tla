------------------------------ MODULE TraceJson ------------------------------
(* The JSON entry helpers against JsonLeaf. Documents are trees; what is not     *)
(* JSON is <<"bad">>.                                                            *)
(*   mk      an entry made from a document (how: plain, object, proto, redactable)*)
(*   val     ValidateJSONLeafData                                                *)
(*   shed    ShedRedactedJSONFields                                              *)
(*   mutmk   an entry made from a mutation                                       *)
(*   mutval  ValidateJSONLeafDataFromMutation                                    *)
EXTENDS JsonLeaf, Json, IOUtils
NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])
VARIABLES t, l
Bad(d) == d[1] = "bad"
Ok(v) == v = "OK"
Refused(v) == v \notin {"OK", "PANIC", "HANG", "NIL"}
MkOK(e) == IF Bad(e.in) THEN Refused(e.code)
           ELSE /\ Ok(e.code) /\ e.fmt = 1 /\ ~Bad(e.data)
                /\ IF e.how = "redactable"
                   THEN IsRedactable(e.in, e.data) /\ e.li = JHash(e.data)
                   ELSE e.data = e.in /\ e.li = JHash(e.in) /\ (e.how = "plain" => e.same)
Verdict(v, truth) == v = IF truth THEN "OK" ELSE "FAIL"
ValOK(e) == Verdict(e.verdict, ~Bad(e.data) /\ e.li = JHash(e.data))
ShedOK(e) == IF Bad(e.in) THEN Refused(e.code)
             ELSE IF Sheddable(e.in) THEN Ok(e.code) /\ ~Bad(e.out) /\ e.out = Shed(e.in)
             ELSE e.code \notin {"PANIC", "HANG", "NIL"}
LeafInputOf(m) == MutLeafInput(m.ts, m.act, m.key, m.hv, m.vli, m.prev)
MutMkOK(e) == Ok(e.code) /\ e.fmt = 1 /\ e.li = LeafInputOf(e.m) /\ e.back = e.m
MutValOK(e) == Verdict(e.verdict, ~e.bad /\ e.li = LeafInputOf(e.m))
\* jsh: what the JavaScript client makes of a stored document: its leaf hash, and the document it shows (redacted: shed)
JshOK(e) == /\ e.lh = LeafH(JHash(e.doc))
            /\ e.shed /\ Sheddable(e.doc) => e.out = Shed(e.doc)
            /\ ~e.shed => e.out = e.doc
\* jsn: the same of a document whose text (Unicode) is written in some form; doc has the canonical composition
JsnOK(e) == e.lh = LeafH(JHash(e.doc))
EvOK(e) == CASE e.ev = "mk" -> MkOK(e)
             [] e.ev = "crash" -> FALSE
             [] e.ev = "jsh" -> JshOK(e)
             [] e.ev = "jsn" -> JsnOK(e)
             [] e.ev = "val" -> ValOK(e)
             [] e.ev = "shed" -> ShedOK(e)
             [] e.ev = "mutmk" -> MutMkOK(e)
             [] e.ev = "mutval" -> MutValOK(e)
             [] OTHER -> FALSE
Init == t \in 1..NTraces /\ l = 1
Next == /\ l <= Len(Traces[t])
        /\ IF EvOK(Traces[t][l]) THEN l' = l + 1 ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
        /\ UNCHANGED t
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
