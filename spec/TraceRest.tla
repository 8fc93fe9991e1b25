------------------------------ MODULE TraceRest ------------------------------
(* Validation of requests sent to the real REST server, written by hand as a     *)
(* user without our client would. There is one log and one map.                  *)
(* A size of 0 is also written "head". After each write, size is the size of the  *)
(* object, st (log) or mt (map) the entry that the service itself now has for it, *)
(* and sdoc the document in its extra data.                                       *)
EXTENDS Rest, TLC, Json, IOUtils
NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])
TraceKeys == LET T == Traces
             IN UNION {UNION {IF T[i][j].ev = "keys" THEN {T[i][j].key} ELSE {} : j \in 1..Len(T[i])} : i \in 1..Len(T)}
TraceKB == TLCEval([k \in TraceKeys |-> KeyBits(k)])

VARIABLES t, l, lg, mp
vars == <<t, l, lg, mp>>
O(lt) == IF lt = "log" THEN lg ELSE mp

\* The same kind of outcome; where the specification leaves the error open, any error will do
Code(e, c) == IF c = "ERR" THEN e.code \notin {"OK", "CRASH"} ELSE e.code = c
Ent(s) == [li |-> s.li, ex |-> s.ex, fmt |-> s.fmt]

\* -- writes
Has(li) == \E i \in 1..Len(lg.ents) : lg.ents[i].li = li
Stored(li) == lg.ents[CHOOSE i \in 1..Len(lg.ents) : lg.ents[i].li = li]
PostOK(e) ==
    IF e.lt # "log" THEN e.code \notin {"OK", "CRASH"} /\ e.size = Size(O(e.lt))
    ELSE IF e.b.bad THEN e.code = "InvalidArgument" /\ e.size = Size(lg)
    ELSE /\ e.code = "OK"
         /\ e.lh = LeafH(e.st.li)
         /\ IF Has(e.st.li)   \* an entry that was there already stays as it is
            THEN /\ Ent(e.st) = Stored(e.st.li) /\ e.size = Len(lg.ents)
                 /\ CASE e.b.form = "raw" -> e.st.li = e.b.raw
                      [] e.b.form = "xjson" -> e.st.li = JHash(e.b.doc)
                      [] e.b.form = "redactable" -> IsRedactable(e.b.doc, e.sdoc) /\ e.st.li = JHash(e.sdoc)
                      [] e.b.form = "extra" -> e.st.li = e.b.x.li
            ELSE Stands(e.b, Ent(e.st), e.sdoc) /\ e.size = Size(LogAdd(lg, Ent(e.st)))

Value(e) == [li |-> e.mt.vli, ex |-> e.mt.vex, fmt |-> e.mt.vfmt]
PutOK(e) ==
    IF e.b.bad \/ KeyBad(e.k) \/ (e.upd /\ ~e.prevok) THEN e.code = "InvalidArgument" /\ e.size = Size(mp)
    ELSE /\ e.code = "OK" /\ e.size = Size(mp) + 1
         /\ MutEntryOK(e.mt) /\ e.lh = LeafH(e.mt.li)
         /\ e.mt.act = (IF e.upd THEN "update" ELSE "set") /\ e.mt.key = KeyOf(e.k) /\ e.mt.hv
         /\ e.mt.prev = (IF e.upd THEN e.prev ELSE "")
         /\ Stands(e.b, Value(e), e.sdoc)
DelOK(e) ==
    IF KeyBad(e.k) THEN e.code = "InvalidArgument" /\ e.size = Size(mp)
    ELSE /\ e.code = "OK" /\ e.size = Size(mp) + 1
         /\ MutEntryOK(e.mt) /\ e.lh = LeafH(e.mt.li)
         /\ e.mt.act = "delete" /\ e.mt.key = KeyOf(e.k) /\ ~e.mt.hv /\ e.mt.prev = ""

\* -- reads
EntryOK(e) == LET a == FetchRange(O(e.lt), e.n, e.n + 1)
              IN Code(e, a.code) /\ (e.code = "OK" => EntryShown(O(e.lt), e.lt, e.n + 1, e.form, e.a))
EntriesOK(e) == LET a == FetchRange(O(e.lt), e.first, e.last)
                IN /\ Code(e, a.code)
                   /\ e.code = "OK" => Len(e.v) = a.b - a.a /\ \A i \in 1..Len(e.v) : EntryShown(O(e.lt), e.lt, a.a + i, "extra", e.v[i])
HeadOK(e) == LET a == HeadAns(O(e.lt), e.lt, e.sz)
             IN Code(e, a.code) /\ (e.code = "OK" => e.rs = a.rs /\ e.root = a.root)
InclOK(e) == LET a == CASE e.by = "n" -> InclIndexAns(O(e.lt), e.lt, e.sz, e.n)
                         [] e.by = "h" -> IF Len(e.text) % 2 = 1 THEN Bad ELSE InclHashAns(O(e.lt), e.lt, e.sz, e.text)
                         [] e.by = "s" -> InclHashAns(O(e.lt), e.lt, e.sz, LeafH(Hex(e.text)))
             IN Code(e, a.code) /\ (e.code = "OK" => e.ri = a.ri /\ e.rs = a.rs /\ e.path = a.path)
ConsOK(e) == LET a == ConsAns(O(e.lt), e.lt, e.from, e.sz)
             IN Code(e, a.code) /\ (e.code = "OK" => e.rf = a.rf /\ e.rs = a.rs /\ e.path = a.path)
ValueOK(e) ==
    IF KeyBad(e.k) THEN e.code = "InvalidArgument"
    ELSE LET a == GetAns(mp, KeyOf(e.k), e.sz)
         IN /\ Code(e, a.code)
            /\ e.code = "OK" =>
                 /\ ShownAs(e.form, [li |-> a.li, ex |-> a.ex, fmt |-> a.fmt], e.a)
                 /\ e.rs = a.rs
                 \* every element of the proof that is not a default value
                 /\ {<<e.proof[i][1], e.proof[i][2]>> : i \in {j \in 1..Len(e.proof) : e.proof[j][2] # Def(e.proof[j][1])}} = GetProof(mp, KeyOf(e.k), a.rs)
                 /\ \A i, j \in 1..Len(e.proof) : e.proof[i][1] = e.proof[j][1] => i = j
MapHeadOK(e) == LET a == MapHeadAns(mp, e.sz)
                IN Code(e, a.code) /\ (e.code = "OK" => e.root = a.root /\ e.ms = a.ms /\ e.mroot = a.mroot)
\* Only the holder of the key gets in
AuthOK(e) == Code(e, IF ApiKey(e.parts) = e.want THEN "OK" ELSE "PermissionDenied")

Conforms(e) ==
    CASE e.ev = "post" -> PostOK(e)
      [] e.ev = "put" -> PutOK(e)
      [] e.ev = "del" -> DelOK(e)
      [] e.ev = "entry" -> EntryOK(e)
      [] e.ev = "entries" -> EntriesOK(e)
      [] e.ev = "head" -> HeadOK(e)
      [] e.ev = "incl" -> InclOK(e)
      [] e.ev = "cons" -> ConsOK(e)
      [] e.ev = "value" -> ValueOK(e)
      [] e.ev = "mhead" -> MapHeadOK(e)
      [] e.ev = "auth" -> AuthOK(e)
      [] e.ev = "crash" -> FALSE
      [] OTHER -> TRUE

Init == t \in 1..NTraces /\ l = 1 /\ lg = EmptyLog /\ mp = EmptyMap
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF Conforms(e)
              THEN /\ l' = l + 1 /\ t' = t
                   /\ lg' = IF e.ev = "post" /\ e.code = "OK" THEN LogAdd(lg, Ent(e.st)) ELSE lg
                   /\ mp' = IF e.ev \in {"put", "del"} /\ e.code = "OK" THEN MapApply(mp, AsMut(e.mt)) ELSE mp
              ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
