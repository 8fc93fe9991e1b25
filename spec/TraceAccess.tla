----------------------------- MODULE TraceAccess -----------------------------
(* Access control of the real service against Policy and JsonLeaf.               *)
(*   glob  one rule with pattern p; m are the indices of the names in ss granted  *)
(*   pol   a policy and requests to it, with verdict and visible fields           *)
(*   acc   a request under a grant; ref is the answer of the same request to an   *)
(*         unrestricted service; before and after are everything readable          *)
(*   filt  one value read with restricted fields; full is what it is              *)
(*   filtmut  one mutation log entry read with restricted fields                  *)
(*   range    a read of several entries with restricted fields                    *)
(*   same  two answers that have to be the same                                   *)
EXTENDS Policy, JsonLeaf, Json, IOUtils
NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])
VARIABLES t, l

Refused(c) == c \notin {"OK", "PANIC", "HANG", "NIL"}

GlobOK(e) == {e.m[i] : i \in 1..Len(e.m)} = {i \in 1..Len(e.ss) : Glob(e.p, e.ss[i])}

\* fields: what the answer names as visible; "*" alone is everything
FieldSet(fs) == {fs[i] : i \in 1..Len(fs)}
PolOK(e) == \A i \in 1..Len(e.reqs) :
               LET r == e.reqs[i]
               IN IF Granted(e.cfg, r) THEN r.code = "OK" /\ LET fs == FieldsFor(e.cfg, r)
                                                             IN (r.fields = AllFields <=> SeesAll(fs)) /\ FieldSet(r.fields) = FieldSet(fs)
                  ELSE r.code = "denied"

\* grant: what the policy grants; except: granted is everything else
Matches(e) == e.grant.acc = e.req.acc /\ e.grant.key = e.req.key /\ e.grant.name = e.req.name
Allowed(e) == LET n == Needed(e.op, e.lt)
              IN n # 0 /\ (CASE e.mode = "only" -> Matches(e) /\ e.grant.perm = n
                             [] e.mode = "except" -> ~(Matches(e) /\ e.grant.perm = n)
                             [] e.mode = "all" -> TRUE)
AccOK(e) == IF Allowed(e) THEN e.code = e.refcode /\ e.ans = e.ref
            ELSE e.code = "PermissionDenied" /\ e.ans = "" /\ e.before = e.after

Absent(f) == f.li = "" /\ f.ex = ""
Vis(e) == {e.visible[i] : i \in 1..Len(e.visible)}
\* what is seen of a value: <<code class, document>>
ValueOK(e, f, g) ==
    IF e.all \/ Absent(f) THEN g.li = f.li /\ g.ex = f.ex
    ELSE /\ g.li = f.li
         /\ g.data = Filter(f.data, Vis(e))
         /\ f.li = JHash(f.data) => g.li = JHash(g.data)
Filterable(e, f) == e.all \/ Absent(f) \/ (f.fmt = 1 /\ f.data[1] = "o")
MustRefuse(e, f) == ~e.all /\ ~Absent(f) /\ f.fmt # 1
FiltOK(e) == IF Filterable(e, e.full) THEN e.code = "OK" /\ ValueOK(e, e.full, e.got)
             ELSE IF MustRefuse(e, e.full) THEN Refused(e.code) /\ Absent(e.got)
             ELSE e.code \notin {"PANIC", "HANG", "NIL"}
FiltMutOK(e) == IF Filterable(e, e.full) THEN /\ e.code = "OK" /\ ValueOK(e, e.full, e.got)
                                              /\ e.gotm = e.fullm            \* everything but the value, and the leaf input
                ELSE IF MustRefuse(e, e.full) THEN Refused(e.code) /\ Absent(e.got)
                ELSE e.code \notin {"PANIC", "HANG", "NIL"}
\* a range is readable if all its entries are, and then shows the same as reading them one by one
RangeOK(e) == IF \A i \in 1..Len(e.fulls) : Filterable(e, e.fulls[i]) THEN e.code = "OK" /\ Len(e.gots) = Len(e.fulls) /\ \A i \in 1..Len(e.gots) : ValueOK(e, e.fulls[i], e.gots[i])
              ELSE IF \E i \in 1..Len(e.fulls) : MustRefuse(e, e.fulls[i]) THEN Refused(e.code) /\ e.gots = <<>>
              ELSE e.code \notin {"PANIC", "HANG", "NIL"}

EvOK(e) == CASE e.ev = "glob" -> GlobOK(e)
             [] e.ev = "pol" -> PolOK(e)
             [] e.ev = "acc" -> AccOK(e)
             [] e.ev = "filt" -> FiltOK(e)
             [] e.ev = "filtmut" -> FiltMutOK(e)
             [] e.ev = "range" -> RangeOK(e)
             [] e.ev = "same" -> e.a = e.b
             [] e.ev = "info" -> TRUE
             [] OTHER -> FALSE
Init == t \in 1..NTraces /\ l = 1
Next == /\ l <= Len(Traces[t])
        /\ IF EvOK(Traces[t][l]) THEN l' = l + 1 ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
        /\ UNCHANGED t
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
