------------------------------ MODULE TraceBPath ------------------------------
(* A register machine over paths. Every event computes a path from earlier      *)
(* ones with the real operations, stores it in a register, and records what the *)
(* real operations say of it: length, bits, textual form, encoding. Equal       *)
(* sequences must have equal encodings throughout the trace.                    *)
EXTENDS BPath, Hash, TLC, Json, IOUtils
NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])

VARIABLES t, l, regs, encs, seqs     \* encs: encoding by sequence; seqs: sequence by encoding
vars == <<t, l, regs, encs, seqs>>

Result(e) ==
    CASE e.op = "true" -> <<1>>
      [] e.op = "false" -> <<0>>
      [] e.op = "empty" -> <<>>
      [] e.op = "key" -> KeyBits(e.key)
      [] e.op = "slice" -> Slice(regs[e.a], e.from, e.to)
      [] e.op = "join" -> Join(regs[e.a], regs[e.b])
RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN "" ELSE ToString(Head(p)) \o Text(Tail(p))

Conforms(e) ==
    CASE e.ev = "path" ->
            LET p == Result(e)
            IN /\ e.len = Len(p) /\ e.bits = p /\ e.str = Text(p)
               /\ p \in DOMAIN encs => e.enc = encs[p]
               /\ e.enc \in DOMAIN seqs => p = seqs[e.enc]
      [] e.ev = "crash" -> FALSE
      [] OTHER -> TRUE

Init == t \in 1..NTraces /\ l = 1 /\ regs = [x \in {} |-> <<>>] /\ encs = [x \in {} |-> ""] /\ seqs = [x \in {} |-> <<>>]
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF Conforms(e)
              THEN /\ l' = l + 1 /\ t' = t
                   /\ IF e.ev = "path"
                      THEN LET p == TLCEval(Result(e))
                           IN /\ regs' = IF e.reg = 0 THEN regs ELSE (e.reg :> p) @@ regs
                              /\ encs' = IF p \in DOMAIN encs THEN encs ELSE (p :> e.enc) @@ encs
                              /\ seqs' = IF e.enc \in DOMAIN seqs THEN seqs ELSE (e.enc :> p) @@ seqs
                      ELSE UNCHANGED <<regs, encs, seqs>>
              ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
