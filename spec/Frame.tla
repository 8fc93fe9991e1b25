-------------------------------- MODULE Frame --------------------------------
(* Independent objects: the answer to a question about an object is determined  *)
(* by the question and by what was written to this object, nothing else. A      *)
(* request that is refused, or that goes to another object, writes nothing.      *)
EXTENDS Naturals, FiniteSets, TLC

Crash == {"PANIC", "HANG", "CRASH", "NIL"}
Empty == [x \in {} |-> 0]
Ver(ver, o) == IF o \in DOMAIN ver THEN ver[o] ELSE 0
\* One more write to o
Bump(ver, o) == (o :> (Ver(ver, o) + 1)) @@ ver
\* What is known of answers: function of <<object, version, question>>
Fits(known, ver, o, q, a) == LET k == <<o, Ver(ver, o), q>> IN k \in DOMAIN known => known[k] = a
Know(known, ver, o, q, a) == (<<o, Ver(ver, o), q>> :> a) @@ known
=============================================================================
