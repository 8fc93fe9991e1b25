----------------------------- MODULE TraceVerify -----------------------------
(* The proof verifiers of the library against the truth. A trace first names    *)
(* the entry lists (or map contents) that the tree heads stand for; every        *)
(* further event is a call of a verifier with its verdict ("OK", "FAIL" for an   *)
(* error, or "PANIC"/"HANG"), which must be the one that the lists imply.        *)
(*   lists  the two lists of leaf hashes: a behind the first head, b the second  *)
(*   incl   inclusion verifier: head (hn, hroot) of list b, proof (i, n, path)   *)
(*   cons   consistency verifier: heads (an, aroot) of a, (bn, broot) of b       *)
(*   allincl, allcons   exhaustive enumeration over a universe of hashes: the    *)
(*          accepted proofs must be exactly the true ones                        *)
(*   any    whatever the verdict, it has to be one                               *)
(*   cont   contents of a map: pairs <<key, leaf input>>, and the keys asked for    *)
(*   get    map proof verifier: head (hs, hroot) of the contents, answer         *)
(*          (size, hv, li, plen, path) for a key                                 *)
(* The driver builds the heads it uses; that they are what it says is asserted,  *)
(* so that a mistake there is an error of the check and not a violation.         *)
EXTENDS MerkleLog, SparseMap, TLC, Json, IOUtils

NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])
KeysOf(e) == IF e.ev = "get" THEN {e.key} ELSE IF e.ev = "cont" THEN {e.c[i][1] : i \in 1..Len(e.c)} ELSE {}
TraceKeys == LET T == Traces
             IN UNION {UNION {KeysOf(T[i][j]) : j \in 1..Len(T[i])} : i \in 1..Len(T)}
KB == TLCEval([k \in TraceKeys |-> KeyBits(k)])

VARIABLES t, l, env
vars == <<t, l, env>>

Harness(b) == Assert(b, "the driver's heads are wrong")
RootOf(lv, n) == IF n = 0 THEN "" ELSE RootL(lv, n)

\* The verdict has to be exactly this
Verdict(e, truth) == e.verdict = IF truth THEN "OK" ELSE "FAIL"

\* genuine: the head is the root of the list (the driver also uses altered ones)
InclOK(e) ==
    LET n == Len(env.b)
        real == e.hn = n /\ e.hroot = RootOf(env.blv, n)
        truth == /\ real
                 /\ e.n = e.hn /\ 0 <= e.i /\ e.i < e.n
                 /\ e.leaf = env.b[e.i + 1]
                 /\ e.path = PathL(env.blv, e.i, e.n)
    IN Harness(e.real => real) /\ Verdict(e, truth)

ConsOK(e) ==
    LET m == Len(env.a)
        n == Len(env.b)
        areal == e.an = m /\ e.aroot = RootOf(env.alv, m)
        breal == e.bn = n /\ e.broot = RootOf(env.blv, n)
        truth == /\ areal /\ breal
                 /\ e.m = m /\ e.n = n /\ 1 <= m /\ m < n
                 /\ env.a = SubSeq(env.b, 1, m)
                 /\ e.path = ProofL(env.blv, m, n)
    IN Harness(e.real => areal /\ breal) /\ Verdict(e, truth)

\* Every (leaf, index, size, path) with leaf and path elements from a universe that contains all nodes of the tree
AllInclOK(e) ==
    LET n == Len(env.b)
        true_ == {<<env.b[i + 1], i, n, PathL(env.blv, i, n)>> : i \in 0..(n - 1)}
        accepted == {e.accepted[i] : i \in 1..Len(e.accepted)}
    IN /\ Harness(e.hroot = RootOf(env.blv, n))
       /\ Harness(\A x \in true_ : Len(x[4]) <= e.maxpath /\ \A j \in 1..Len(x[4]) : \E k \in 1..Len(e.universe) : e.universe[k] = x[4][j])
       /\ e.crashes = 0
       /\ accepted = true_
AllConsOK(e) ==
    LET m == Len(env.a)
        n == Len(env.b)
        true_ == IF 1 <= m /\ m < n /\ env.a = SubSeq(env.b, 1, m) THEN {<<m, n, ProofL(env.blv, m, n)>>} ELSE {}
        accepted == {e.accepted[i] : i \in 1..Len(e.accepted)}
    IN /\ Harness(e.aroot = RootOf(env.alv, m) /\ e.broot = RootOf(env.blv, n))
       /\ Harness(\A x \in true_ : Len(x[3]) <= e.maxpath /\ \A j \in 1..Len(x[3]) : \E k \in 1..Len(e.universe) : e.universe[k] = x[3][j])
       /\ e.crashes = 0
       /\ accepted = true_

ContOf(c) == [k \in {c[i][1] : i \in 1..Len(c)} |-> (CHOOSE x \in {c[i] : i \in 1..Len(c)} : x[1] = k)[2]]

\* Accepted only if the value is true and the proof shows it; an honest answer is accepted
GetOK(e) ==
    LET real == e.hroot = env.root
        shown == {<<e.path[i][1], e.path[i][2]>> : i \in 1..Len(e.path)}
        truth == real /\ e.size = e.hs /\ e.li = ValOf(env.c, e.key)
        honest == truth /\ e.hv /\ e.plen = 256 /\ e.key \in DOMAIN env.hp /\ shown = env.hp[e.key]
    IN /\ Harness(e.real => real)
       /\ e.verdict \in {"OK", "FAIL"}
       /\ honest => e.verdict = "OK"
       /\ e.verdict = "OK" => /\ truth /\ e.plen = 256
                              /\ FoldSparse(KB[e.key], LeafH(e.li), e.path, Depth) = e.hroot

Conforms(e) ==
    CASE e.ev = "incl" -> InclOK(e)
      [] e.ev = "cons" -> ConsOK(e)
      [] e.ev = "allincl" -> AllInclOK(e)
      [] e.ev = "allcons" -> AllConsOK(e)
      [] e.ev = "get" -> GetOK(e)
      [] e.ev = "any" -> e.verdict \in {"OK", "FAIL"}
      [] e.ev = "crash" -> FALSE
      [] OTHER -> TRUE

Nothing == [a |-> <<>>, b |-> <<>>, alv |-> << <<>> >>, blv |-> << <<>> >>, c |-> EmptyContents, root |-> "", hp |-> [k \in {} |-> {}]]
Upd(e) == CASE e.ev = "lists" -> [env EXCEPT !.a = e.a, !.b = e.b, !.alv = Levels(e.a), !.blv = Levels(e.b)]
            [] e.ev = "cont" -> LET c == ContOf(e.c) IN [env EXCEPT !.c = c, !.root = Root(c, KB),
                                                                           !.hp = TLCEval([k \in {e.keys[i] : i \in 1..Len(e.keys)} |-> SparseProof(c, KB, k)])]
            [] OTHER -> env

Init == t \in 1..NTraces /\ l = 1 /\ env = Nothing
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF Conforms(e)
              THEN l' = l + 1 /\ env' = Upd(e) /\ t' = t
              ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
