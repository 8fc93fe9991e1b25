-------------------------------- MODULE MCVDS --------------------------------
(* Exhaustive exploration of one log and one map of VDS over small alphabets:  *)
(* every reachable object has answers that mean what they should.              *)
EXTENDS VDS, TLC
CONSTANTS MaxLog, MaxMut, Vals, LogVals

VARIABLES lg, mp
vars == <<lg, mp>>

MCDepth == 3
MCKB == "k1" :> <<0,0,0>> @@ "k2" :> <<0,0,1>> @@ "k3" :> <<0,1,1>> @@ "k4" :> <<1,1,0>>
Keys == DOMAIN KB
Absent == "k4"

Init == lg = EmptyLog /\ mp = EmptyMap

AddEntry(li, ex) == /\ Len(lg.ents) < MaxLog
                    /\ lg' = LogAdd(lg, [li |-> li, ex |-> ex, fmt |-> 0])
                    /\ UNCHANGED mp

Mutate(act, k, v, prev) ==
    /\ Len(mp.muts) < MaxMut
    /\ mp' = MapApply(mp, [act |-> act, key |-> k, hv |-> act # "delete", li |-> v, ex |-> "x" \o ToString(Len(mp.muts)),
                           fmt |-> 0, prev |-> prev, lh |-> LeafH("mut" \o ToString(Len(mp.muts)))])
    /\ UNCHANGED lg

Next == \/ mp = EmptyMap /\ \E li \in LogVals, ex \in {"e1", "e2"} : AddEntry(li, ex)
        \/ lg = EmptyLog /\ \E k \in Keys \ {Absent} :
              \/ \E v \in Vals \cup {""} : Mutate("set", k, v, "")
              \/ Mutate("delete", k, "", "")
              \/ \E v \in Vals, p \in Vals \cup {""} : Mutate("update", k, v, LeafH(p))

Spec == Init /\ [][Next]_vars

LogOK == LET n == Size(lg) IN
    /\ \A s \in 1..n :
          /\ HeadAns(lg, "log", s) = [code |-> "OK", rs |-> s, root |-> MTH(Prefix(lg.hs, s))]
          /\ \A i \in 0..(s - 1) :
                LET a == InclIndexAns(lg, "log", s, i)
                IN /\ a = InclHashAns(lg, "log", s, lg.hs[i + 1])
                   /\ VerifyIncl(lg.hs[i + 1], a.ri, a.rs, a.path, MTH(Prefix(lg.hs, s)))
          /\ \A f \in 1..(s - 1) :
                LET a == ConsAns(lg, "log", f, s)
                IN VerifyCons(a.rf, a.rs, a.path, MTH(Prefix(lg.hs, f)), MTH(Prefix(lg.hs, s)))
    /\ \A i, j \in 1..n : lg.ents[i].li = lg.ents[j].li => i = j
    /\ HeadAns(lg, "log", 0) = (IF n = 0 THEN [code |-> "OK", rs |-> 0, root |-> ""] ELSE HeadAns(lg, "log", n))
    /\ HeadAns(lg, "log", n + 1) = Bad /\ HeadAns(lg, "log", -1) = Bad

Expand(sp) == [d \in 1..Depth |-> IF \E x \in sp : x[1] = d THEN (CHOOSE x \in sp : x[1] = d)[2] ELSE ""]
MapOK == LET n == Size(mp) IN
    /\ Root(EmptyContents, KB) = Def(0)
    /\ Len(mp.hs) = n /\ Len(mp.ths) = n
    /\ \A s \in 0..n :
          LET c == Cont(mp, s) IN
          /\ c = ApplyAll(EmptyContents, SubSeq(mp.muts, 1, s))
          /\ MRoot(mp, s) = FullRoot(c, KB)
          /\ \A k \in Keys :
                LET p == Expand(SparseProof(c, KB, k))
                IN /\ \A v \in Vals \cup {""} : VerifyGet(KB[k], v, p, MRoot(mp, s)) <=> v = ValOf(c, k)
                   /\ \A d \in 1..Depth : (IF p[d] = "" THEN Def(d) ELSE p[d]) = FullProof(c, KB, k)[d]
                   /\ ValOf(c, k) # "" => ValOf(c, k) \in DOMAIN mp.data
          /\ s >= 1 => /\ MapHeadAns(mp, s).mroot = MTH(Prefix(mp.hs, s))
                       /\ mp.ths[s] = LeafH(HeadLeafInput(MRoot(mp, s), s, MTH(Prefix(mp.hs, s))))
    \* equal contents have equal roots, whatever the history
    /\ \A s, t \in 0..n : Cont(mp, s) = Cont(mp, t) <=> MRoot(mp, s) = MRoot(mp, t)

Inv == LogOK /\ MapOK

\* Nothing that was answered for a fixed size is ever answered differently
Stable ==
    [][ /\ \A s \in 1..Size(lg) :
             /\ HeadAns(lg', "log", s) = HeadAns(lg, "log", s)
             /\ \A i \in 0..(s - 1) : InclIndexAns(lg', "log", s, i) = InclIndexAns(lg, "log", s, i)
             /\ \A f \in 1..(s - 1) : ConsAns(lg', "log", f, s) = ConsAns(lg, "log", f, s)
             /\ lg'.ents[s] = lg.ents[s]
        /\ \A s \in 1..Size(mp) :
             /\ MapHeadAns(mp', s) = MapHeadAns(mp, s)
             /\ \A lt \in {"mut", "head"} : HeadAns(mp', lt, s) = HeadAns(mp, lt, s)
             /\ \A k \in Keys : GetAns(mp', k, s) = GetAns(mp, k, s) /\ GetProof(mp', k, s) = GetProof(mp, k, s)
      ]_vars
=============================================================================
