-------------------------------- MODULE MCHash --------------------------------
(* Run with java/vds/Overrides: the interpreted algebra is the one intended    *)
(* (published test vectors), and the accelerated operators agree with their    *)
(* definitions.                                                                *)
EXTENDS MerkleLog, SparseMap, ObjHash, TLC

RECURSIVE FoldUpD(_, _, _, _)
FoldUpD(bits, x, from, to) ==
    IF from = to THEN x
    ELSE FoldUpD(bits, IF bits[from] = 1 THEN NodeH(DefTab[from + 1], x) ELSE NodeH(x, DefTab[from + 1]), from - 1, to)
RECURSIVE FoldSparseD(_, _, _, _)
FoldSparseD(bits, x, pairs, i) ==
    IF i = 0 THEN x
    ELSE LET P == {j \in 1..Len(pairs) : pairs[j][1] = i}
             s == IF P = {} THEN DefTab[i + 1] ELSE pairs[CHOOSE j \in P : TRUE][2]
         IN FoldSparseD(bits, IF bits[i] = 1 THEN NodeH(s, x) ELSE NodeH(x, s), pairs, i - 1)

\* RFC 6962 / Certificate Transparency reference tree
CT == <<"", "00", "10", "2021", "3031", "40414243", "5051525354555657", "606162636465666768696a6b6c6d6e6f">>
CTH == [i \in 1..8 |-> LeafH(CT[i])]

KSet == {Hex("k62736103"), Hex("k16408046"), Hex("k40471046"), Hex("")}
KBs == [k \in KSet |-> KeyBits(k)]
C == (Hex("k62736103") :> Hex("a")) @@ (Hex("k16408046") :> Hex("b")) @@ (Hex("k40471046") :> Hex("c"))
ExpandS(sp) == LET D == {x[1] : x \in sp} IN [d \in 1..256 |-> IF d \in D THEN (CHOOSE x \in sp : x[1] = d)[2] ELSE ""]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
Check ==
    /\ Hex("a") = "61" /\ Hex("") = "" /\ B64("00ff") = Hex("AP8=")
    /\ Sha("") = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
    /\ LeafH("") = "6e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d"
    /\ MTH(CTH) = "5dc9da79a70659a9ad559cb701ded9a2ab9d823aad2f4960cfe370eff4604328"
    /\ MTH(Prefix(CTH, 3)) = "aeb6bcfe274b70a14fb067a5e5578264db0fa9b51af5e0ba159158f329e06e77"
    /\ APATH(0, CTH) = <<"96a296d224f285c67bee93c30f8a309157f0daa35dc5b87e410b78630a09cfc7",
                         "5f083f0a1a33ca076a95279832580db3e0ef4584bdff1f54c8a360f50de3031e",
                         "6b47aaf29ee3c2af9af889bc1fb9254dabd31177f16232dd6aab035ca39bf6e4">>
    /\ \A n \in 1..8 : RootL(Levels(CTH), n) = MTH(Prefix(CTH, n))
    /\ Len(KBs[Hex("")]) = 256 /\ SubSeq(KBs[Hex("")], 1, 8) = <<1,1,1,0,0,0,1,1>>
    /\ CommonLen(KBs[Hex("k62736103")], KBs[Hex("k16408046")]) = 51
    /\ SortConcat(<<"b", "c", "a">>) = "abc"
    /\ \A k \in KSet : \A to \in {0, 1, 100, 255, 256} : FoldUp(KBs[k], LeafH(Hex("a")), 256, to) = FoldUpD(KBs[k], LeafH(Hex("a")), 256, to)
    /\ \A k \in KSet : LET sp == SeqOf(SparseProof(C, KBs, k))
                           x == LeafH(ValOf(C, k))
                       IN /\ FoldSparse(KBs[k], x, sp, 256) = FoldSparseD(KBs[k], x, sp, 256)
                          /\ FoldSparse(KBs[k], x, sp, 256) = Root(C, KBs)
                          /\ VerifyGet(KBs[k], ValOf(C, k), ExpandS(SparseProof(C, KBs, k)), Root(C, KBs))
    /\ Root(EmptyContents, KBs) = DefTab[1]
    /\ \E T \in {DefTab} : \A d \in 0..256 : Def(d) = T[d + 1]
    \* object hash of {"foo":"bar","a":[1,3]} style documents: published vectors
    /\ JList(<<JStr(Hex("foo")), JStr(Hex("bar"))>>) = "32ae896c413cfdc79eec68be9139c86ded8b279238467c216cf2bec4d5f1e4a2"
    /\ JObj(<< <<Hex("foo"), JStr(Hex("bar"))>> >>) = "7ef5237c3027d6c58100afadf37796b3d351025cf28038280147d42fdc53b960"
    /\ FloatNorm(1) = "+0:1" /\ FloatNorm(2) = "+1:1" /\ FloatNorm(3) = "+2:011" /\ FloatNorm(6) = "+3:011" /\ FloatNorm(5) = "+3:0101"
Inv == done => Check
=============================================================================
