--------------------------------- MODULE VDS ---------------------------------
(* The service: user logs and maps, and what it answers. An object is a pure   *)
(* value - a log is the sequence of its entries, a map the sequence of its     *)
(* mutations - and every answer is a function of that value and the request.   *)
(* Derived data (levels of the log trees, contents and root per size) is kept  *)
(* with the object so that answers are cheap to compute; MCVDS checks it       *)
(* against the definitions.                                                    *)
EXTENDS MerkleLog, SparseMap, ObjHash

CONSTANT KB       \* table of key positions: KB[k] = KeyBits(k)

------------------------------------------------------------------------------
(* Objects *)

EmptyLog == [kind |-> "log", ents |-> <<>>, hs |-> <<>>, lv |-> << <<>> >>]
\* ents: entries [li, ex, fmt]; hs: their leaf hashes; lv: Levels(hs)

LogHas(o, li) == \E i \in 1..Len(o.ents) : o.ents[i].li = li

\* One more element at the end of a levels table
RECURSIVE LvAdd(_, _, _)
LvAdd(lv, d, x) ==
    LET base == IF d <= Len(lv) THEN lv ELSE Append(lv, <<>>)
        row == Append(base[d], x)
        up == [base EXCEPT ![d] = row]
        n == Len(row)
    IN IF n % 2 = 1 THEN up ELSE LvAdd(up, d + 1, NodeH(row[n - 1], row[n]))

LogAppend(o, e) == LET h == LeafH(e.li)
                   IN [o EXCEPT !.ents = Append(@, e), !.hs = Append(@, h), !.lv = LvAdd(@, 1, h)]
LogAdd(o, e) == IF LogHas(o, e.li) THEN o ELSE LogAppend(o, e)

EmptyMap == [kind |-> "map", muts |-> <<>>, cont |-> <<>>, roots |-> <<>>,
             hs |-> <<>>, lv |-> << <<>> >>, ths |-> <<>>, tlv |-> << <<>> >>, data |-> [x \in {} |-> ""]]
\* muts: mutations [act, key, hv, li, ex, fmt, prev, lh], lh being the leaf hash of the mutation log entry
\* cont[n], roots[n]: contents and root after n; hs, lv: mutation log; ths, tlv: tree head log;
\* data: what was stored with each leaf input first

Cont(o, n) == IF n = 0 THEN EmptyContents ELSE o.cont[n]
MRoot(o, n) == IF n = 0 THEN Def(0) ELSE o.roots[n]

\* (TLC evaluates a bound variable once, and an operator's argument at every use)
Only(S) == CHOOSE x \in S : TRUE
MapNext(o, m, n, c, r, lv) ==
    LET tl == LeafH(HeadLeafInput(r, n + 1, RootL(lv, n + 1)))
        stored == c # Cont(o, n) /\ m.act # "delete" /\ m.li # "" /\ m.li \notin DOMAIN o.data
    IN [o EXCEPT !.muts = Append(@, m), !.cont = Append(@, c), !.roots = Append(@, r),
                 !.hs = Append(@, m.lh), !.lv = lv,
                 !.ths = Append(@, tl), !.tlv = LvAdd(@, 1, tl),
                 !.data = IF stored THEN [x \in (DOMAIN @) \cup {m.li} |-> IF x = m.li THEN [ex |-> m.ex, fmt |-> m.fmt] ELSE @[x]]
                          ELSE @]
MapApply(o, m) ==
    LET n == Len(o.muts)
    IN Only({MapNext(o, m, n, c, IF c = Cont(o, n) THEN MRoot(o, n) ELSE Root(c, KB), lv) :
             c \in {ApplyMut(Cont(o, n), m)}, lv \in {LvAdd(o.lv, 1, m.lh)}})

\* One after another (by halves: TLC is slow when a recursion gets deep)
RECURSIVE AppendAll(_, _)
AppendAll(o, s) ==
    IF Len(s) < 2 THEN IF s = <<>> THEN o ELSE LogAppend(o, s[1])
    ELSE LET k == Len(s) \div 2
         IN Only({AppendAll(x, r) : x \in {AppendAll(o, p) : p \in {SubSeq(s, 1, k)}}, r \in {SubSeq(s, k + 1, Len(s))}})
RECURSIVE ApplyMuts(_, _)
ApplyMuts(o, s) ==
    IF Len(s) < 2 THEN IF s = <<>> THEN o ELSE MapApply(o, s[1])
    ELSE LET k == Len(s) \div 2
         IN Only({ApplyMuts(x, r) : x \in {ApplyMuts(o, p) : p \in {SubSeq(s, 1, k)}}, r \in {SubSeq(s, k + 1, Len(s))}})

Size(o) == IF o.kind = "log" THEN Len(o.ents) ELSE Len(o.muts)
\* lt: "log", "mut" or "head"
Lv(o, lt) == IF lt = "head" THEN o.tlv ELSE o.lv
Hs(o, lt) == IF lt = "head" THEN o.ths ELSE o.hs

------------------------------------------------------------------------------
(* Answers. Every one is a record with a code; the other fields only count     *)
(* when the code is "OK". "ERR" stands for an error of any kind.               *)

Bad == [code |-> "InvalidArgument"]

HeadAns(o, lt, size) ==
    IF size < 0 \/ size > Size(o) THEN Bad
    ELSE LET n == IF size = 0 THEN Size(o) ELSE size
         IN [code |-> "OK", rs |-> n, root |-> IF n = 0 THEN "" ELSE RootL(Lv(o, lt), n)]

InclAt(o, lt, i, n) == [code |-> "OK", ri |-> i, rs |-> n, path |-> PathL(Lv(o, lt), i, n)]
InclIndexAns(o, lt, size, i) ==
    IF size < 0 \/ size > Size(o) THEN Bad
    ELSE LET n == IF size = 0 THEN Size(o) ELSE size
         IN IF 0 <= i /\ i < n THEN InclAt(o, lt, i, n) ELSE [code |-> "ERR"]
\* Two entries never share a leaf hash
IndexOf(s, h) == CHOOSE i \in 1..Len(s) : s[i] = h
InclHashAns(o, lt, size, h) ==
    IF size < 0 \/ size > Size(o) THEN Bad
    ELSE LET n == IF size = 0 THEN Size(o) ELSE size
         IN IF ~ \E i \in 1..Size(o) : Hs(o, lt)[i] = h THEN [code |-> "NotFound"]
            ELSE LET i == IndexOf(Hs(o, lt), h) - 1
                 IN IF i < n THEN InclAt(o, lt, i, n) ELSE [code |-> "ERR"]

ConsAns(o, lt, from, size) ==
    LET n == IF size = 0 THEN Size(o) ELSE size
    IN IF from < 1 \/ size < 0 \/ n > Size(o) \/ from >= n THEN Bad
       ELSE [code |-> "OK", rf |-> from, rs |-> n, path |-> ProofL(Lv(o, lt), from, n)]

\* Range of entries [first, last)
FetchRange(o, first, last) ==
    LET e == IF last = 0 THEN Size(o) ELSE last
    IN IF first < 0 \/ last < 0 \/ e > Size(o) \/ first >= e THEN Bad
       ELSE [code |-> "OK", a |-> first, b |-> e]

GetAns(o, key, size) ==
    IF size < 0 \/ size > Size(o) THEN Bad
    ELSE LET n == IF size = 0 THEN Size(o) ELSE size
             li == ValOf(Cont(o, n), key)
         IN [code |-> "OK", rs |-> n, li |-> li,
             ex |-> IF li = "" THEN "" ELSE o.data[li].ex,
             fmt |-> IF li = "" THEN 0 ELSE o.data[li].fmt]
GetProof(o, key, size) == SparseProof(Cont(o, IF size = 0 THEN Size(o) ELSE size), KB, key)

MapHeadAns(o, size) ==
    IF size < 0 \/ size > Size(o) THEN Bad
    ELSE LET n == IF size = 0 THEN Size(o) ELSE size
         IN [code |-> "OK", root |-> MRoot(o, n), ms |-> n, mroot |-> IF n = 0 THEN "" ELSE RootL(o.lv, n)]
=============================================================================
