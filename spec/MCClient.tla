-------------------------------- MODULE MCClient --------------------------------
(* A client that holds a head of a real list talks to a server that may answer    *)
(* anything: every head over, and every proof from, the universe of all hashes    *)
(* of the list, its forks, and a foreign one. One state per held head and answer. *)
EXTENDS Client, TLC
CONSTANTS MaxN, MaxPath

Leaf(i) == LeafH(ToString(i))
Lst(n) == [i \in 1..n |-> Leaf(i)]
Fork(n) == [i \in 1..n |-> IF i = n THEN Leaf(100 + i) ELSE Leaf(i)]
RECURSIVE Terms(_)
Terms(h) == IF Len(h) = 1 THEN {h[1]}
            ELSE LET k == K(Len(h)) IN {MTH(h)} \cup Terms(SubSeq(h, 1, k)) \cup Terms(SubSeq(h, k + 1, Len(h)))
Universe == UNION {Terms(Lst(n)) : n \in 1..MaxN} \cup {Leaf(100 + MaxN), MTH(Fork(MaxN)), MTH(Fork(2)), "foreign"}
RECURSIVE Paths(_)
Paths(k) == IF k = 0 THEN {<<>>} ELSE LET P == Paths(k - 1) IN P \cup {Append(p, u) : p \in {x \in P : Len(x) = k - 1}, u \in Universe}
AllPaths == Paths(MaxPath)

VARIABLE q
Held == {Lst(n) : n \in 1..MaxN} \cup {Fork(2)}
Init == q = <<"start">>
Next == \/ q = <<"start">> /\ \E s \in Held \cup {<<>>}, n \in -1..(MaxN + 1) : q' = <<"group", s, n>>
        \/ /\ q[1] = "group"
           /\ \/ \E r \in Universe \cup {""} : q' = <<"head", q[2], q[3], r>>
              \/ q[3] >= 1 /\ q[3] <= MaxN /\ Len(q[2]) < q[3] /\ \E f \in BOOLEAN : q' = <<"audit", q[2], q[3], f>>

\* The root of a tree of n entries that has the entries s in front; what comes after them may be any hash
RECURSIVE Embeds(_, _, _)
Embeds(s, a, b) == IF b <= Len(s) THEN {MTH(SubSeq(s, a + 1, b))}
                   ELSE IF a >= Len(s) THEN Universe
                   ELSE LET k == K(b - a) IN {NodeH(x, y) : x \in Embeds(s, a, a + k), y \in Embeds(s, a + k, b)}
Consistent(s, h) ==
    IF h.n < 1 THEN FALSE
    ELSE IF h.n <= Len(s) THEN h.root = MTH(Prefix(s, h.n))
    ELSE h.root \in Embeds(s, 0, h.n)

HeadOK(s, ans) ==
    LET held == Head0(Len(s), MTH(s))
        con == Consistent(s, ans)
    IN \A p \in AllPaths :
          /\ \A want \in {0, Len(s), 1, MaxN} :
                LET h == VerifiedHead(held, want, ans, p) IN h # NoHead => (h = held \/ con)
          /\ LET h == VerifiedLatest(held, ans, p) IN h # NoHead => h.n >= held.n /\ (h = held \/ con)
\* Before anything is held, anything is taken; a true server is always believed
TrustOK(n) ==
    \A m \in -1..MaxN : \A w \in 0..n :
        n \in 1..MaxN =>
        LET held == IF m = -1 THEN NoHead ELSE IF m = 0 THEN Head0(0, "") ELSE Head0(m, MTH(Lst(m)))
            size == IF w = 0 THEN n ELSE w
            ans == Head0(size, MTH(Lst(size)))
            a == IF m < size THEN m ELSE size
            b == IF m < size THEN size ELSE m
            p == IF a >= 1 /\ a < b THEN CPROOF(a, Lst(b)) ELSE <<>>
        IN m <= n => /\ VerifiedHead(held, w, ans, p) = ans
                     /\ VerifiedLatest(held, Head0(n, MTH(Lst(n))), IF m >= 1 /\ m < n THEN CPROOF(m, Lst(n)) ELSE <<>>) = Head0(n, MTH(Lst(n)))

\* f: the head is that of a fork of the list whose audit starts at s
AuditOK(s, n, f) ==
    LET h == IF f THEN Fork(n) ELSE Lst(n)
        m == Len(s)
        prev == IF m = 0 THEN NoHead ELSE Head0(m, MTH(s))
        pool == {Leaf(i) : i \in 1..n} \cup {Leaf(100 + n), Leaf(100 + MaxN), "foreign"}
        starts == IF m = 0 THEN {<<>>} ELSE {p \in AllPaths : StartOK(prev, p)}    \* from the beginning, the path is not looked at
    IN /\ m >= 1 => starts = {APATH(m, Append(s, "foreign"))}
       /\ \A p \in starts : \A k \in 0..(n - m + 1) : \A es \in [1..k -> pool] :
             Audit(prev, Head0(n, MTH(h)), p, es) <=> s \o es = h

Inv == CASE q[1] = "start" -> TRUE
         [] q[1] = "group" -> q[2] # <<>> \/ TrustOK(q[3])
         [] q[1] = "head" -> q[2] = <<>> \/ HeadOK(q[2], Head0(q[3], q[4]))
         [] q[1] = "audit" -> AuditOK(q[2], q[3], q[4])
=============================================================================
