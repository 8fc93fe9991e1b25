---------------------------- MODULE TraceMapClient ----------------------------
(* What the real client of a map concludes that does not trust the server: map   *)
(* audits and verified states and values. The lists that a trace is about come    *)
(* first; what they make of the map is computed from the mutations by VDS.         *)
(* Audits:                                                                        *)
(*   muts, heads   the entries the server now delivers from the mutation log and   *)
(*                 the tree head log (true or not; those of the first event are)   *)
(*   maudit        an audit between two heads of the tree head log: vals, chg are   *)
(*                 the calls of the callbacks, failing at call stopv, stopc         *)
(* States:                                                                        *)
(*   world         a history of the map; several make forks                         *)
(*   vstate        a verified state was asked for, holding one                      *)
(*   vget          a verified value at a state                                      *)
(* honest: the server answered as it should (for world 1, of hs mutations then).    *)
(* Refusals of dishonest answers are not recorded, except for audits.               *)
EXTENDS Observed, TLC, Json, IOUtils

NTraces == atoi(IOEnv.NTRACES)
Traces == TLCEval([i \in 1..NTraces |-> ndJsonDeserialize(IOEnv.TRACEDIR \o "/t" \o ToString(i) \o ".ndjson")])
KeysOf(e) == CASE e.ev = "keys" -> {e.key}
               [] e.ev = "muts" -> {e.v[x].key : x \in 1..Len(e.v)}
               [] e.ev = "world" -> {e.muts[x].key : x \in 1..Len(e.muts)}
               [] OTHER -> {}
TraceKeys == LET T == Traces
             IN UNION {UNION {KeysOf(T[i][j]) : j \in 1..Len(T[i])} : i \in 1..Len(T)}
TraceKB == TLCEval([k \in TraceKeys |-> KeyBits(k)])

VARIABLES t, l, obj, heads, hlv, base, worlds
vars == <<t, l, obj, heads, hlv, base, worlds>>

Valid(v) == MutEntryOK(v) /\ v.act \in {"set", "delete", "update"}
RECURSIVE ValidLen(_, _)
ValidLen(v, i) == IF i > Len(v) THEN Len(v) ELSE IF Valid(v[i]) THEN ValidLen(v, i + 1) ELSE i - 1
RECURSIVE Agreed(_, _, _)      \* length of the common prefix
Agreed(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN i - 1 ELSE IF a[i] # b[i] THEN i - 1 ELSE Agreed(a, b, i + 1)

------------------------------------------------------------------------------
(* Audits. obj is the map that the valid prefix of the delivered mutations makes  *)

Cut(s, n) == SubSeq(s, 1, n)
Back(o, n) == \* o before what followed its first n mutations
    [o EXCEPT !.muts = Cut(@, n), !.cont = Cut(@, n), !.roots = Cut(@, n), !.hs = Cut(@, n), !.ths = Cut(@, n), !.lv = Levels(Cut(o.hs, n)), !.tlv = Levels(Cut(o.ths, n))]
Reread(o, v) == LET s == AsMuts(SubSeq(v, 1, ValidLen(v, 1)))
                    k == Agreed(s, o.muts, 1)
                IN ApplyMuts(IF k = Len(o.muts) THEN o ELSE IF k = 0 THEN EmptyMap ELSE Back(o, k), SubSeq(s, k + 1, Len(s)))

Min(a, b) == IF a < b THEN a ELSE b
Mark(m) == IF m.hv THEN m.li ELSE "nil"
Changed(i) == Cont(obj, i) # Cont(obj, i - 1)
RECURSIVE Changes(_, _)
Changes(i, n) == IF i > n THEN <<>>
                 ELSE (IF Changed(i) THEN << <<i - 1, obj.muts[i].key, Mark(obj.muts[i])>> >> ELSE <<>>) \o Changes(i + 1, n)
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

HeadGood(h) == /\ h.okp /\ h.ms >= 1 /\ h.ms <= Len(obj.muts)
               /\ h.root = obj.roots[h.ms] /\ h.mroot = RootL(obj.lv, h.ms)
               /\ h.li = HeadLeafInput(h.root, h.ms, h.mroot)
\* the entries after the first m of a log, as delivered, are those of a log with these hashes and heads
Fits(lv, e, m, n) == /\ n <= Len(lv[1]) /\ e.head.root = RootL(lv, n) /\ (m > 0 => e.prev.root = RootL(lv, m))
                     /\ SubSeq(hlv[1], m + 1, n) = SubSeq(lv[1], m + 1, n)

MAuditOK(e) ==
    LET m == IF e.prev.n < 0 THEN 0 ELSE e.prev.n
        n == e.head.n
        trivial == n <= e.prev.n \/ n < 1
        total == Len(obj.muts)
        all == Changes(1, total)
        need == IF trivial THEN 0 ELSE CHOOSE x \in {heads[i].ms : i \in (m + 1)..n} : \A i \in (m + 1)..n : heads[i].ms <= x
        k == Len(e.vals)
    IN /\ e.code \in {"OK", "FAIL"}
       \* the callbacks: every mutation, and every change, in order (one that cannot be applied may be shown before it is refused)
       /\ IF e.nov THEN e.vals = <<>> ELSE (k <= total \/ (k = total + 1 /\ e.code = "FAIL")) /\ \A i \in 1..Min(k, total) : e.vals[i] = Mark(obj.muts[i])
       /\ IF e.noc THEN e.chg = <<>>
          ELSE /\ IsPrefix(e.chg, all)
               /\ ~e.nov => e.chg = Changes(1, Min(k, total)) \/ (e.code = "FAIL" /\ e.chg = Changes(1, k - 1))
       /\ ~trivial =>
          /\ e.code = "OK" =>
             /\ n <= Len(heads) /\ (Fits(hlv, e, m, n) \/ Fits(base, e, m, n))
             /\ \A i \in (m + 1)..n : HeadGood(heads[i])
             /\ ~e.nov => k >= need
             /\ ~e.noc => Len(e.chg) >= Len(Changes(1, need))
             /\ e.stopv = 0 \/ e.stopv > k
             /\ e.stopc = 0 \/ e.stopc > Len(e.chg)
          /\ e.honest => e.code = "OK"

------------------------------------------------------------------------------
(* States and values                                                            *)

W == 1..Len(worlds)
THeads(n, root) == {i \in W : n >= 1 /\ n <= Len(worlds[i].ths) /\ root = RootL(worlds[i].tlv, n)}
MHeads(n, root) == {i \in W : n >= 1 /\ n <= Len(worlds[i].hs) /\ root = RootL(worlds[i].lv, n)}
SameTH(a, b) == \E i \in THeads(a.tn, a.troot), j \in THeads(b.tn, b.troot) :
                   LET m == Min(a.tn, b.tn) IN Cut(worlds[i].ths, m) = Cut(worlds[j].ths, m)
SameML(a, b) == \E i \in MHeads(a.ms, a.mroot), j \in MHeads(b.ms, b.mroot) :
                   LET m == Min(a.ms, b.ms) IN Cut(worlds[i].hs, m) = Cut(worlds[j].hs, m)
Logged(s) == \E i \in THeads(s.tn, s.troot) : \E k \in 1..s.tn : worlds[i].ths[k] = LeafH(HeadLeafInput(s.root, s.ms, s.mroot))

None == "none"
HonestState(e) ==
    LET o == worlds[e.honest]
        want == IF e.latest THEN 0 ELSE e.want
        n == IF want = 0 THEN e.hs ELSE want
    IN IF ~e.latest /\ want # 0 /\ e.held.k # None /\ e.held.ms = want THEN e.code = "OK" /\ e.res = e.held
       ELSE IF want < 0 \/ want > e.hs THEN e.code = "FAIL"
       ELSE IF n = 0 THEN e.code = (IF e.held.k = None THEN "NIL" ELSE "OK")
       ELSE /\ e.code = "OK"
            /\ e.res.k # None
            /\ e.res.ms = n /\ e.res.root = o.roots[n] /\ e.res.mroot = RootL(o.lv, n)
            /\ e.res.tn <= e.hs /\ e.res.tn >= n

VStateOK(e) ==
    /\ e.code \in {"OK", "FAIL", "NIL"}
    /\ e.code = "NIL" => e.held.k = None
    /\ e.code = "OK" /\ e.res # e.held =>
          /\ Logged(e.res)
          /\ e.held.k # None => SameTH(e.held, e.res) /\ SameML(e.held, e.res)
    /\ e.code = "OK" /\ e.latest /\ e.held.k # None => e.res.ms >= e.held.ms
    /\ e.honest # 0 => HonestState(e)

\* the contents that a map root stands for
ContentsAt(s) == LET i == CHOOSE j \in W : s.ms <= Len(worlds[j].muts) /\ worlds[j].roots[s.ms] = s.root
                 IN worlds[i].cont[s.ms]
VGetOK(e) ==
    /\ e.code \in {"OK", "FAIL", "NIL"}
    /\ e.code # "FAIL" => e.li = ValOf(ContentsAt(e.state), e.key)
    /\ e.honest # 0 => e.code = "OK"

\* What the JavaScript client says of the head of the map, and of its own changes (the x-th of world 1)
MHeadOK(e) ==
    LET o == worlds[e.honest]
        n == IF e.want = 0 THEN e.hs ELSE e.want
    IN IF e.want > e.hs THEN e.code = "FAIL"
       ELSE /\ e.code = "OK" /\ e.ms = n /\ e.root = MRoot(o, n)
            /\ e.mroot = IF n = 0 THEN "" ELSE RootL(o.lv, n)
MSetOK(e) == LET m == worlds[1].muts[e.x]
             IN /\ e.code = "OK" /\ e.lh = worlds[1].hs[e.x]
                /\ m.act = e.act /\ m.key = e.key /\ (m.hv => m.li = e.li)
\* entries of the logs of the map, hashed by the JavaScript client
MReadOK(e) == /\ e.code = "OK"
              /\ e.got = (IF e.lt = "mut" THEN Cut(worlds[1].hs, e.n) ELSE Cut(worlds[1].ths, e.n))

Conforms(e) ==
    CASE e.ev = "maudit" -> MAuditOK(e)
      [] e.ev = "mhead" -> MHeadOK(e)
      [] e.ev = "mset" -> MSetOK(e)
      [] e.ev = "mread" -> MReadOK(e)
      [] e.ev = "vstate" -> VStateOK(e)
      [] e.ev = "vget" -> VGetOK(e)
      [] e.ev = "crash" -> FALSE
      [] OTHER -> TRUE

World(e) == LET o == ApplyMuts(EmptyMap, AsMuts(e.muts))
            IN [o EXCEPT !.ths = [i \in 1..Len(e.heads) |-> LeafH(e.heads[i].li)], !.tlv = Levels([i \in 1..Len(e.heads) |-> LeafH(e.heads[i].li)])]

Init == t \in 1..NTraces /\ l = 1 /\ obj = EmptyMap /\ heads = <<>> /\ hlv = << <<>> >> /\ base = << <<>> >> /\ worlds = <<>>
Next == /\ l <= Len(Traces[t])
        /\ LET e == Traces[t][l]
           IN IF Conforms(e)
              THEN /\ l' = l + 1 /\ t' = t
                   /\ obj' = IF e.ev = "muts" THEN Reread(obj, e.v) ELSE obj
                   /\ heads' = IF e.ev = "heads" THEN e.v ELSE heads
                   /\ hlv' = IF e.ev = "heads" THEN Levels([i \in 1..Len(e.v) |-> LeafH(e.v[i].li)]) ELSE hlv
                   /\ base' = IF e.ev = "heads" /\ heads = <<>> THEN hlv' ELSE base
                   /\ worlds' = IF e.ev = "world" THEN Append(worlds, World(e)) ELSE worlds
              ELSE PrintT(<<"REJECT", t, l>>) /\ FALSE
View == <<t, l>>
Where == [t |-> t, l |-> l]
Spec == Init /\ [][Next]_vars
=============================================================================
