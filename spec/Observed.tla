------------------------------- MODULE Observed -------------------------------
(* Entries of logs as read from the real service, related to VDS                *)
EXTENDS VDS

Pairs(v) == [i \in 1..Len(v) |-> [li |-> v[i].li, ex |-> v[i].ex, fmt |-> v[i].fmt]]

AsMut(v) == [act |-> v.act, key |-> v.key, hv |-> v.hv, li |-> v.vli, ex |-> v.vex, fmt |-> v.vfmt, prev |-> v.prev, lh |-> LeafH(v.li)]
AsMuts(v) == [i \in 1..Len(v) |-> AsMut(v[i])]

\* A mutation log entry as observed states the mutation and is hashed as it should be
MutEntryOK(v) == /\ v.okp
                 /\ v.li = MutLeafInput(Hex(v.ts), Hex(v.act), v.key, v.hv, v.vli, v.prev)
MutEntryIs(v, m) ==
    /\ MutEntryOK(v)
    /\ LeafH(v.li) = m.lh
    /\ v.act = m.act /\ v.key = m.key /\ v.hv = m.hv /\ v.prev = m.prev
    /\ v.hv => v.vli = m.li /\ v.vex = m.ex /\ v.vfmt = m.fmt
HeadEntryIs(v, o, i) ==
    /\ v.okp
    /\ v.root = o.roots[i] /\ v.ms = i /\ v.mroot = RootL(o.lv, i)
    /\ LeafH(v.li) = o.ths[i]
=============================================================================
