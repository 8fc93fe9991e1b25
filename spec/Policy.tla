-------------------------------- MODULE Policy --------------------------------
(* Who may do what. Names and patterns are sequences of character codes.        *)
EXTENDS Naturals, Sequences, FiniteSets

Star == 42 \* *
Quest == 63 \* ?
LBr == 91 \* [
RBr == 93 \* ]
Caret == 94 \* ^
Dash == 45 \* -
BSl == 92 \* \
Slash == 47 \* /

------------------------------------------------------------------------------
(* Shell globs: * any characters but /, ? any one but /, [classes], \ escapes    *)

\* One end of a range at p[1..]: <<code, rest>>, or <<>> if malformed
RangeEnd(p) == IF p = <<>> \/ p[1] \in {Dash, RBr} THEN <<>>
               ELSE IF p[1] = BSl THEN IF Len(p) < 2 THEN <<>> ELSE <<p[2], SubSeq(p, 3, Len(p))>>
               ELSE <<p[1], Tail(p)>>
\* The ranges of a class up to its closing bracket: <<set of <<lo, hi>>, rest>>, or <<>> if malformed
RECURSIVE Ranges(_, _)
Ranges(p, acc) ==
    IF p = <<>> THEN <<>>
    ELSE IF p[1] = RBr /\ acc # {} THEN <<acc, Tail(p)>>
    ELSE LET a == RangeEnd(p)
         IN IF a = <<>> THEN <<>>
            ELSE IF a[2] # <<>> /\ a[2][1] = Dash
                 THEN LET b == RangeEnd(Tail(a[2]))
                      IN IF b = <<>> THEN <<>> ELSE Ranges(b[2], acc \cup {<<a[1], b[1]>>})
                 ELSE Ranges(a[2], acc \cup {<<a[1], a[1]>>})
\* The class after an opening bracket: [neg, set, rest], or <<>> if malformed
Class(p) == LET neg == p # <<>> /\ p[1] = Caret
                r == Ranges(IF neg THEN Tail(p) ELSE p, {})
            IN IF r = <<>> THEN <<>> ELSE <<neg, r[1], r[2]>>
InClass(c, x) == LET hit == \E r \in c[2] : r[1] <= x /\ x <= r[2] IN hit # c[1]

RECURSIVE WellFormed(_)
WellFormed(p) == IF p = <<>> THEN TRUE
                 ELSE IF p[1] = BSl THEN Len(p) >= 2 /\ WellFormed(SubSeq(p, 3, Len(p)))
                 ELSE IF p[1] = LBr THEN LET c == Class(Tail(p)) IN c # <<>> /\ WellFormed(c[3])
                 ELSE WellFormed(Tail(p))

RECURSIVE Match(_, _)     \* of a well-formed pattern
Match(p, s) ==
    IF p = <<>> THEN s = <<>>
    ELSE IF p[1] = Star THEN Match(Tail(p), s) \/ (s # <<>> /\ s[1] # Slash /\ Match(p, Tail(s)))
    ELSE IF s = <<>> THEN FALSE
    ELSE IF p[1] = Quest THEN s[1] # Slash /\ Match(Tail(p), Tail(s))
    ELSE IF p[1] = LBr THEN LET c == Class(Tail(p)) IN InClass(c, s[1]) /\ Match(c[3], Tail(s))
    ELSE IF p[1] = BSl THEN p[2] = s[1] /\ Match(SubSeq(p, 3, Len(p)), Tail(s))
    ELSE p[1] = s[1] /\ Match(Tail(p), Tail(s))
Glob(p, s) == WellFormed(p) /\ Match(p, s)

------------------------------------------------------------------------------
(* Static policy: a sequence of accounts [id, rules]; a rule is                  *)
(* [key, match, fields, perms]. A request is [acc, key, name, perm].             *)
AllPerms == 1
AllFields == <<"*">>
KeyOK(rule, key) == rule.key = "*" \/ (rule.key # "" /\ rule.key = key)
PermOK(rule, perm) == \E i \in 1..Len(rule.perms) : rule.perms[i] \in {AllPerms, perm}
RuleGrants(rule, r) == PermOK(rule, r.perm) /\ KeyOK(rule, r.key) /\ Glob(rule.match, r.name)
\* All rules of the requested account, in configuration order
RECURSIVE RulesOf(_, _)
RulesOf(cfg, acc) == IF cfg = <<>> THEN <<>> ELSE (IF Head(cfg).id = acc THEN Head(cfg).rules ELSE <<>>) \o RulesOf(Tail(cfg), acc)
Granting(cfg, r) == LET rs == RulesOf(cfg, r.acc) IN {i \in 1..Len(rs) : RuleGrants(rs[i], r)}
Granted(cfg, r) == Granting(cfg, r) # {}
\* The list of visible fields of a granted request
FieldsFor(cfg, r) == LET g == Granting(cfg, r) IN RulesOf(cfg, r.acc)[CHOOSE i \in g : \A j \in g : i <= j].fields
SeesAll(fields) == fields = AllFields

------------------------------------------------------------------------------
(* The permission that belongs to each operation; 0: no permission allows it     *)
LogRawAdd == 8
LogReadEntry == 9
LogReadHash == 10
LogProveInclusion == 11
MapSet == 12
MapGet == 13
MutReadEntry == 14
MutReadHash == 15
Needed(op, lt) ==
    CASE op \in {"set", "delete", "update"} -> MapSet
      [] op \in {"get", "mhead"} -> MapGet
      [] lt = "log" -> (CASE op = "add" -> LogRawAdd
                         [] op = "fetch" -> LogReadEntry
                         [] op \in {"head", "cons"} -> LogReadHash
                         [] op \in {"inclidx", "inclhash"} -> LogProveInclusion)
      [] op = "add" -> 0
      [] lt = "mut" /\ op = "fetch" -> MutReadEntry
      [] OTHER -> MutReadHash
Writes == {"add", "set", "delete", "update"}
=============================================================================
