------------------------------- MODULE MCPolicy -------------------------------
(* The declarative policy of Policy against the rule by rule decision procedure, *)
(* with a state machine that takes requests to objects through the decision; and *)
(* laws of globs.                                                                *)
EXTENDS Policy, TLC
VARIABLES cfg, pc, pos, req, res

A == 97
Nm == {<<A>>, <<A, 98>>}
Pats == {<<A>>, <<Star>>, <<A, Quest>>, <<LBr>>, <<LBr, A, RBr>>}
Rules == [key : {"", "*", "k"}, match : {<<A>>, <<A, Star>>, <<LBr>>}, fields : {<<"*">>, <<"f">>}, perms : {<<>>, <<1>>, <<9>>, <<10, 9>>}]
Reqs == [acc : {"x", "y"}, key : {"", "k", "j"}, name : Nm, perm : {9, 12}]
Cfgs == {<<[id |-> "x", rules |-> <<r>>]>> : r \in Rules}
     \cup {<<[id |-> "x", rules |-> <<r, s>>]>> : r, s \in Rules}
     \cup {<<[id |-> "x", rules |-> <<r>>], [id |-> "y", rules |-> <<s>>]>> : r, s \in {q \in Rules : q.key # "*"}}

\* The decision procedure: looks at one rule after the other, over all accounts
Flat(c) == LET RECURSIVE F(_)
               F(x) == IF x = <<>> THEN <<>> ELSE [i \in 1..Len(Head(x).rules) |-> <<Head(x).id, Head(x).rules[i]>>] \o F(Tail(x))
           IN F(c)
Init == cfg \in Cfgs /\ req \in Reqs /\ pc = "scan" /\ pos = 1 /\ res = "none"
Step == LET fl == Flat(cfg)
        IN IF pos > Len(fl) THEN pc' = "done" /\ res' = "denied" /\ UNCHANGED <<cfg, req, pos>>
           ELSE LET a == fl[pos][1]
                    r == fl[pos][2]
                IN IF a = req.acc /\ PermOK(r, req.perm) /\ KeyOK(r, req.key) /\ Glob(r.match, req.name)
                   THEN pc' = "done" /\ res' = r.fields[1] /\ UNCHANGED <<cfg, req, pos>>
                   ELSE pos' = pos + 1 /\ UNCHANGED <<cfg, req, pc, res>>
Next == pc = "scan" /\ Step
Agrees == pc = "done" =>
             IF Granted(cfg, req) THEN res = FieldsFor(cfg, req)[1] ELSE res = "denied"
Sound == pc = "done" /\ res # "denied" => \E i \in 1..Len(cfg) : cfg[i].id = req.acc /\ \E j \in 1..Len(cfg[i].rules) : cfg[i].rules[j].key \in {"*", req.key}

\* Laws of globs
Chars == {A, 98, Slash}
Strs == {<<>>} \cup {<<a>> : a \in Chars} \cup {<<a, b>> : a, b \in Chars} \cup {<<a, b, c>> : a, b, c \in Chars}
PC == {A, Star, Quest, LBr, RBr, Caret, Dash, BSl}
Ps == {<<>>} \cup {<<a>> : a \in PC} \cup {<<a, b>> : a, b \in PC} \cup {<<a, b, c>> : a, b, c \in PC}
Special == {Star, Quest, LBr, BSl}
NoSlash(s) == \A i \in 1..Len(s) : s[i] # Slash
ASSUME \A s \in Strs : Glob(<<Star>>, s) <=> NoSlash(s)
ASSUME \A s \in Strs : \A p \in Strs : Glob(p, s) <=> p = s                                         \* plain patterns
ASSUME \A p \in Ps : WellFormed(p) => \A s \in Strs : Glob(p \o <<Star>>, s) <=> \E n \in 0..Len(s) : Match(p, SubSeq(s, 1, n)) /\ NoSlash(SubSeq(s, n + 1, Len(s)))
ASSUME \A p \in Ps : WellFormed(p) => \A s \in Strs : Glob(<<Star>> \o p, s) <=> \E n \in 0..Len(s) : Match(p, SubSeq(s, n + 1, Len(s))) /\ NoSlash(SubSeq(s, 1, n))
ASSUME \A p \in Ps : \A s \in Strs : ~WellFormed(p) => ~Glob(p, s)
ASSUME \A s \in Strs : Glob(<<LBr, Caret, A, RBr>>, s) <=> Len(s) = 1 /\ s[1] # A
\* Exactly the reads of entries of a mutation log have a permission of their own; nothing allows adding to derived logs
ASSUME \A op \in {"fetch", "head", "cons", "inclidx", "inclhash"} : \A lt \in {"mut", "head"} : Needed(op, lt) = MutReadEntry <=> (op = "fetch" /\ lt = "mut")
ASSUME \A lt \in {"mut", "head"} : Needed("add", lt) = 0
=============================================================================
