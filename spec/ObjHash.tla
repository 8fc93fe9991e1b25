------------------------------- MODULE ObjHash -------------------------------
(* Object hashes of JSON documents (the algorithm of the library's JavaScript  *)
(* client), and the leaf inputs the service derives: of mutation log entries   *)
(* and of tree head log entries. A hashed value is the hash itself, so that    *)
(* redaction (a value replaced by its hash) is the identity.                   *)
EXTENDS Hash, Integers, TLC

JStr(x) == Sha(Hex("u") \o x)
JTrue == Sha(Hex("b1"))
JFalse == Sha(Hex("b0"))
JNull == Sha(Hex("n"))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
JList(hs) == Sha(Hex("l") \o Cat(hs))
\* fields: a sequence of <<name, hash of value>>, names as hex
JObj(fields) == Sha(Hex("d") \o SortConcat([i \in 1..Len(fields) |-> JStr(fields[i][1]) \o fields[i][2]]))

\* Normalised form of a positive whole number as a float
RECURSIVE Ceil2(_, _)
Ceil2(n, e) == IF 2^e >= n THEN e ELSE Ceil2(n, e + 1)
RECURSIVE Digits(_, _)     \* binary digits of n/2^e below the point, until nothing remains; n < 2^e
Digits(n, e) == IF n = 0 THEN "" ELSE IF 2 * n >= 2^e THEN "1" \o Digits(2 * n - 2^e, e) ELSE "0" \o Digits(2 * n, e)
FloatNorm(n) == LET e == Ceil2(n, 0)
                IN "+" \o ToString(e) \o ":" \o (IF 2^e = n THEN "1" ELSE "0" \o Digits(n, e))
JInt(n) == Sha(Hex("f" \o FloatNorm(n)))

Name(s) == Hex(s)

LogHeadObj(size, root) == JObj(<< <<Name("tree_size"), JInt(size)>>, <<Name("root_hash"), JStr(B64(root))>> >>)

\* Leaf input of the tree head log entry that states a map root and a mutation log head
HeadLeafInput(root, msize, mroot) ==
    JObj(<< <<Name("root_hash"), JStr(B64(root))>>, <<Name("mutation_log"), LogHeadObj(msize, mroot)>> >>)

Opt(x, f) == IF x = "" THEN <<>> ELSE <<f>>
\* Leaf input of a mutation log entry: everything but the value's extra data and format
MutLeafInput(ts, act, key, hv, li, prev) ==
    JObj(Opt(ts, <<Name("timestamp"), JStr(ts)>>)
         \o Opt(act, <<Name("action"), JStr(act)>>)
         \o Opt(key, <<Name("key"), JStr(B64(key))>>)
         \o (IF hv THEN << <<Name("value"), JObj(Opt(li, <<Name("leaf_input"), JStr(B64(li))>>))>> >> ELSE <<>>)
         \o Opt(prev, <<Name("previous_leaf_hash"), JStr(B64(prev))>>))
=============================================================================
