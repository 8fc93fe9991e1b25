-------------------------------- MODULE Hash --------------------------------
(* The hash algebra. As written here, hashes are free terms (no two different *)
(* inputs collide), which is what the model checking configurations use. When *)
(* TLC runs with java/vds/Overrides these operators compute SHA-256 over byte *)
(* strings written as lower case hex, so that the very same modules compute   *)
(* the hashes that the implementation has to produce.                         *)
EXTENDS Naturals, Sequences

\* Leaf hash: SHA-256(00 || x)
LeafH(x) == "L(" \o x \o ")"

\* Node hash: SHA-256(01 || l || r)
NodeH(l, r) == "N(" \o l \o "," \o r \o ")"

\* Plain SHA-256(x)
Sha(x) == "S(" \o x \o ")"

\* The bytes of a string literal
Hex(x) == x

\* The bytes of the base64 text of a byte string
B64(x) == "b64(" \o x \o ")"

\* Concatenation of the strings of a sequence in increasing order; symbolically a bag is enough,
\* so the caller passes an already canonical sequence.
RECURSIVE SortConcat(_)
SortConcat(s) == IF s = <<>> THEN "" ELSE Head(s) \o SortConcat(Tail(s))

\* The position of a key in the sparse tree: 256 bits of SHA-256(k), most significant first.
\* Model configurations substitute a short injective table.
KeyBits(k) == <<>>

\* Depth of the sparse tree (256); model configurations substitute a small one.
Depth == 256
=============================================================================
