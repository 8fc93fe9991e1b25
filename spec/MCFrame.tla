------------------------------- MODULE MCFrame -------------------------------
(* Several objects in one store, addressed by account, name and kind. Each       *)
(* object is a VDS object; a request goes to the object at its address. Checked: *)
(* the address determines the object and nothing else does, so that every object *)
(* is at all times what it would be if its requests were the only ones (twin);   *)
(* and no answer for an object changes by a request to another one.              *)
EXTENDS VDS, TLC
CONSTANTS MaxOps
MCDepth == 1
MCKB == "k1" :> <<0>> @@ "k2" :> <<1>>
Strs == {"", "a", "b"}
Kinds == {"log", "map"}
AllAddr == Strs \X Strs \X Kinds
Addr == {<<"a", "b", "log">>, <<"a", "b", "map">>, <<"", "ab", "log">>, <<"ab", "", "log">>, <<"b", "a", "map">>}
\* The place in the store: the object hash of a dictionary of the three parts
Place(a) == JObj(<< <<Hex("account"), JStr(Hex(a[1]))>>, <<Hex("name"), JStr(Hex(a[2]))>>, <<Hex("type"), JStr(Hex(a[3]))>> >>)
ASSUME \A a, b \in AllAddr \cup Addr : Place(a) = Place(b) => a = b

VARIABLES store,  \* place -> object
          alone,  \* address -> the object if it were alone
          n, last
vars == <<store, alone, n, last>>
New(a) == IF a[3] = "log" THEN EmptyLog ELSE EmptyMap
At(a) == IF Place(a) \in DOMAIN store THEN store[Place(a)] ELSE New(a)
PutAt(a, o) == store' = (Place(a) :> o) @@ store
Ent(x) == [li |-> x, ex |-> "", fmt |-> 0]
Mutn(x) == [act |-> "set", key |-> "k1", hv |-> TRUE, li |-> x, ex |-> "", fmt |-> 0, prev |-> "", lh |-> LeafH("m" \o ToString(n))]
Apply(o, a, x) == IF a[3] = "log" THEN LogAdd(o, Ent(x)) ELSE MapApply(o, Mutn(x))
Write(a, x) == PutAt(a, Apply(At(a), a, x)) /\ alone' = [alone EXCEPT ![a] = Apply(@, a, x)] /\ last' = a
Refused(a) == UNCHANGED <<store, alone>> /\ last' = a
Init == store = [p \in {} |-> 0] /\ alone = [a \in Addr |-> New(a)] /\ n = 0 /\ last = <<>>
Next == n < MaxOps /\ n' = n + 1 /\ \E a \in Addr : Refused(a) \/ \E x \in {"01", "02"} : Write(a, x)
Spec == Init /\ [][Next]_vars
Twin == \A a \in Addr : At(a) = alone[a]
FrameOK == \A a \in Addr : a # last' => At(a)' = At(a)
FrameProp == [][FrameOK]_vars
=============================================================================
