-------------------------------- MODULE Rest ---------------------------------
(* The REST interface: what entry a request body stands for in each of the      *)
(* forms, what the requests do to an object, and what the answers show of it.   *)
(*   raw         the body is the leaf input                                      *)
(*   xjson       the body is JSON, kept as extra data; its object hash is the     *)
(*               leaf input                                                      *)
(*   redactable  the same after nonces have been added to every field             *)
(*   extra       the body spells out leaf input, extra data and format            *)
(* A body is [form, bad, raw, doc, x]: bad if it cannot be read in this form, doc *)
(* the JSON document in it, x the entry that it spells out. Statuses are written  *)
(* as the codes of the service that they stand for.                               *)
EXTENDS Observed, JsonLeaf

\* s is the entry that the body b stands for; sdoc is the document in its extra data
Stands(b, s, sdoc) ==
    CASE b.form = "raw" -> s = [li |-> b.raw, ex |-> "", fmt |-> 0]
      [] b.form = "xjson" -> s = [li |-> JHash(b.doc), ex |-> b.raw, fmt |-> 1]
      [] b.form = "redactable" -> s.fmt = 1 /\ IsRedactable(b.doc, sdoc) /\ s.li = JHash(sdoc)
      [] b.form = "extra" -> s = b.x

\* Keys are given as text or in hexadecimal
KeyOf(k) == IF k.form = "s" THEN Hex(k.text) ELSE k.text
KeyBad(k) == k.form = "h" /\ Len(k.text) % 2 = 1

\* What is shown of an entry: a part of it, or all of it
ShownAs(form, s, a) ==
    CASE form = "raw" -> a.raw = s.li
      [] form = "xjson" -> a.raw = s.ex
      [] form = "extra" -> a.x = s

\* ... when it is the entry of the log of a map (which the observer has read into the record a.e)
MutShown(form, m, a) ==
    CASE form = "raw" -> LeafH(a.raw) = m.lh
      [] form = "xjson" -> MutEntryIs([a.e EXCEPT !.li = MutLeafInput(Hex(a.e.ts), Hex(a.e.act), a.e.key, a.e.hv, a.e.vli, a.e.prev)], m)
      [] form = "extra" -> MutEntryIs(a.e, m) /\ a.e.fmt = 1
HeadShown(form, o, i, a) ==
    CASE form = "raw" -> LeafH(a.raw) = o.ths[i]
      [] form = "xjson" -> HeadEntryIs([a.e EXCEPT !.li = HeadLeafInput(a.e.root, a.e.ms, a.e.mroot)], o, i)
      [] form = "extra" -> HeadEntryIs(a.e, o, i) /\ a.e.fmt = 1
EntryShown(o, lt, i, form, a) ==
    CASE lt = "log" -> ShownAs(form, o.ents[i], a)
      [] lt = "mut" -> MutShown(form, o.muts[i], a)
      [] lt = "head" -> HeadShown(form, o, i, a)

\* The value of the Authorization header, in parts
ApiKey(parts) == IF Len(parts) = 2 /\ parts[1] = "Key" THEN parts[2] ELSE ""
=============================================================================
