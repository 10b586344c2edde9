------------------------------ MODULE EagerLib ------------------------------
(* What an eager Exif must hold, given what the lazy iterator delivers (C16). *)
(* es: the entries <<directory, tag, value>>, bad: the positions that are     *)
(* errors, g: GPS info, emb: embedded-track flag                              *)
EXTENDS Lay, TagTable
RECURSIVE TakeIdx(_, _, _, _)
TakeIdx(es, ok(_), k, acc) == IF k > Len(es) THEN acc ELSE TakeIdx(es, ok, k + 1, IF ok(k) THEN Append(acc, es[k]) ELSE acc)
KnownE(x)  == x[2] \in KnownCodes
MainE(x)   == x[1] = 0
Multi(s)   == [xset |-> s]
\* an unusable GPS directory is reported at its pointer (decided by Gps.tla)
GpsFail == << <<0, 34853, <<"!", "InvalidValue">> >> >>
\* must/may: what the GPS directory adds to the errors
EagerWith(es, bad, g, emb, must, may) ==
  LET ok == TakeIdx(es, LAMBDA k : k \notin bad, 1, <<>>)
      known == SelectSeq(ok, KnownE)
  IN [iter |-> Multi(ok), by_code |-> Multi(ok), by_tag |-> Multi(known), main |-> Multi(SelectSeq(known, MainE)),
      errors |-> [xset |-> TakeIdx(es, LAMBDA k : k \in bad, 1, <<>>) \o must, xopt |-> may], embedded |-> emb, gps |-> g]
EagerVal(es, bad, g, emb) == EagerWith(es, bad, g, emb, <<>>, GpsFail)
EagerOf(es, bad, g, emb) == [ok |-> EagerVal(es, bad, g, emb)]
\* the eager image metadata of an image that is not a PNG
EImetaOf(es, bad, g, emb) == [ok |-> [exif |-> EagerVal(es, bad, g, emb), text |-> "none"]]
=============================================================================
