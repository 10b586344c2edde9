------------------------------ MODULE CatTest ------------------------------
(* Every catalog file over every access path (C01).                          *)
EXTENDS Catalog
CONSTANTS Names, Mode
VARIABLES n, phase
Init == n \in Names /\ phase = "go"
Vector == [k |-> "meta", suite |-> "catalog", id |-> n, paths |-> Mode, parts |-> File(n).parts,
           exp |-> [kind |-> Answer(n, "kind"), exif |-> Answer(n, "exif"), track |-> Answer(n, "track"), imeta |-> Answer(n, "imeta"),
                    meta |-> IF n \in Bads THEN Answer(n, "exif") ELSE IF File(n).cls = "trk" THEN [track |-> File(n).track]
                             ELSE IF File(n).has THEN [image |-> [ok |-> EagerAns(n)]] ELSE Answer(n, "exif"),
                    eager |-> IF File(n).has THEN [ok |-> EagerAns(n)] ELSE Answer(n, "exif")]]
Give == phase = "go" /\ phase' = "done" /\ UNCHANGED n /\ Emit(Vector)
Spec == Init /\ [][Give]_<<n, phase>>
=============================================================================
