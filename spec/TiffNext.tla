------------------------------ MODULE TiffNext ------------------------------
(* A standalone TIFF whose next directory (IFD1) lies far behind everything  *)
(* IFD0 refers to: the one layout where reading a stream and parsing from    *)
(* memory are known to differ (known-findings.jsonl, C01).                   *)
EXTENDS IfdLib
CONSTANTS Far
VARIABLES at, phase
Ifd0(p) == <<U2(1), U2(271), U2(2), U4(3), B(<<65, 66, 0, 0>>), U4(p)>>
Ifd1 == <<U2(1), U2(270), U2(2), U4(3), B(<<67, 68, 0, 0>>), U4(0)>>
Parts(p) == <<B(<<77, 77, 0, 42>>), U4(8)>> \o Ifd0(p) \o <<Z(p - 26, 170)>> \o Ifd1 \o <<Z(400, 170)>>
Want == [ok |-> [entries |-> << <<0, 271, <<"Text", "AB">> >>, <<1, 270, <<"Text", "CD">> >> >>, embedded |-> FALSE, gps |-> "none"]]
Init == at \in Far /\ phase = "go"
Give == phase = "go" /\ phase' = "done" /\ UNCHANGED at
        /\ Emit([k |-> "meta", suite |-> "tiffnext", id |-> at, paths |-> "all", parts |-> Parts(at), exp |-> [kind |-> "Image", exif |-> Want]])
Spec == Init /\ [][Give]_<<at, phase>>
=============================================================================
