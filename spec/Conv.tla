-------------------------------- MODULE Conv --------------------------------
(* Decimal degrees to degrees, minutes, seconds; reference letters; and the   *)
(* renderings of the values of one type are pairwise distinct.                *)
EXTENDS Lay, FiniteSets
CONSTANTS Bases, Deltas, Pick, Job
\* decimal degrees in thousandths of an arc second
Lim == 648000000
Cand == IF Job # "deg" THEN {0} ELSE
        {x \in {60000 * m + d : m \in Bases, d \in Deltas} \cup {60000 * m - d : m \in Bases, d \in Deltas} : x >= 0 /\ x <= Lim + 200000000 /\ x % 10 # 5}
        \cup {x \in {RandomElement(0..(Lim + 1000)) : i \in 1..Pick} : x % 10 # 5}
VARIABLES x, neg, d, m, s, phase
vars == <<x, neg, d, m, s, phase>>
Odd == {"nan", "inf", "over", "far"}
\* x is a number or, when oddk is set, one of the values that are no coordinate
Init == /\ x \in Cand /\ neg \in BOOLEAN /\ d = 0 /\ m = 0 /\ s = (x + 5) \div 10 /\ phase = IF Job = "deg" THEN "split" ELSE "give"
\* carry hundredths of seconds into minutes and minutes into degrees
CarryM == /\ phase = "split" /\ m' = s \div 6000 /\ s' = s % 6000 /\ phase' = "deg" /\ UNCHANGED <<x, neg, d>>
CarryD == /\ phase = "deg" /\ d' = m \div 60 /\ m' = m % 60 /\ phase' = "give" /\ UNCHANGED <<x, neg, s>>
Normal == phase = "give" /\ Job = "deg" => m < 60 /\ s < 6000
Abs(i) == IF i < 0 THEN -i ELSE i
Close == phase = "give" /\ Job = "deg" => Abs((((d * 60 + m) * 6000 + s) * 10) - x) <= 5
Ok == [close |-> TRUE, norm |-> TRUE, back |-> TRUE]
DegV == [k |-> "deg", suite |-> "deg", id |-> [x |-> x, neg |-> neg], exp |-> IF x > Lim THEN "err" ELSE Ok]
OddV(o, n) == [k |-> "deg", suite |-> "deg", id |-> [x |-> o, neg |-> n], exp |-> "err"]
\* reference letters, either case
Row(c, la, lo, sp) == [c |-> c, exp |-> [lat |-> la, lon |-> lo, speed |-> sp]]
No == "none"
Letters == << Row(78, <<"N", 1>>, No, "N"), Row(110, <<"N", 1>>, No, "N"), Row(83, <<"S", -1>>, No, No), Row(115, <<"S", -1>>, No, No),
              Row(69, No, <<"E", 1>>, No), Row(101, No, <<"E", 1>>, No), Row(87, No, <<"W", -1>>, No), Row(119, No, <<"W", -1>>, No),
              Row(75, No, No, "K"), Row(107, No, No, "K"), Row(77, No, No, "M"), Row(109, No, No, "M") >>
RefV == [k |-> "refs", suite |-> "refs", id |-> "letters", table |-> Letters]
Give == /\ phase = "give" /\ phase' = "done" /\ UNCHANGED <<x, neg, d, m, s>>
        /\ IF Job = "deg" THEN Emit(DegV) ELSE (Emit(RefV) /\ \A o \in Odd, n \in BOOLEAN : Emit(OddV(o, n)))
Next == CarryM \/ CarryD \/ Give
Spec == Init /\ [][Next]_vars
MinuteBases == 0..10800
MinuteSome == {0, 1, 2, 59, 60, 61, 119, 120, 2399, 2400, 5399, 5400, 5401, 10739, 10740, 10799, 10800, 10801, 11000, 14000}
=============================================================================
