-------------------------------- MODULE Time --------------------------------
(* Date-time entries and the UTC offset entries of the Exif directory (C17). *)
EXTENDS IfdLib, Randomization

CONSTANTS Years, Months, Days, Hours, Mins, Secs,    \* field values of well-shaped dates
          Odd,          \* other date texts
          OffO, OffD, OffT,                           \* OffsetTimeOriginal / Digitized / OffsetTime
          OffOrd,       \* order of the three in the directory
          DateTags,     \* which date entry is examined
          DatePos,      \* "first" | "last": date entries before or after the offsets;
                        \* "many": first, with a lot of other entries in between
          PtrPos,       \* "first" | "last" | "many": ExifOffset relative to ModifyDate in IFD0
          Endian, DirOrd, Pick, Mode

VARIABLES c, phase, i, best, last
vars == <<c, phase, i, best, last>>

NoOdd == {}
OddAll == {"blank", "dashes", "iso", "short", "trailing", "letters", "utf8", "empty"}
OffAll == {"none", "+08:00", "-03:30", "+00:00", "-00:00", "+14:00", "-12:00", "+05:45", "+23:59", "blank", "empty", "letters", "+24:00", "+08:60", "+08:0", "+05:3", "-09:5", "+0800", "+8:00", "Z", "+08:000", "nonascii", "num"}
OffFew == {"none", "+08:00", "-03:30", "blank", "num"}
None == {"none"}

Shapes == [y : Years, mo : Months, d : Days, h : Hours, mi : Mins, s : Secs, odd : {"no"}]
          \cup [y : {0}, mo : {0}, d : {0}, h : {0}, mi : {0}, s : {0}, odd : Odd]
Cases == [dt : Shapes, oo : OffO, od : OffD, ot : OffT, ord : OffOrd, tag : DateTags, pos : DatePos, ptr : PtrPos, e : Endian, dord : DirOrd]
RandCase(n) == [dt |-> RandomElement(Shapes), oo |-> RandomElement(OffO), od |-> RandomElement(OffD), ot |-> RandomElement(OffT),
                ord |-> RandomElement(OffOrd), tag |-> RandomElement(DateTags), pos |-> RandomElement(DatePos),
                ptr |-> RandomElement(PtrPos), e |-> RandomElement(Endian), dord |-> RandomElement(DirOrd)]
Init == phase = "scan" /\ i = 1 /\ best = "none" /\ last = "none"
        /\ c \in IF Pick = 0 THEN Cases ELSE {RandCase(n) : n \in 1..Pick}

\* ---- text as character codes ----
Dg(x) == 48 + x
P2(x) == <<Dg(x \div 10), Dg(x % 10)>>
P4(x) == P2(x \div 100) \o P2(x % 100)
DateText == CASE c.dt.odd = "no" -> P4(c.dt.y) \o <<58>> \o P2(c.dt.mo) \o <<58>> \o P2(c.dt.d) \o <<32>> \o P2(c.dt.h) \o <<58>> \o P2(c.dt.mi) \o <<58>> \o P2(c.dt.s)
  [] c.dt.odd = "blank"    -> <<32,32,32,32,58,32,32,58,32,32,32,32,32,58,32,32,58,32,32>>
  [] c.dt.odd = "dashes"   -> P4(2023) \o <<45>> \o P2(7) \o <<45>> \o P2(9) \o <<32>> \o P2(20) \o <<58>> \o P2(36) \o <<58>> \o P2(33)
  [] c.dt.odd = "iso"      -> P4(2023) \o <<58>> \o P2(7) \o <<58>> \o P2(9) \o <<84>> \o P2(20) \o <<58>> \o P2(36) \o <<58>> \o P2(33)
  [] c.dt.odd = "short"    -> P4(2023) \o <<58>> \o P2(7) \o <<58>> \o P2(9)
  [] c.dt.odd = "trailing" -> P4(2023) \o <<58>> \o P2(7) \o <<58>> \o P2(9) \o <<32>> \o P2(20) \o <<58>> \o P2(36) \o <<58>> \o P2(33) \o <<120>>
  [] c.dt.odd = "letters"  -> <<97,98,99,100,101,102>>
  [] c.dt.odd = "utf8"     -> <<226,130,172,195,169,255,65,66>>
  [] c.dt.odd = "empty"    -> <<32>>
OffText(o) == CASE o = "+08:00" -> <<43>> \o P2(8) \o <<58>> \o P2(0)
  [] o = "-03:30" -> <<45>> \o P2(3) \o <<58>> \o P2(30)
  [] o = "+00:00" -> <<43>> \o P2(0) \o <<58>> \o P2(0)
  [] o = "-00:00" -> <<45>> \o P2(0) \o <<58>> \o P2(0)
  [] o = "+14:00" -> <<43>> \o P2(14) \o <<58>> \o P2(0)
  [] o = "-12:00" -> <<45>> \o P2(12) \o <<58>> \o P2(0)
  [] o = "+05:45" -> <<43>> \o P2(5) \o <<58>> \o P2(45)
  [] o = "+23:59" -> <<43>> \o P2(23) \o <<58>> \o P2(59)
  [] o = "blank" -> <<32,32,32,58,32,32>>
  [] o = "empty" -> <<32>>
  [] o = "letters" -> <<85,84,67,43>>
  [] o = "+24:00" -> <<43>> \o P2(24) \o <<58>> \o P2(0)
  [] o = "+08:60" -> <<43>> \o P2(8) \o <<58>> \o P2(60)
  [] o = "+08:0"  -> <<43>> \o P2(8) \o <<58, 48>>       \* a digit lost: repaired
  [] o = "+05:3"  -> <<43>> \o P2(5) \o <<58, 51>>
  [] o = "-09:5"  -> <<45>> \o P2(9) \o <<58, 53>>
  [] o = "+0800"  -> <<43>> \o P2(8) \o P2(0)
  [] o = "+8:00"  -> <<43, 56, 58>> \o P2(0)
  [] o = "Z"      -> <<90>>
  [] o = "+08:000" -> <<43>> \o P2(8) \o <<58, 48, 48, 48>>
  [] o = "nonascii" -> <<226,136,146,48,56,58,48,48>>    \* U+2212 MINUS SIGN, understood as -
Good == {"+08:00", "-03:30", "+00:00", "-00:00", "+14:00", "-12:00", "+05:45", "+23:59", "+08:0", "+05:3", "-09:5", "+0800", "nonascii"}
\* how a combined value shows its offset
OffShown(o) == CASE o = "+08:0" -> OffText("+08:00") [] o = "+05:3" -> <<43>> \o P2(5) \o <<58>> \o P2(30) [] o = "-09:5" -> <<45>> \o P2(9) \o <<58>> \o P2(50) [] o = "+0800" -> OffText("+08:00") [] o = "-00:00" -> OffText("+00:00") [] o = "nonascii" -> <<45>> \o P2(8) \o <<58>> \o P2(0) [] OTHER -> OffText(o)

\* ---- scanning the Exif directory for the offset to use ----
OffTag(x) == CASE x = "o" -> 36881 [] x = "d" -> 36882 [] x = "t" -> 36880
OffVal(x) == CASE x = "o" -> c.oo [] x = "d" -> c.od [] x = "t" -> c.ot
OrdSeq == CASE c.ord = "tod" -> <<"t", "o", "d">> [] c.ord = "dot" -> <<"d", "o", "t">> [] c.ord = "odt" -> <<"o", "d", "t">>
Scan == /\ phase = "scan" /\ i <= 3
        /\ LET x == OrdSeq[i]  v == OffVal(x) IN
           /\ best' = IF x # "t" /\ v \in Good /\ best = "none" THEN v ELSE best
           /\ last' = IF x = "t" /\ v \in Good THEN v ELSE last
        /\ i' = i + 1 /\ UNCHANGED <<c, phase>>
Scanned == phase = "scan" /\ i > 3 /\ phase' = "give" /\ UNCHANGED <<c, i, best, last>>
Offset == IF best # "none" THEN best ELSE last
\* a well-formed offset is never passed over
OffsetKept == phase = "give" /\ ({c.oo, c.od, c.ot} \cap Good # {}) => Offset \in Good

\* ---- calendar ----
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Dim(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 0
ValidDate == /\ c.dt.odd = "no" /\ c.dt.mo \in 1..12 /\ c.dt.d >= 1 /\ c.dt.h <= 23 /\ c.dt.mi <= 59 /\ c.dt.s <= 59
             /\ IF c.dt.mo \in 1..12 THEN c.dt.d <= Dim(c.dt.y, c.dt.mo) ELSE FALSE
Iso == P4(c.dt.y) \o <<45>> \o P2(c.dt.mo) \o <<45>> \o P2(c.dt.d) \o <<84>> \o P2(c.dt.h) \o <<58>> \o P2(c.dt.mi) \o <<58>> \o P2(c.dt.s)
Value == IF c.dt.odd = "no" /\ c.dt.s = 60 THEN AnyVal
         ELSE IF ~ValidDate THEN <<"!", "InvalidValue">>
         ELSE IF Offset = "none" THEN <<"NaiveDateTime", Codes(Iso)>>
         ELSE <<"DateTime", Codes(Iso \o OffShown(Offset))>>

\* ---- the file: IFD0 with ModifyDate and the Exif directory ----
Ascii(t, bs) == LET b == bs \o <<0>> IN
   IF Len(b) <= 4 THEN [tag |-> t, fmt |-> 2, cnt |-> Len(b), inl |-> PadTo(b, 4)] ELSE [tag |-> t, fmt |-> 2, cnt |-> Len(b), out |-> b]
OffEnt(x) == IF OffVal(x) = "none" THEN <<>>
             ELSE IF OffVal(x) = "num" THEN <<[tag |-> OffTag(x), fmt |-> 3, cnt |-> 1, inl |-> <<1, 1, 0, 0>>]>>
             ELSE <<Ascii(OffTag(x), OffText(OffVal(x)))>>
Offs3 == OffEnt(OrdSeq[1]) \o OffEnt(OrdSeq[2]) \o OffEnt(OrdSeq[3])
Dates == Cat([k \in 1..2 |-> LET t == <<36867, 36868>>[k] IN
            IF c.tag = t THEN <<Ascii(t, DateText)>> ELSE <<>>])
Mod == IF c.tag = 306 THEN <<Ascii(306, DateText)>> ELSE <<>>
Ptr == <<[tag |-> 34665, fmt |-> 4, cnt |-> 1, ptr |-> 2]>>
\* a lot of other entries
NFill == 150
Fills(r) == [k \in 1..NFill |-> [tag |-> r + k, fmt |-> 3, cnt |-> 1, inl |-> I2(c.e, k) \o <<0, 0>>]]
FillExp(r) == [k \in 1..NFill |-> <<0, r + k, <<"U16", <<k>>>> >>]
Tf == [e |-> c.e, gap |-> 0, tail |-> 4, order |-> IF c.dord = "fwd" THEN <<1, 2>> ELSE <<2, 1>>,
       dirs |-> <<[ents |-> CASE c.ptr = "first" -> Ptr \o Mod [] c.ptr = "last" -> Mod \o Ptr [] OTHER -> Mod \o Fills(40000) \o Ptr, next |-> 0, over |-> 0],
                  [ents |-> CASE c.pos = "first" -> Dates \o Offs3 [] c.pos = "last" -> Offs3 \o Dates [] OTHER -> Dates \o Fills(41000) \o Offs3, next |-> 0, over |-> 0]>>]
OffExp(x) == IF OffVal(x) = "none" THEN <<>> ELSE << <<0, OffTag(x), IF OffVal(x) = "num" THEN <<"U16", <<257>>>> ELSE IF OffVal(x) = "nonascii" THEN AnyVal ELSE <<"Text", Codes(OffText(OffVal(x)))>> >> >>
OExp == OffExp(OrdSeq[1]) \o OffExp(OrdSeq[2]) \o OffExp(OrdSeq[3])
DExp == IF c.tag = 306 THEN <<>> ELSE << <<0, c.tag, Value>> >>
PExp == << <<0, 34665, <<"U32", << HL(OffOf(Tf, 2)) >> >> >> >>
SubExp == CASE c.pos = "first" -> DExp \o OExp [] c.pos = "last" -> OExp \o DExp [] OTHER -> DExp \o FillExp(41000) \o OExp
MExp == IF c.tag = 306 THEN << <<0, 306, Value>> >> ELSE <<>>
Exp == CASE c.ptr = "first" -> PExp \o SubExp \o MExp [] c.ptr = "last" -> MExp \o PExp \o SubExp [] OTHER -> MExp \o FillExp(40000) \o PExp \o SubExp
Vector == [k |-> "meta", suite |-> "time", id |-> c, paths |-> Mode, parts |-> JpegWrap(TiffParts(Tf)),
           exp |-> [exif |-> [ok |-> [entries |-> Exp, embedded |-> FALSE]]]]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<c, i, best, last>> /\ Emit(Vector)
Next == Scan \/ Scanned \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
