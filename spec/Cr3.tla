-------------------------------- MODULE Cr3 --------------------------------
(* Canon CR3: moov / Canon uuid / CMT blocks (C10).                          *)
EXTENDS BmffLib, IfdLib, EagerLib
CONSTANTS Pre,            \* sequences of filler sizes before moov
          MoovPre,        \* sequences of children of moov before the Canon uuid
          B1, B2, B3,     \* what CMT1, CMT2, CMT3 hold
          Ords, Fill,     \* order of the CMT boxes, sizes of other boxes between them
          Wides, Post,
          Aligns, Deltas, \* end of the CMT2 (or CMT1) block forced to align + delta
          Big, Pick, Mode
PreNone == {<<>>}
PreSome == {<<>>, <<8>>, <<100, 9>>, <<9000>>, <<70000>>}
MoovNone == {<<>>}
MoovSome == {<<>>, <<"mvhd">>, <<"uuid">>, <<"trak", "uuid", "free">>, <<"uuidshort", "trak">>}
PostSome == {<<>>, <<100>>, <<40000>>}
VARIABLES f, phase, cur, found
vars == <<f, phase, cur, found>>
Files == [pre : Pre, mpre : MoovPre, b1 : B1, b2 : B2, b3 : B3, ord : Ords, fill : Fill, wide : Wides, post : Post,
          layout : {"std"}, al : {0} \cup {t + d : t \in Aligns, d \in Deltas}]
Odd == {[pre |-> <<>>, mpre |-> <<>>, b1 |-> "tiff", b2 |-> "tiff", b3 |-> "absent", ord |-> <<1, 2, 3>>, fill |-> 0, wide |-> FALSE, post |-> <<100>>, layout |-> l, al |-> 0]
        : l \in {"nomoov", "nouuid", "topuuid", "emptymoov"}}
   \* a child that overruns its parent ends the walk of the children, those in front of it count
   \cup {[pre |-> p, mpre |-> <<>>, b1 |-> b1, b2 |-> b2, b3 |-> "absent", ord |-> o, fill |-> 0, wide |-> w, post |-> <<100>>, layout |-> l, al |-> 0]
        : p \in {<<>>, <<9000>>}, b1 \in {"tiff", "gps"}, b2 \in {"tiff", "absent"}, o \in {<<1, 2, 3>>, <<3, 2, 1>>}, w \in BOOLEAN,
          l \in {"uuidover", "uuidstub", "uuidzero", "moovover", "moovstub"}}
   \cup {[pre |-> <<>>, mpre |-> <<>>, b1 |-> "tiff", b2 |-> b2, b3 |-> "absent", ord |-> o, fill |-> 0, wide |-> FALSE, post |-> <<100>>, layout |-> "lastover", al |-> 0]
        : b2 \in {"tiff", "gps"}, o \in {<<1, 2, 3>>, <<3, 2, 1>>}}
   \cup {[pre |-> p, mpre |-> <<>>, b1 |-> b1, b2 |-> b2, b3 |-> "absent", ord |-> o, fill |-> 0, wide |-> w, post |-> <<100>>, layout |-> "std", al |-> 0]
        : p \in {<<>>, <<9000>>}, b1 \in {"tiny", "tiff", "absent"}, b2 \in {"tiny", "absent"}, o \in {<<1, 2, 3>>, <<2, 1, 3>>}, w \in BOOLEAN}
   \* a value of more than a mebibyte in a block
   \cup {[pre |-> <<>>, mpre |-> <<>>, b1 |-> b, b2 |-> IF b = "huge" THEN "tiff" ELSE "huge", b3 |-> "absent", ord |-> <<1, 2, 3>>, fill |-> 0, wide |-> FALSE, post |-> <<100>>, layout |-> "std", al |-> 0]
        : b \in {"tiff", "huge"}}
Rc(n) == [pre |-> RandomElement(Pre), mpre |-> RandomElement(MoovPre), b1 |-> RandomElement(B1), b2 |-> RandomElement(B2), b3 |-> RandomElement(B3),
          ord |-> RandomElement(Ords), fill |-> RandomElement(Fill), wide |-> RandomElement(Wides), post |-> RandomElement(Post),
          layout |-> "std", al |-> RandomElement({0} \cup {t + d : t \in Aligns, d \in Deltas})]
Ord1 == {<<1, 2, 3>>}
OrdAll == {<<1, 2, 3>>, <<2, 1, 3>>, <<3, 2, 1>>, <<2, 3, 1>>}
Init == /\ phase = "walk" /\ cur = 1 /\ found = {}
        /\ f \in (IF Pick = 0 THEN Files ELSE {Rc(n) : n \in 1..Pick}) \cup Odd

Txt(t, ch, n) == LET b == Rep(ch, n) \o <<0>> IN IF n + 1 <= 4 THEN [tag |-> t, fmt |-> 2, cnt |-> n + 1, inl |-> PadTo(b, 4)] ELSE [tag |-> t, fmt |-> 2, cnt |-> n + 1, out |-> b]
Huge == 1300000
D(es) == [ents |-> es, next |-> 0, over |-> 0]
TagB(n) == CASE n = 1 -> 271 [] n = 2 -> 42036 [] n = 3 -> 40
E(n) == IF n = 2 THEN "MM" ELSE "II"
Tf(n, k) == [e |-> E(n), gap |-> 0, tail |-> IF k = "tiny" THEN 0 ELSE 6,
  order |-> IF k = "gps" THEN <<1, 2>> ELSE IF k = "sub" THEN <<1, 3, 2>> ELSE <<1>>,
  dirs |-> CASE k = "gps" -> <<D(<<Txt(TagB(n), 64 + n, 5), [tag |-> 34853, fmt |-> 4, cnt |-> 1, ptr |-> 2]>>), D(<<Txt(1, 83, 1), Txt(50 + n, 64 + n, 2)>>)>>
             \* directories at the same offsets in both blocks
             [] k = "sub" -> <<[ents |-> <<Txt(TagB(n), 64 + n, 5), [tag |-> 34665, fmt |-> 4, cnt |-> 1, ptr |-> 2]>>, next |-> 3, over |-> 0],
                               D(<<Txt(60 + n, 64 + n, 3)>>), D(<<Txt(70 + n, 64 + n, 4)>>)>>
             [] k = "big" -> <<D(<<Txt(TagB(n), 64 + n, Big)>>)>>
             \* the smallest block with anything in it: 26 bytes
             [] k = "tiny" -> <<D(<<Txt(TagB(n), 64 + n, 2)>>)>>
             [] k = "huge" -> <<D(<<[tag |-> TagB(n), fmt |-> 2, cnt |-> Huge + 1, ofs |-> <<0, 0, 0, 32>>]>>)>>
             [] OTHER -> <<D(<<Txt(TagB(n), 64 + n, 5), Txt(TagB(n) + 1, 96 + n, 2)>>)>>]
IsTiff(k) == k \in {"tiff", "gps", "sub", "big", "huge", "tiny"}
Kind(n) == CASE n = 1 -> f.b1 [] n = 2 -> f.b2 [] n = 3 -> f.b3
Payload(n) == LET k == Kind(n) IN
  CASE IsTiff(k) -> TiffParts(Tf(n, k)) \o (IF k = "huge" THEN <<Z(Huge, 64 + n), B(<<0>>)>> ELSE <<>>)
    [] k = "garbage" -> <<Z(40, 200)>>
    [] k = "short" -> <<Z(5, 73)>>
    [] k = "empty" -> <<>>
Std == f.layout \in {"std", "uuidover", "uuidstub", "uuidzero", "moovover", "moovstub", "lastover"}
\* the block whose box claims more than its parent has
Lost(n) == f.layout = "lastover" /\ n = (IF f.ord = <<1, 2, 3>> THEN 2 ELSE 1)
\* a box that claims more than there is, a rest too short for a box, a box smaller than its own header
Over(ty) == <<U4(4000), S(ty), Z(30, 7)>>
Stub == <<Z(5, 7)>>
Junk == <<U4(4), S("CNTH"), Z(20, 0)>>
UuidTail == CASE f.layout = "uuidover" -> Over("CMTA") [] f.layout = "uuidstub" -> Stub [] f.layout = "uuidzero" -> Junk [] OTHER -> <<>>
MoovTail == CASE f.layout = "moovover" -> Over("trak") [] f.layout = "moovstub" -> Stub [] OTHER -> <<>>
Cmt(n) == IF Kind(n) = "absent" THEN <<>> ELSE IF Lost(n) THEN <<U4(100000), S(IF n = 1 THEN "CMT1" ELSE "CMT2")>> \o Payload(n) ELSE BoxW(f.wide, CASE n = 1 -> "CMT1" [] n = 2 -> "CMT2" [] n = 3 -> "CMT3", Payload(n))
Other == IF f.fill = 0 THEN <<>> ELSE Filler("CTBO", f.fill)
CanonId == <<133,192,182,135,130,15,17,224,129,17,244,206,70,43,106,72>>
OtherId == <<190,122,207,203,151,169,66,232,156,113,153,148,145,227,175,172>>
Canon(x) == BoxW(f.wide, "uuid", <<B(CanonId)>> \o (IF x > 0 THEN Filler("CNCV", x) ELSE <<>>) \o Other \o Cmt(f.ord[1]) \o Other \o Cmt(f.ord[2]) \o Other \o Cmt(f.ord[3]) \o UuidTail)
Kid(k) == CASE k = "uuid" -> Box("uuid", <<B(OtherId), Z(60, 1)>>) [] k = "uuidshort" -> Box("uuid", <<Z(7, 1)>>) [] OTHER -> Filler(k, 120)
Kids == Cat([i \in 1..Len(f.mpre) |-> Kid(f.mpre[i])])
Moov(x) == CASE Std -> BoxW(f.wide, "moov", Kids \o Canon(x) \o Filler("trak", 90) \o MoovTail)
          [] f.layout = "nouuid" -> Box("moov", Kid("uuid") \o Filler("trak", 90))
          [] f.layout = "emptymoov" -> Box("moov", <<>>)
          [] f.layout = "topuuid" -> Canon(0) \o Box("moov", Filler("trak", 60))
          [] OTHER -> <<>>
Lead == Ftyp("crx ", <<"crx ", "isom">>) \o Cat([i \in 1..Len(f.pre) |-> Filler("free", f.pre[i])])
\* a filler inside the uuid box moves its end to al
UuidEnd == Size(Lead \o Moov(0)) - 90
Extra == IF f.al > UuidEnd + 8 THEN f.al - UuidEnd ELSE 0
Parts == Lead \o Moov(Extra) \o Filler("mdat", 200) \o Cat([i \in 1..Len(f.post) |-> Filler("free", f.post[i])])

\* ---- walking the children of the uuid box ----
Walk == /\ phase = "walk"
        /\ IF ~Std \/ cur > 3 THEN phase' = "give" /\ UNCHANGED <<cur, found>>
           ELSE /\ cur' = cur + 1 /\ UNCHANGED phase
                /\ LET n == f.ord[cur] IN found' = IF IsTiff(Kind(n)) /\ ~Lost(n) /\ n # 3 THEN found \cup {n} ELSE found
        /\ UNCHANGED f
Blocks == IF ~Std THEN {} ELSE {n \in {1, 2} : IsTiff(Kind(n)) /\ ~Lost(n)}
WalkOk == phase = "give" => (IF Std THEN found = Blocks ELSE TRUE)
Es(n) == LET k == Kind(n)  t == Tf(n, k) IN
  CASE k = "gps" -> << <<0, TagB(n), <<"Text", Codes(Rep(64 + n, 5))>> >>, <<0, 34853, <<"U32", << HL(OffOf(t, 2)) >> >> >>, <<0, 1, <<"Text", "S">>>>,
                         <<0, 50 + n, <<"Text", Codes(Rep(64 + n, 2))>> >> >>
    [] k = "sub" -> << <<0, TagB(n), <<"Text", Codes(Rep(64 + n, 5))>> >>, <<0, 34665, <<"U32", << HL(OffOf(t, 2)) >> >> >>,
                       <<0, 60 + n, <<"Text", Codes(Rep(64 + n, 3))>> >>, <<1, 70 + n, <<"Text", Codes(Rep(64 + n, 4))>> >> >>
    [] k = "big" -> << <<0, TagB(n), <<"Text", RepStr(64 + n, Big)>> >> >>
    [] k = "huge" -> << <<0, TagB(n), <<"Text", RepStr(64 + n, Huge)>> >> >>
    [] k = "tiny" -> << <<0, TagB(n), <<"Text", Codes(Rep(64 + n, 2))>> >> >>
    [] OTHER -> << <<0, TagB(n), <<"Text", Codes(Rep(64 + n, 5))>> >>, <<0, TagB(n) + 1, <<"Text", Codes(Rep(96 + n, 2))>> >> >>
\* a pointer's tag is delivered once, the directory it leads to is walked all the same
GpsIn == {n \in Blocks : Kind(n) = "gps"}
GpsExp == IF GpsIn = {} THEN "none" ELSE [latref |-> "S", alt |-> "none"]
Es2 == IF GpsIn = {1, 2} THEN <<Es(2)[1], Es(2)[4]>> ELSE IF f.b1 = "sub" /\ f.b2 = "sub" THEN <<Es(2)[1], Es(2)[3], Es(2)[4]>> ELSE Es(2)
Entries == (IF 1 \in Blocks THEN Es(1) ELSE <<>>) \o (IF 2 \in Blocks THEN Es2 ELSE <<>>)
\* a garbage CMT2 without CMT1 is neither Exif nor a proper file
ExifExp == IF Blocks = {} THEN (IF f.layout = "std" /\ (f.b2 = "garbage" \/ f.b1 = "garbage") THEN OneOf(<<Err("ExifNotFound"), Err("Malformed")>>) ELSE Err("ExifNotFound"))
           ELSE [ok |-> [entries |-> Entries, embedded |-> FALSE, gps |-> GpsExp]]
Vector == [k |-> "meta", suite |-> "cr3", id |-> f, paths |-> Mode, parts |-> Parts,
           exp |-> [eager |-> IF Has(ExifExp, "ok") THEN EagerOf(Entries, {}, GpsExp, FALSE) ELSE ExifExp,
                    eimeta |-> IF Has(ExifExp, "ok") THEN EImetaOf(Entries, {}, GpsExp, FALSE) ELSE ExifExp,
                    kind |-> "Image", exif |-> ExifExp, track |-> Err("TrackNotFound"),
                    imeta |-> IF Has(ExifExp, "ok") THEN [ok |-> [exif |-> ExifExp.ok, text |-> "none"]] ELSE ExifExp]]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<f, cur, found>> /\ Emit(Vector)
Next == Walk \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
