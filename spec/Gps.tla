-------------------------------- MODULE Gps --------------------------------
(* GPS directory: where it is found, what its entries mean, the decimal and  *)
(* ISO 6709 forms and the way back (C18).                                    *)
EXTENDS IfdLib

CONSTANTS Lats, Lons, LatRefs, LonRefs, AltRefs, Alts, SpRefs, Sps,
          Ptrs,        \* where the GPS pointer sits and what it points to
          Extras,      \* version / unknown entries around
          Ords,        \* order of the entries
          Endian, Pick, Mode

CoordAll == {"dms", "hund", "dm", "zero", "carry", "edge", "small", "big", "dec", "ir", "irneg", "irmin", "c1", "c2", "c4", "zden", "trunc", "u32", "absent"}
CoordFew == {"dms", "carry", "irneg", "absent"}
RefLat == {"N", "S", "n", "s", "X", "absent", "u8", "bare", "long", "blank", "bad"}
RefLon == {"E", "W", "e", "w", "X", "absent", "u8", "bare", "long", "blank", "bad"}
AltRefAll == {"0", "1", "2", "absent", "text", "u16", "c2"}
AltAll == {"int", "frac", "third", "tiny", "zero", "zden", "large", "huge", "ir", "irneg", "c2", "trunc", "absent"}
SpRefAll == {"K", "M", "N", "k", "m", "n", "X", "absent", "u8"}
SpAll == {"int", "zden", "ir", "irneg", "absent"}
PtrAll == {"ifd0", "exif", "ifd1", "null", "far", "end", "last", "u16", "empty", "unknown", "nogps", "trunc"}
ExtraAll == {"none", "version", "unknown", "both"}

VARIABLES c, phase, i, rec, any
vars == <<c, phase, i, rec, any>>
Cases == [lat : Lats, lon : Lons, latr : LatRefs, lonr : LonRefs, altr : AltRefs, alt : Alts, spr : SpRefs, sp : Sps,
          ptr : Ptrs, extra : Extras, ord : Ords, e : Endian]
RandCase(n) == [lat |-> RandomElement(Lats), lon |-> RandomElement(Lons), latr |-> RandomElement(LatRefs), lonr |-> RandomElement(LonRefs),
                altr |-> RandomElement(AltRefs), alt |-> RandomElement(Alts), spr |-> RandomElement(SpRefs), sp |-> RandomElement(Sps),
                ptr |-> RandomElement(Ptrs), extra |-> RandomElement(Extras), ord |-> RandomElement(Ords), e |-> RandomElement(Endian)]
Zero3 == <<0, 0, 0>>
\* a coordinate: usable or not, three rationals, value in hundredths of a second
NoCoord == [set |-> FALSE, r |-> <<>>, u |-> 0, dec |-> TRUE]
NoNum == [set |-> FALSE, r |-> <<0, 1>>, id |-> "absent"]
Init == /\ phase = "scan" /\ i = 1 /\ any = FALSE
        /\ rec = [lat |-> NoCoord, lon |-> NoCoord, latr |-> "none", lonr |-> "none", altr |-> "none", alt |-> NoNum, spr |-> "none", sp |-> NoNum]
        /\ c \in IF Pick = 0 THEN Cases ELSE {RandCase(n) : n \in 1..Pick}

\* ---- coordinates ----
Rats(k, lon) ==
  CASE k \in {"dms", "ir", "c4", "trunc", "u32", "c1", "c2", "irneg", "irmin", "zden"} -> IF lon THEN <<<<116, 1>>, <<23, 1>>, <<27, 1>>>> ELSE <<<<39, 1>>, <<55, 1>>, <<3, 1>>>>
    [] k = "hund"  -> IF lon THEN <<<<74, 1>>, <<2, 1>>, <<4017, 100>>>> ELSE <<<<40, 1>>, <<41, 1>>, <<2135, 100>>>>
    [] k = "dm"    -> IF lon THEN <<<<114, 1>>, <<1288, 1000>>, <<0, 1>>>> ELSE <<<<22, 1>>, <<31868, 1000>>, <<0, 100>>>>
    [] k = "zero"  -> <<<<0, 1>>, <<0, 1>>, <<0, 1>>>>
    [] k = "carry" -> IF lon THEN <<<<179, 1>>, <<59, 1>>, <<5999, 100>>>> ELSE <<<<12, 1>>, <<59, 1>>, <<5999, 100>>>>
    [] k = "edge"  -> IF lon THEN <<<<180, 1>>, <<0, 1>>, <<0, 1>>>> ELSE <<<<90, 1>>, <<0, 1>>, <<0, 1>>>>
    [] k = "small" -> <<<<0, 1>>, <<0, 1>>, <<1, 100>>>>
    [] k = "big"   -> <<<<600000000, 20000000>>, <<30, 2>>, <<1000000000, 100000000>>>>
    [] k = "dec"   -> IF lon THEN <<<<1225, 10>>, <<0, 1>>, <<0, 1>>>> ELSE <<<<355, 10>>, <<0, 1>>, <<0, 1>>>>
Units(k, lon) == IF k = "big" THEN 30 * 360000 + 15 * 6000 + 1000
                 ELSE IF k = "dec" THEN (IF lon THEN 1225 ELSE 355) * 36000
                 ELSE LET r == Rats(k, lon) IN r[1][1] * 360000 + (r[2][1] * 6000) \div r[2][2] + (r[3][1] * 100) \div r[3][2]
Coord(k, lon) == [set |-> TRUE, u |-> Units(k, lon), dec |-> k # "zden",
                  r |-> IF k = "zden" THEN << <<Rats(k, lon)[1][1], 0>>, Rats(k, lon)[2], Rats(k, lon)[3] >> ELSE Rats(k, lon)]
CoordOk(k) == k \notin {"irneg", "irmin", "c1", "c2", "trunc", "u32", "absent"}

\* ---- numbers ----
Num(k) == CASE k \in {"int", "c2", "trunc"} -> <<123, 1>> [] k = "frac" -> <<12345, 100>> [] k = "third" -> <<100, 3>>
            \* (a numerator that needs all 32 bits: x stands for 2^32 + x)
            [] k = "huge" -> <<0 - 467296, 1000000>>
            [] k = "tiny" -> <<1, 10000>> [] k = "zero" -> <<0, 1>> [] k = "zden" -> <<5, 0>> [] k = "large" -> <<5000000, 1>>
            [] k \in {"ir", "irneg"} -> <<77, 2>>
NumOk(k) == k \notin {"irneg", "c2", "trunc", "absent"}
RefOk(k, good) == IF k = "bare" THEN good ELSE IF k = "long" THEN good ELSE k

\* ---- the entries, in file order ----
Txt(tag, str) == LET b == str \o <<0>> IN IF Len(b) <= 4 THEN [tag |-> tag, fmt |-> 2, cnt |-> Len(b), inl |-> PadTo(b, 4)]
                                          ELSE [tag |-> tag, fmt |-> 2, cnt |-> Len(b), out |-> b]
Code(k) == CASE k = "N" -> 78 [] k = "S" -> 83 [] k = "E" -> 69 [] k = "W" -> 87 [] k = "n" -> 110 [] k = "s" -> 115 [] k = "e" -> 101 [] k = "w" -> 119
             [] k = "X" -> 88 [] k = "K" -> 75 [] k = "M" -> 77 [] k = "k" -> 107 [] k = "m" -> 109
RefEnt(tag, k, good) ==
  CASE k = "absent" -> <<>>
    [] k = "u8"    -> <<[tag |-> tag, fmt |-> 1, cnt |-> 1, inl |-> <<good, 0, 0, 0>>]>>
    [] k = "bare"  -> <<[tag |-> tag, fmt |-> 2, cnt |-> 1, inl |-> <<good, 0, 0, 0>>]>>
    [] k = "long"  -> <<Txt(tag, <<good, 111, 114, 116, 104>>)>>
    [] k = "blank" -> <<Txt(tag, <<32, good>>)>>
    [] k = "bad"   -> <<[tag |-> tag, fmt |-> 2, cnt |-> 90, ofs |-> <<127, 0, 0, 0>>]>>
    [] OTHER       -> <<Txt(tag, <<Code(k)>>)>>
H2(x) == IF x < 0 THEN <<65536 + x \div 65536, x % 65536>> ELSE HL(x)
B4(e, x) == IF x >= 0 THEN I4(e, x) ELSE IF e = "II" THEN I2(e, H2(x)[2]) \o I2(e, H2(x)[1]) ELSE I2(e, H2(x)[1]) \o I2(e, H2(x)[2])
RatBytes(e, rs) == Cat([k \in 1..Len(rs) |-> B4(e, rs[k][1]) \o I4(e, rs[k][2])])
\* -1 / 1 and the most negative numerator
NegRat(e) == (IF e = "II" THEN <<255, 255, 255, 255>> ELSE <<255, 255, 255, 255>>) \o I4(e, 1)
MinRat(e) == (IF e = "II" THEN <<0, 0, 0, 128>> ELSE <<128, 0, 0, 0>>) \o I4(e, 1)
CoordEnt(tag, k, lon) ==
  IF k = "absent" THEN <<>>
  ELSE LET r == Coord(k, lon).r IN
  CASE k = "c1" -> <<[tag |-> tag, fmt |-> 5, cnt |-> 1, out |-> RatBytes(c.e, <<r[1]>>)]>>
    [] k = "c2" -> <<[tag |-> tag, fmt |-> 5, cnt |-> 2, out |-> RatBytes(c.e, <<r[1], r[2]>>)]>>
    [] k = "c4" -> <<[tag |-> tag, fmt |-> 5, cnt |-> 4, out |-> RatBytes(c.e, r \o <<<<7, 1>>>>)]>>
    [] k = "ir" -> <<[tag |-> tag, fmt |-> 10, cnt |-> 3, out |-> RatBytes(c.e, r)]>>
    [] k = "irneg" -> <<[tag |-> tag, fmt |-> 10, cnt |-> 3, out |-> RatBytes(c.e, <<r[1], r[2]>>) \o NegRat(c.e)]>>
    [] k = "irmin" -> <<[tag |-> tag, fmt |-> 10, cnt |-> 3, out |-> MinRat(c.e) \o RatBytes(c.e, <<r[1], r[2]>>)]>>
    [] k = "trunc" -> <<[tag |-> tag, fmt |-> 5, cnt |-> 3, ofs |-> <<127, 255, 0, 0>>]>>
    [] k = "u32"   -> <<[tag |-> tag, fmt |-> 4, cnt |-> 3, out |-> I4(c.e, 39) \o I4(c.e, 55) \o I4(c.e, 3)]>>
    [] OTHER -> <<[tag |-> tag, fmt |-> 5, cnt |-> 3, out |-> RatBytes(c.e, r)]>>
NumEnt(tag, k) ==
  CASE k = "absent" -> <<>>
    [] k = "ir"    -> <<[tag |-> tag, fmt |-> 10, cnt |-> 1, out |-> RatBytes(c.e, <<Num(k)>>)]>>
    [] k = "irneg" -> <<[tag |-> tag, fmt |-> 10, cnt |-> 1, out |-> NegRat(c.e)]>>
    [] k = "c2"    -> <<[tag |-> tag, fmt |-> 5, cnt |-> 2, out |-> RatBytes(c.e, <<Num(k), Num(k)>>)]>>
    [] k = "trunc" -> <<[tag |-> tag, fmt |-> 5, cnt |-> 1, ofs |-> <<127, 255, 0, 0>>]>>
    [] OTHER       -> <<[tag |-> tag, fmt |-> 5, cnt |-> 1, out |-> RatBytes(c.e, <<Num(k)>>)]>>
AltRefEnt == CASE c.altr \in {"0", "1", "2"} -> <<[tag |-> 5, fmt |-> 1, cnt |-> 1, inl |-> <<CASE c.altr = "0" -> 0 [] c.altr = "1" -> 1 [] OTHER -> 2, 0, 0, 0>>]>>
               [] c.altr = "absent" -> <<>>
               [] c.altr = "text" -> <<Txt(5, <<48>>)>>
               [] c.altr = "u16" -> <<[tag |-> 5, fmt |-> 3, cnt |-> 1, inl |-> PadTo(I2(c.e, 1), 4)]>>
               [] c.altr = "c2" -> <<[tag |-> 5, fmt |-> 1, cnt |-> 2, inl |-> <<1, 1, 0, 0>>]>>
\* <<what, entries>> in ascending tag order
Items == << <<"version", IF c.extra \in {"version", "both"} THEN <<[tag |-> 0, fmt |-> 1, cnt |-> 4, inl |-> <<2, 3, 0, 0>>]>> ELSE <<>>>>,
            <<"latr", RefEnt(1, c.latr, 78)>>, <<"lat", CoordEnt(2, c.lat, FALSE)>>,
            <<"lonr", RefEnt(3, c.lonr, 69)>>, <<"lon", CoordEnt(4, c.lon, TRUE)>>,
            <<"altr", AltRefEnt>>, <<"alt", NumEnt(6, c.alt)>>,
            <<"spr", RefEnt(12, c.spr, 75)>>, <<"sp", NumEnt(13, c.sp)>>,
            <<"unknown", IF c.extra \in {"unknown", "both"} THEN <<[tag |-> 30583, fmt |-> 3, cnt |-> 1, inl |-> <<1, 2, 0, 0>>]>> ELSE <<>>>> >>
Order == CASE c.ord = "asc" -> [k \in 1..10 |-> k] [] c.ord = "desc" -> [k \in 1..10 |-> 11 - k]
           [] c.ord = "mix" -> <<3, 2, 5, 4, 7, 6, 10, 9, 8, 1>>
Present(k) == c.ptr \notin {"empty", "unknown"} /\ Items[Order[k]][2] # <<>>

\* ---- reading the directory entry by entry ----
Usable == c.ptr \in {"ifd0", "exif", "ifd1", "empty", "unknown"}
LatCh(k) == CASE k \in {"N", "n", "bare", "long"} -> "N" [] k \in {"S", "s"} -> "S" [] OTHER -> "none"
LonCh(k) == CASE k \in {"E", "e", "bare", "long"} -> "E" [] k \in {"W", "w"} -> "W" [] OTHER -> "none"
SpCh(k) == CASE k \in {"K", "k", "bare", "long"} -> "K" [] k \in {"M", "m"} -> "M" [] k \in {"N", "n"} -> "N" [] OTHER -> "none"
Read == /\ phase = "scan" /\ Usable /\ i <= 10
        /\ i' = i + 1 /\ UNCHANGED <<c, phase>>
        /\ IF ~Present(i) THEN UNCHANGED <<rec, any>>
           ELSE LET w == Items[Order[i]][1] IN
             /\ any' = (any \/ w # "unknown")
             /\ rec' = CASE w = "latr" -> [rec EXCEPT !.latr = LatCh(c.latr)]
                         [] w = "lonr" -> [rec EXCEPT !.lonr = LonCh(c.lonr)]
                         [] w = "lat"  -> IF CoordOk(c.lat) THEN [rec EXCEPT !.lat = Coord(c.lat, FALSE)] ELSE rec
                         [] w = "lon"  -> IF CoordOk(c.lon) THEN [rec EXCEPT !.lon = Coord(c.lon, TRUE)] ELSE rec
                         [] w = "altr" -> [rec EXCEPT !.altr = c.altr]
                         [] w = "alt"  -> IF NumOk(c.alt) THEN [rec EXCEPT !.alt = [set |-> TRUE, r |-> Num(c.alt), id |-> c.alt]] ELSE rec
                         [] w = "spr"  -> [rec EXCEPT !.spr = SpCh(c.spr)]
                         [] w = "sp"   -> IF NumOk(c.sp) THEN [rec EXCEPT !.sp = [set |-> TRUE, r |-> Num(c.sp), id |-> c.sp]] ELSE rec
                         [] OTHER -> rec
Stop == phase = "scan" /\ (IF Usable THEN i > 10 ELSE TRUE) /\ phase' = "give" /\ UNCHANGED <<c, i, rec, any>>

\* ---- what must hold of the answer, whatever the order of the entries ----
Faithful == phase = "give" /\ c.ptr \in {"ifd0", "exif", "ifd1"} =>
              /\ rec.lat.set = CoordOk(c.lat) /\ rec.lon.set = CoordOk(c.lon)
              /\ (rec.latr = "S" <=> c.latr \in {"S", "s"}) /\ (rec.lonr = "W" <=> c.lonr \in {"W", "w"})
OrderFree == phase = "give" /\ rec.alt.set => c.alt # "absent"

\* ---- the answer in the harness' notation ----
R(r) == <<H2(r[1]), HL(r[2])>>
\* a coordinate that was not given, or cannot be used, has no part of it left
Nought == OneOf(<<R(<<0, 1>>), R(<<0, 0>>)>>)
LL(x) == IF x.set THEN <<R(x.r[1]), R(x.r[2]), R(x.r[3])>> ELSE <<Nought, Nought, Nought>>
Alt == IF ~rec.alt.set THEN "none" ELSE IF rec.altr = "0" THEN "above" ELSE IF rec.altr = "1" THEN "below" ELSE "none"
Rec == [latref |-> IF rec.latr = "none" THEN "N" ELSE rec.latr, lonref |-> IF rec.lonr = "none" THEN "E" ELSE rec.lonr,
        lat |-> LL(rec.lat), lon |-> LL(rec.lon),
        alt |-> IF Alt = "none" THEN "none" ELSE <<Alt, R(rec.alt.r)>>,
        speed |-> IF rec.sp.set /\ rec.spr # "none" THEN <<rec.spr, R(rec.sp.r)>> ELSE "none"]
Sg(ref, x) == IF ref \in {"S", "W"} THEN 0 - x ELSE x
\* an absent coordinate is zero
DecOf(x, ref) == IF ~x.dec THEN "none" ELSE IF ~x.set THEN OneOf(<<"none", 0>>) ELSE Sg(ref, x.u)
AltMm(id) == CASE id = "int" -> 123000 [] id = "frac" -> 123450 [] id = "third" -> 33333 [] id = "tiny" -> 0 [] id = "zero" -> 0 [] id = "ir" -> 38500 [] id = "huge" -> 4294500 [] OTHER -> 0
AltDec == IF Alt = "none" \/ rec.alt.id = "zden" THEN "none" ELSE IF rec.alt.id = "large" THEN AnyVal
          ELSE IF Alt = "below" THEN 0 - AltMm(rec.alt.id) ELSE AltMm(rec.alt.id)
Dec == [lat |-> DecOf(rec.lat, rec.latr), lon |-> DecOf(rec.lon, rec.lonr), alt |-> AltDec]

\* ISO 6709: degrees with five decimals, nearest
R5(u) == {(u * 5 + 9) \div 18} \cup (IF (u * 5) % 18 = 9 THEN {(u * 5) \div 18} ELSE {})
Dg(x) == <<48 + x>>
RECURSIVE Digits(_, _)
Digits(x, n) == IF n = 0 THEN <<>> ELSE Digits(x \div 10, n - 1) \o Dg(x % 10)
Deg5(r, w) == Digits(r \div 100000, w) \o <<46>> \o Digits(r % 100000, 5)
U(x) == IF x.dec THEN x.u ELSE 0
AltTxt == CASE rec.alt.id = "int" -> <<49, 50, 51>> [] rec.alt.id = "frac" -> <<49, 50, 51, 46, 52, 53, 48>> [] rec.alt.id = "third" -> <<51, 51, 46, 51, 51, 51>>
            [] rec.alt.id = "tiny" -> <<48, 46, 48, 48, 48>> [] rec.alt.id = "ir" -> <<51, 56, 46, 53, 48, 48>> [] rec.alt.id = "huge" -> <<52, 50, 57, 52, 46, 53, 48, 48>> [] rec.alt.id = "large" -> <<53, 48, 48, 48, 48, 48, 48>>
CrsW == <<67, 82, 83, 87, 71, 83, 95, 56, 52>>
HasAlt == Alt # "none" /\ rec.alt.id \notin {"zero", "zden"}
AltIso == IF HasAlt THEN (IF Alt = "above" THEN <<43>> ELSE <<45>>) \o AltTxt \o CrsW ELSE <<>>
Iso(a, b) == (IF rec.latr = "S" THEN <<45>> ELSE <<43>>) \o Deg5(a, 2) \o (IF rec.lonr = "W" THEN <<45>> ELSE <<43>>) \o Deg5(b, 3) \o AltIso \o <<47>>
\* the way back: hundredths of a second nearest to the printed degrees
Back(r) == (r * 36 + 5) \div 10
BackLL(u) == <<R(<<u \div 360000, 1>>), R(<<(u % 360000) \div 6000, 1>>), R(<<u % 6000, 100>>)>>
BackAlt == IF ~HasAlt THEN "none" ELSE IF rec.alt.id \in {"tiny", "large"} THEN AnyVal ELSE <<Alt, R(<<AltMm(rec.alt.id), 1000>>)>>
BackSg(ref, u) == IF u = 0 THEN 0 ELSE Sg(ref, u)
FullFor(a, b) ==
  LET ua == Back(a)  ub == Back(b) IN
  [rec |-> Rec, dec |-> Dec, iso |-> Codes(Iso(a, b)),
   back |-> [rec |-> [latref |-> IF a > 0 /\ rec.latr = "S" THEN "S" ELSE "N", lonref |-> IF b > 0 /\ rec.lonr = "W" THEN "W" ELSE "E",
                      lat |-> BackLL(ua), lon |-> BackLL(ub), alt |-> BackAlt, speed |-> "none"],
             dec |-> [lat |-> BackSg(rec.latr, ua), lon |-> BackSg(rec.lonr, ub)],
             again |-> IF a = 0 \/ b = 0 \/ (HasAlt /\ rec.alt.id = "tiny") THEN AnyVal ELSE Codes(Iso(a, b))]]
SetSeq(s) == CHOOSE f \in [1..Cardinality(s) -> s] : \A x \in s : \E k \in DOMAIN f : f[k] = x
Full == IF ~any THEN "none"
        ELSE IF ~rec.lat.dec \/ ~rec.lon.dec THEN [rec |-> Rec, dec |-> Dec]
        ELSE LET ps == R5(U(rec.lat)) \X R5(U(rec.lon))
                 qs == SetSeq(ps)
             IN OneOf([k \in 1..Len(qs) |-> FullFor(qs[k][1], qs[k][2])])
\* rounding alone may not move the position by more than half of the last printed digit
RoundTrip == phase = "give" => \A r \in R5(U(rec.lat)) : LET d == Back(r) - U(rec.lat) IN d <= 3 /\ d >= 0 - 3
Failed == c.ptr \in {"null", "far", "end", "last", "trunc"} \/ (c.ptr = "u16" /\ c.e = "MM")
\* (a SHORT pointer that happens to be readable may be followed or refused)
Exp == IF c.ptr = "u16" /\ ~Failed THEN AnyVal
       ELSE IF Failed THEN [lazy |-> [err |-> AnyVal], later |-> [err |-> AnyVal], eager |-> "none", errs |-> 1]
       ELSE IF c.ptr = "nogps" THEN [lazy |-> "none", later |-> "none", eager |-> "none", errs |-> 0]
       ELSE [lazy |-> Full, later |-> Full, eager |-> Full, errs |-> 0]

\* ---- the file ----
D(es, n) == [ents |-> es, next |-> n, over |-> 0]
Ptr(t, d) == [tag |-> t, fmt |-> 4, cnt |-> 1, ptr |-> d]
Make == Txt(271, <<69, 70>>)
GpsDir == IF c.ptr = "empty" THEN <<>>
          ELSE IF c.ptr = "unknown" THEN <<[tag |-> 30583, fmt |-> 3, cnt |-> 1, inl |-> <<1, 2, 0, 0>>]>>
          ELSE Cat([k \in 1..10 |-> Items[Order[k]][2]])
Tf ==
  LET g == D(GpsDir, 0) IN
  [e |-> c.e, gap |-> 0, tail |-> 0,
   order |-> IF c.ptr \in {"exif", "ifd1"} THEN <<1, 2, 3>> ELSE <<1, 2>>,
   dirs |-> CASE c.ptr = "exif" -> <<D(<<Make, Ptr(34665, 3)>>, 0), g, D(<<Txt(36867 - 16, <<65>>), Ptr(34853, 2)>>, 0)>>
              [] c.ptr = "ifd1" -> <<D(<<Make>>, 3), g, D(<<Ptr(34853, 2)>>, 0)>>
              [] c.ptr = "null" -> <<D(<<Make, Ptr(34853, 0)>>, 0), g>>
              [] c.ptr = "far"  -> <<D(<<Make, Ptr(34853, 0 - 1)>>, 0), g>>
              [] c.ptr = "end"  -> <<D(<<Make, Ptr(34853, 0 - 2)>>, 0), g>>
              [] c.ptr = "last" -> <<D(<<Make, Ptr(34853, 0 - 3)>>, 0), g>>
              [] c.ptr = "u16"  -> <<D(<<Make, [tag |-> 34853, fmt |-> 3, cnt |-> 1, inl |-> PadTo(I2(c.e, 38), 4)]>>, 0), g>>
              [] c.ptr = "trunc" -> <<D(<<Make, [tag |-> 34853, fmt |-> 4, cnt |-> 2, ofs |-> <<127, 0, 0, 0>>]>>, 0), g>>
              [] c.ptr = "nogps" -> <<D(<<Make>>, 0), g>>
              [] OTHER -> <<D(<<Make, Ptr(34853, 2)>>, 0), g>>]
Vector == [k |-> "gps", suite |-> "gps", id |-> c, paths |-> Mode, parts |-> JpegWrap(TiffParts(Tf)), exp |-> Exp]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<c, i, rec, any>> /\ Emit(Vector)
Next == Read \/ Stop \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
