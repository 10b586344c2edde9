------------------------------ MODULE JpegLib ------------------------------
(* JPEG segments, shared by the JPEG, RAF and motion photo specifications.  *)
EXTENDS TiffLib, FiniteSets

ExifId == <<69,120,105,102,0,0>>
XmpNs  == "http://ns.adobe.com/xap/1.0/"

Seg(m, body)  == <<B(<<255, m>>), Covers(U2(2 + Size(body)), 2, 2 + Size(body))>> \o body
SegM(m, body) == [m |-> m, body |-> body]

ExifKinds == {"exif", "exifbig", "exifxl", "exifmin", "exifempty"}
IsExif(k) == k \in ExifKinds
\* payload of an Exif segment at position pos
SegPay(k, pos) ==
  LET p == [e |-> IF pos % 2 = 0 THEN "II" ELSE "MM", ch |-> 65 + (pos % 20), len |-> 1 + (pos % 6)]
  IN CASE k = "exifbig" -> [p EXCEPT !.len = 900]
       [] k = "exifxl"  -> [p EXCEPT !.len = 900]
       [] OTHER -> p
\* segment content: marker code and body parts
SegOf(s, pos) ==
  LET pay == SegPay(s.k, pos) IN
  CASE s.k = "exif"    -> SegM(225, <<B(ExifId), B(PBytes(pay))>>)
    [] s.k = "exifbig" -> SegM(225, <<B(ExifId), B(PBytes(pay)), Z(12000, 255)>>)
    [] s.k = "exifxl"  -> SegM(225, <<B(ExifId), B(PBytes(pay)), Z(65533 - 6 - Len(PBytes(pay)), 255)>>)
    [] s.k = "exifmin" -> SegM(225, <<B(ExifId), B(<<77,77,0,42,0,0,0,8,0,0,0,0,0,0>>)>>)
    [] s.k = "exifempty" -> SegM(225, <<B(ExifId)>>)
    [] s.k = "app1xmp" -> SegM(225, <<S(XmpNs), B(<<0>>), S("<x:xmpmeta xmlns:x='adobe:ns:meta/'/>")>>)
    [] s.k = "app1other" -> SegM(225, <<S("Exif"), B(<<0>>), B(<<1>>), B(PBytes(pay))>>)
    [] s.k = "app1short" -> SegM(225, <<S("Exi")>>)
    [] s.k = "app1five" -> SegM(225, <<S("Exif"), B(<<0>>)>>)
    [] s.k = "app1nil" -> SegM(225, <<>>)
    [] s.k = "app0"    -> SegM(224, <<S("JFIF"), B(<<0,1,1,0,0,1,0,1,0,0>>)>>)
    [] s.k = "app2exif" -> SegM(226, <<B(ExifId), B(PBytes(pay))>>)
    [] s.k = "app2big" -> SegM(226, <<S("ICC_PROFILE"), B(<<0>>), Z(65533 - 12, 1)>>)
    [] s.k = "comtrap" -> SegM(254, <<B(<<255,225>>), U2(8 + Len(PBytes(pay))), B(ExifId), B(PBytes(pay)), B(<<255,218>>)>>)
    [] s.k = "dqt"     -> SegM(219, <<Z(65, 1)>>)
    [] s.k = "sof"     -> SegM(192, <<B(<<8,0,16,0,16,3,1,34,0,2,17,1,3,17,1>>)>>)
    [] s.k = "sos"     -> SegM(218, <<B(<<3,1,0,2,17,3,17,0,63,0>>)>>)
    [] s.k = "pad"     -> SegM(254, <<Z(s.x, 32)>>)
\* fill bytes, of which any number may precede a marker
IsFill(k) == k \in {"fill1", "fill3", "fill300"}
FillLen(k) == CASE k = "fill1" -> 1 [] k = "fill3" -> 3 [] k = "fill300" -> 300
SegParts(s, pos) == IF IsFill(s.k) THEN <<Z(FillLen(s.k), 255)>> ELSE LET g == SegOf(s, pos) IN Seg(g.m, g.body)
SegSize(s) == Size(SegParts(s, 1))
SegsSize(ss) == LET RECURSIVE F(_, _)
                    F(q, a) == IF q > Len(ss) THEN a ELSE F(q + 1, a + Size(SegParts(ss[q], q)))
                IN F(1, 0)

FirstExifIn(ss) ==
  LET c == {p \in 1..Len(ss) : IsExif(ss[p].k) /\ \A q \in 1..(p-1) : ss[q].k # "sos" /\ ~IsExif(ss[q].k)}
  IN IF c = {} THEN 0 ELSE CHOOSE p \in c : TRUE

\* SOI, the segments, a start of scan with entropy coded data, EOI
Tail0 == <<B(<<17,34,255,0,51>>), Rnd(160), B(<<255,217>>)>>
HasSos(ss) == \E p \in 1..Len(ss) : ss[p].k = "sos"
JpegParts(ss) ==
  <<B(<<255,216>>)>> \o Cat([p \in 1..Len(ss) |-> SegParts(ss[p], p)])
  \o (IF HasSos(ss) THEN <<>> ELSE SegParts([k |-> "sos", x |-> 0], 0)) \o Tail0

ExifAnswer(ss, p) ==
  IF p = 0 \/ (IF p = 0 THEN FALSE ELSE ss[p].k = "exifempty") THEN Err("ExifNotFound")
  ELSE IF ss[p].k = "exifmin" THEN [ok |-> [entries |-> <<>>, embedded |-> FALSE, gps |-> "none"]]
  ELSE [ok |-> [entries |-> PEntries(SegPay(ss[p].k, p)), embedded |-> FALSE, gps |-> "none"]]
=============================================================================
