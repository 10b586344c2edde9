------------------------------- MODULE Motion -------------------------------
(* Motion photos: a JPEG whose XMP says how far from the end of the file the *)
(* embedded video starts (C22).                                              *)
EXTENDS JpegLib, MovLib
CONSTANTS Orders,      \* segments between SOI and the start of scan
          Marks,       \* the motion photo marker of the XMP packet
          Locs,        \* how the packet gives the distance
          Ats,         \* what lies at that distance
          Trailers,    \* layouts of the appended video
          Pads,        \* size of a filling segment
          Aligns, Deltas, \* start of the segment after the filling one
          Pick, Mode
VARIABLES f, phase, cur, exif, dist
vars == <<f, phase, cur, exif, dist>>
\* ---- catalogs ----
OrdersAll == {<<"exif", "xmp">>, <<"xmp", "exif">>, <<"exif", "plain", "xmp">>, <<"xmp">>, <<"exif">>, <<"plain", "exif">>, <<"exif", "pad", "xmp">>, <<"xmp", "pad", "exif">>, <<"exif", "ext", "xmp", "other">>,
  <<"exif", "sos", "xmp">>, <<"exif", "ext">>, <<"app0", "exif", "pad", "pad", "pad", "plain", "xmp", "pad">>, <<"exif", "xmp", "other">>, <<"exif", "other", "xmp">>, <<"pad", "xmp", "exif">>, <<"exif", "com">>, <<"exif", "app2", "xmp">>, <<"fill", "exif", "fill", "xmp">>, <<"exif", "plain", "fill", "fill", "xmp">>, <<"exif", "xlong">>, <<"xlong", "pad", "exif">>}
OrdersPad == {<<"exif", "pad", "xmp">>, <<"pad", "xmp", "exif">>, <<"pad", "exif", "xmp">>, <<"exif", "pad", "plain", "xmp">>, <<"exif", "pad", "com">>}
MarksAll == {"mp", "mv", "both", "mp0", "mp11", "no", "elsewhere"}
LocsAll == {"mpo", "mvo", "mpomvo", "cont", "contsem", "contmime", "contatt", "contno", "contlen", "contpad", "contafter", "contearly", "no", "garb", "neg", "empty"}
AtsAll == {"video", "decoy", "junk", "past", "zero", "all"}
TrailersAll == {"mp4", "mdatfirst", "3gp", "qt", "wide", "big", "noftyp", "webm", "heic", "nomoov", "cut", "after"}

\* ---- the videos ----
V1 == [v |-> 0, h |-> "vide", w |-> 1440, hh |-> 1080, o |-> "std"]
A1 == [v |-> 0, h |-> "soun", w |-> 0, hh |-> 0, o |-> "std"]
Mv(n) == [v |-> 0, t |-> [d |-> 45320, s |-> 25597], du |-> D4(n, 1000)]
Moov(n) == Box("moov", Mvhd(Mv(n)) \o Trak(A1) \o Trak(V1))
Says(n) == SaysMvhd(Mv(n)) \o SaysTrak(V1)
Ebml(id, body) == <<B(id), B(<<64 + (Size(body) \div 256), Size(body) % 256>>)>> \o body
Webm == <<B(<<26, 69, 223, 163>>), B(<<64, 7>>), B(<<66, 130>>), B(<<64, 4>>), S("webm")>>
Video(t, n) ==
  LET md == Filler("mdat", 400)  ft == Ftyp("mp42", <<"isom", "mp42">>) IN
  CASE t = "mp4" -> ft \o Moov(n) \o md
    [] t = "mdatfirst" -> ft \o md \o Moov(n)
    [] t = "3gp" -> Ftyp("3gp4", <<"isom">>) \o Filler("free", 30) \o Moov(n)
    [] t = "qt" -> Ftyp("qt  ", <<"qt  ">>) \o Filler("wide", 8) \o md \o Moov(n)
    [] t = "wide" -> ft \o Box64("mdat", <<Z(300, 1)>>) \o Box64("moov", Mvhd(Mv(n)) \o Trak(V1))
    [] t = "big" -> ft \o Filler("mdat", 30000) \o Moov(n) \o Filler("free", 8)
    [] t = "after" -> ft \o md \o Moov(n) \o Filler("mdat", 20000)
    [] t = "noftyp" -> Filler("wide", 8) \o md \o Moov(n)
    [] t = "heic" -> Ftyp("heic", <<"mif1">>) \o md
    [] t = "nomoov" -> ft \o md
    [] t = "cut" -> ft \o md \o <<U4(900), S("moov")>> \o Mvhd(Mv(n))
    [] t = "webm" -> Webm
Bad(t) == t \in {"heic", "nomoov", "cut", "webm"}
\* (a video that ends early is not the same as one without a track)
Answer(t, n) == IF t = "cut" THEN Err("Eof") ELSE IF Bad(t) THEN OneOf(<<Err("TrackNotFound"), Err("Eof"), Err("Malformed")>>) ELSE TrackExp(Says(n))

\* ---- the file behind the image ----
\* bytes after the image: a gain map, a decoy video, the video, then more
Gain == <<B(<<255, 216, 255>>), Z(150, 7)>>
Decoy == Video("mp4", 999)
HasMore == f.loc \in {"contafter", "contpad"}
More == IF HasMore THEN <<Z(130, 66)>> ELSE <<>>
\* padding between the video and what follows
Gap == IF f.loc = "contpad" THEN 33 ELSE 0
Vid == Video(f.tr, 4321)
Rest == Size(Vid) + Gap + Size(More)          \* distance of the video from the end of the file
Trailing == Gain \o Decoy \o Vid \o <<Z(Gap, 0)>> \o More
\* the distance the packet gives
Dist == CASE f.at = "video" -> Rest [] f.at = "decoy" -> Rest + Size(Decoy) [] f.at = "junk" -> Rest - 5
          [] f.at = "past" -> 900000 [] f.at = "zero" -> 0 [] f.at = "all" -> Rest + Size(Decoy) + Size(Gain)
\* what is there
AtDist == CASE f.at = "video" -> Answer(f.tr, 4321) [] f.at = "decoy" -> Answer("mp4", 999)
            [] OTHER -> Err("TrackNotFound")

\* ---- the XMP packet ----
Item(sem, mime, len, pad) == "<rdf:li rdf:parseType=\"Resource\"><Container:Item" \o (IF mime = "" THEN "" ELSE " Item:Mime=\"" \o mime \o "\"") \o (IF sem = "" THEN "" ELSE " Item:Semantic=\"" \o sem \o "\"")
                             \o (IF len < 0 THEN "" ELSE " Item:Length=\"" \o Num(len) \o "\"") \o (IF pad < 0 THEN "" ELSE " Item:Padding=\"" \o Num(pad) \o "\"") \o "/></rdf:li>"
VidLen == IF HasMore THEN (IF Dist < Gap + Size(More) THEN 0 ELSE Dist - Gap - Size(More)) ELSE Dist
Dir(items) == "<Container:Directory><rdf:Seq>" \o items \o "</rdf:Seq></Container:Directory>"
Primary == Item("Primary", "image/jpeg", 0, 5)
GainIt == Item("GainMap", "image/jpeg", 153, 0)
Container(l) ==
  CASE l \in {"cont", "contatt"} -> Dir(Primary \o GainIt \o Item("MotionPhoto", "video/mp4", VidLen, -1))
    [] l = "contsem" -> Dir(Primary \o Item("MotionPhoto", "video/quicktime", VidLen, 0))
    [] l = "contmime" -> Dir(Item("Primary", "image/jpeg", -1, 8) \o Item("", "video/mp4", VidLen, -1))
    \* the padding of the last item is not part of the file
    [] l = "contearly" -> Dir(Primary \o Item("MotionPhoto", "video/mp4", VidLen, 80))
    [] l = "contpad" -> Dir(Primary \o GainIt \o Item("MotionPhoto", "video/mp4", VidLen, Gap) \o Item("DepthMap", "image/png", Size(More), 7))
    [] l = "contafter" -> Dir(Primary \o Item("MotionPhoto", "video/mp4", VidLen, -1) \o Item("DepthMap", "image/png", Size(More), -1))
    [] l = "contno" -> Dir(Primary \o GainIt)
    [] l = "contlen" -> Dir(Primary \o Item("MotionPhoto", "video/mp4", -1, 3))
    [] OTHER -> ""
Q(n, v) == " " \o n \o "=\"" \o v \o "\""
Attrs(l) == CASE l \in {"mpo", "contno", "contlen"} -> Q("GCamera:MotionPhotoOffset", Num(Dist))
              [] l = "mvo" -> Q("GCamera:MicroVideoOffset", Num(Dist))
              [] l = "mpomvo" -> Q("GCamera:MicroVideoOffset", "77") \o Q("GCamera:MotionPhotoOffset", Num(Dist))
              [] l = "contatt" -> Q("GCamera:MotionPhotoOffset", "77")
              [] l = "garb" -> Q("GCamera:MotionPhotoOffset", "many")
              [] l = "neg" -> Q("GCamera:MotionPhotoOffset", "-5")
              [] l = "empty" -> Q("GCamera:MotionPhotoOffset", "")
              [] OTHER -> ""
Mark(m) == CASE m = "mp" -> Q("GCamera:MotionPhoto", "1") \o Q("GCamera:MotionPhotoVersion", "1")
             [] m = "mv" -> Q("GCamera:MicroVideo", "1") \o Q("GCamera:MicroVideoVersion", "1")
             [] m = "both" -> Q("GCamera:MicroVideo", "0") \o Q("GCamera:MotionPhoto", "1")
             [] m = "mp0" -> Q("GCamera:MotionPhoto", "0") [] m = "mp11" -> Q("GCamera:MotionPhoto", "11")
             [] m = "elsewhere" -> Q("Other:MotionPhoto", "1") [] m = "no" -> ""
Packet(m, l) == S("<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF><rdf:Description rdf:about=\"\"" \o Mark(m) \o Attrs(l) \o ">" \o Container(l) \o "</rdf:Description></rdf:RDF></x:xmpmeta>")
Declares(m, l) == m \in {"mp", "mv", "both"} /\ l \notin {"no", "garb", "neg", "empty"}

\* ---- segments ----
PayE == [e |-> "MM", ch |-> 77, len |-> 40]
SegBody(t) == CASE t = "exif" -> SegM(225, <<B(ExifId), B(PBytes(PayE))>>)
                [] t = "xmp" -> SegM(225, <<S(XmpNs), B(<<0>>), Packet(f.mark, f.loc)>>)
                \* a segment of the greatest size
                [] t = "xlong" -> SegM(225, <<S(XmpNs), B(<<0>>), Z(65533 - Len(XmpNs) - 1 - Size(<<Packet(f.mark, f.loc)>>), 32), Packet(f.mark, f.loc)>>)
                [] t = "plain" -> SegM(225, <<S(XmpNs), B(<<0>>), Packet("no", "no")>>)
                \* a second packet with another distance, an extension packet, and the
                \* same text where it means nothing
                [] t = "other" -> SegM(225, <<S(XmpNs), B(<<0>>), S("<x GCamera:MotionPhoto=\"1\" GCamera:MotionPhotoOffset=\"" \o Num(Rest + Size(Decoy)) \o "\"/>")>>)
                [] t = "ext" -> SegM(225, <<S("http://ns.adobe.com/xmp/extension/"), B(<<0>>), Packet("mp", "mpo")>>)
                [] t = "com" -> SegM(254, <<S(XmpNs), B(<<0>>), Packet("mp", "mpo")>>)
                [] t = "app2" -> SegM(226, <<S(XmpNs), B(<<0>>), Packet("mp", "mpo")>>)
                [] t = "app0" -> SegM(224, <<S("JFIF"), B(<<0,1,1,0,0,1,0,1,0,0>>)>>)
                [] t = "sos" -> SegM(218, <<B(<<3,1,0,2,17,3,17,0,63,0>>)>>)
                [] t = "pad" -> SegM(226, <<Z(f.pad, 32)>>)
\* fill bytes in front of a marker
SegP(t) == IF t = "fill" THEN <<Z(7, 255)>> ELSE LET g == SegBody(t) IN Seg(g.m, g.body)
First(t) == CHOOSE i \in 1..Len(f.ord) : f.ord[i] = t /\ \A j \in 1..(i - 1) : f.ord[j] # t
Before == 2 + Size(Cat([i \in 1..(First("pad") - 1) |-> SegP(f.ord[i])]))
Segs == Cat([i \in 1..Len(f.ord) |-> SegP(f.ord[i])])
Parts == <<B(<<255, 216>>)>> \o Segs \o (IF \E i \in 1..Len(f.ord) : f.ord[i] = "sos" THEN <<>> ELSE SegP("sos"))
         \o <<B(<<17, 34, 255, 0, 51>>), Z(200, 17), B(<<255, 217>>)>> \o Trailing

Rc(n) == [ord |-> RandomElement(Orders), mark |-> RandomElement(Marks), loc |-> RandomElement(Locs), at |-> RandomElement(Ats), tr |-> RandomElement(Trailers), pad |-> RandomElement(Pads)]
Files == [ord : Orders, mark : Marks, loc : Locs, at : Ats, tr : Trailers, pad : Pads]
Init == /\ phase = "start" /\ cur = 1 /\ exif = FALSE /\ dist = -1
        /\ f \in (IF Pick = 0 THEN Files ELSE {Rc(n) : n \in 1..Pick})
\* the filling segment may be sized so that the next segment starts at a + d
Size0 == /\ phase = "start" /\ phase' = "walk"
         /\ \/ UNCHANGED f
            \/ \E a \in Aligns, d \in Deltas : (\E i \in 1..Len(f.ord) : f.ord[i] = "pad") /\ a + d - 16 >= Before + 4 /\ a + d - 16 - Before - 4 <= 65533 /\ f' = [f EXCEPT !.pad = a + d - 16 - Before - 4]
         /\ UNCHANGED <<cur, exif, dist>>
\* the walk over the segments: Exif and the first packet that declares a video
DeclOf(t) == IF t \in {"xmp", "xlong"} /\ Declares(f.mark, f.loc) THEN Dist ELSE IF t = "other" THEN Rest + Size(Decoy) ELSE -1
Walk == /\ phase = "walk"
        /\ IF cur > Len(f.ord) THEN phase' = "give" /\ UNCHANGED <<cur, exif, dist>>
           ELSE IF f.ord[cur] = "sos" THEN phase' = "give" /\ UNCHANGED <<cur, exif, dist>>
           ELSE /\ exif' = (exif \/ f.ord[cur] = "exif")
                /\ dist' = (IF dist >= 0 THEN dist ELSE DeclOf(f.ord[cur]))
                /\ cur' = cur + 1 /\ UNCHANGED phase
        /\ UNCHANGED f
SosAt == IF \E i \in 1..Len(f.ord) : f.ord[i] = "sos" THEN First("sos") ELSE Len(f.ord) + 1
Scanned == phase = "give" => /\ exif = (\E i \in 1..(SosAt - 1) : f.ord[i] = "exif")
                             /\ (dist >= 0) = (\E i \in 1..(SosAt - 1) : DeclOf(f.ord[i]) >= 0)
TrackAns == IF dist < 0 THEN Err("TrackNotFound") ELSE IF dist = Rest + Size(Decoy) THEN Answer("mp4", 999) ELSE AtDist
ExifOk == [entries |-> PEntries(PayE), embedded |-> (dist >= 0), gps |-> "none"]
Vector == [k |-> "meta", suite |-> "motion", id |-> f, paths |-> Mode, parts |-> Parts,
           exp |-> [kind |-> "Image", track |-> TrackAns, exif |-> IF exif THEN [ok |-> ExifOk] ELSE Err("ExifNotFound"),
                    eager |-> IF exif THEN [ok |-> [embedded |-> dist >= 0]] ELSE Err("ExifNotFound"),
                    imeta |-> IF exif THEN [ok |-> [exif |-> ExifOk, text |-> "none"]] ELSE Err("ExifNotFound")]]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<f, cur, exif, dist>> /\ Emit(Vector)
Next == Size0 \/ Walk \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
