------------------------------ MODULE Catalog ------------------------------
(* A small library of complete files of every supported format, with the    *)
(* answer of every call. The specifications of histories (Session), reading  *)
(* (IoTrace, Faults), damage (Damage) and the command line tool (Cli) use it.*)
EXTENDS IfdLib, EbmlLib, EagerLib

\* ---- a TIFF block with every kind of directory ----
RichP(e, ch) == [e |-> e, ch |-> ch, gap |-> 0, tail |-> 40, gps |-> TRUE, bad |-> FALSE, tz |-> TRUE, ifd1 |-> TRUE]
RB4(e, x) == I4(e, x)
RatB(e, x, y) == I4(e, x) \o I4(e, y)
AscE(t, b) == [tag |-> t, fmt |-> 2, cnt |-> Len(b) + 1, out |-> b \o <<0>>]
AscI(t, b) == [tag |-> t, fmt |-> 2, cnt |-> Len(b) + 1, inl |-> PadTo(b \o <<0>>, 4)]
ShoE(e, t, x) == [tag |-> t, fmt |-> 3, cnt |-> 1, inl |-> I2(e, x) \o <<0, 0>>]
LngE(e, t, x) == [tag |-> t, fmt |-> 4, cnt |-> 1, inl |-> I4(e, x)]
PtrE(t, r) == [tag |-> t, fmt |-> 4, cnt |-> 1, ptr |-> r]
UndE(t, b) == [tag |-> t, fmt |-> 7, cnt |-> Len(b), out |-> b]
D1 == <<50,48,50,52,58,48,51,58,48,53,32,49,48,58,50,48,58,51,48>>     \* 2024:03:05 10:20:30
D2 == <<50,48,50,52,58,48,51,58,48,53,32,48,57,58,48,56,58,48,55>>     \* 2024:03:05 09:08:07
\* every file has its own zone: +08:00, -05:30 or +02:15
TzB(p) == CASE p.ch % 3 = 0 -> <<45,48,53,58,51,48>> [] p.ch % 3 = 1 -> <<43,48,50,58,49,53>> [] OTHER -> <<43,48,56,58,48,48>>
TzS(p) == CASE p.ch % 3 = 0 -> "-05:30" [] p.ch % 3 = 1 -> "+02:15" [] OTHER -> "+08:00"
BadCut(e, t) == [tag |-> t, fmt |-> 2, cnt |-> 500, inl |-> I4(e, 2147483000)]
BadFmt(t) == [tag |-> t, fmt |-> 99, cnt |-> 1, inl |-> <<1, 2, 3, 4>>]
If(c, s) == IF c THEN s ELSE <<>>
RichTf(p) == [e |-> p.e, gap |-> p.gap, tail |-> p.tail, order |-> <<1, 2>> \o If(p.gps, <<3>>) \o If(p.ifd1, <<4>>),
  dirs |-> << [ents |-> << AscE(271, Rep(p.ch, 9)), ShoE(p.e, 274, 6) >> \o If(p.bad, << BadCut(p.e, 305) >>) \o << AscE(306, D1), PtrE(34665, 2) >> \o If(p.gps, << PtrE(34853, 3) >>), next |-> IF p.ifd1 THEN 4 ELSE 0, over |-> 0],
              [ents |-> << ShoE(p.e, 34855, 400), AscE(36867, D2) >> \o If(p.tz, << AscE(36881, TzB(p)) >>) \o If(p.bad, << BadFmt(37121) >>) \o << UndE(37500, <<7, 0, 9, 255, p.ch, 1>>) >>, next |-> 0, over |-> 0],
              [ents |-> << AscI(1, <<78>>), [tag |-> 2, fmt |-> 5, cnt |-> 3, out |-> RatB(p.e, 22, 1) \o RatB(p.e, 31, 1) \o RatB(p.e, 5208, 100)],
                           AscI(3, <<69>>), [tag |-> 4, fmt |-> 5, cnt |-> 3, out |-> RatB(p.e, 114, 1) \o RatB(p.e, 1, 1) \o RatB(p.e, p.ch, 1)] >>, next |-> 0, over |-> 0],
              [ents |-> << ShoE(p.e, 259, 6), [tag |-> 282, fmt |-> 5, cnt |-> 1, out |-> RatB(p.e, 72, 1)], LngE(p.e, 513, 700) >>, next |-> 0, over |-> 0] >>]
Rat(x, y) == <<HL(x), HL(y)>>
Txt(b) == <<"Text", Codes(b)>>
When3(p, s, tz) == IF p.tz THEN <<"DateTime", s \o tz>> ELSE <<"NaiveDateTime", s>>
RichEnts(p) ==
  LET t == RichTf(p) IN
  << <<0, 271, Txt(Rep(p.ch, 9))>>, <<0, 274, <<"U16", <<6>>>> >> >>
  \o If(p.bad, << <<0, 305, <<"!", "Truncated">> >> >>)
  \o << <<0, 306, When3(p, "2024-03-05T10:20:30", TzS(p))>>, <<0, 34665, <<"U32", << HL(OffOf(t, 2)) >> >> >>,
        <<0, 34855, <<"U16", <<400>>>> >>, <<0, 36867, When3(p, "2024-03-05T09:08:07", TzS(p))>> >>
  \o If(p.tz, << <<0, 36881, Txt(TzB(p))>> >>) \o If(p.bad, << <<0, 37121, <<"!", "InvalidShape">> >> >>)
  \o << <<0, 37500, <<"Undefined", <<7, 0, 9, 255, p.ch, 1>> >> >> >>
  \o If(p.gps, << <<0, 34853, <<"U32", << HL(OffOf(t, 3)) >> >> >>, <<0, 1, <<"Text", "N">> >>, <<0, 2, <<"URationalArray", << Rat(22, 1), Rat(31, 1), Rat(5208, 100) >> >> >>,
        <<0, 3, <<"Text", "E">> >>, <<0, 4, <<"URationalArray", << Rat(114, 1), Rat(1, 1), Rat(p.ch, 1) >> >> >> >>)
  \o If(p.ifd1, << <<1, 259, <<"U16", <<6>>>> >>, <<1, 282, <<"URational", << Rat(72, 1) >> >> >>, <<1, 513, <<"U32", << HL(700) >> >> >> >>)
RichGps(p) == IF p.gps THEN [latref |-> "N", lat |-> << Rat(22, 1), Rat(31, 1), Rat(5208, 100) >>, lonref |-> "E", lon |-> << Rat(114, 1), Rat(1, 1), Rat(p.ch, 1) >>, alt |-> "none", speed |-> "none"] ELSE "none"
RichParts(p) == TiffParts(RichTf(p))

\* ---- an answer: what is known about a file ----
\* es, gps, emb: the Exif (has = FALSE: none), text: PNG chunks, track
NoText == "none"
Img(n, parts, p, emb) == [n |-> n, parts |-> parts, cls |-> "img", es |-> RichEnts(p), gps |-> RichGps(p), emb |-> emb, hastext |-> FALSE, text |-> NoText, track |-> Err("TrackNotFound"), has |-> TRUE]
NoExif(n, parts) == [n |-> n, parts |-> parts, cls |-> "img", es |-> <<>>, gps |-> "none", emb |-> FALSE, hastext |-> FALSE, text |-> NoText, track |-> Err("TrackNotFound"), has |-> FALSE]
Trk(n, parts, tr) == [n |-> n, parts |-> parts, cls |-> "trk", es |-> <<>>, gps |-> "none", emb |-> FALSE, hastext |-> FALSE, text |-> NoText, track |-> tr, has |-> FALSE]
Bad(n, parts, cls) == [n |-> n, parts |-> parts, cls |-> cls, es |-> <<>>, gps |-> "none", emb |-> FALSE, hastext |-> FALSE, text |-> NoText, track |-> Err("TrackNotFound"), has |-> FALSE]

\* ---- containers ----
App1(parts) == <<B(<<255, 225>>), Covers(U2(8 + Size(parts)), 2, 8 + Size(parts)), B(<<69,120,105,102,0,0>>)>> \o parts
JSeg(m, parts) == <<B(<<255, m>>), Covers(U2(2 + Size(parts)), 2, 2 + Size(parts))>> \o parts
JTail(n) == <<B(<<255, 218>>), U2(12), B(<<3,1,0,2,17,3,17,0,63,0>>), Z(n, 17), B(<<255, 217>>)>>
PngSig == <<137,80,78,71,13,10,26,10>>
PChunk(ty, b) == <<Covers(U4(Size(b)), 0, 8 + Size(b)), S(ty)>> \o b \o <<U4(0)>>
PngOf(cs) == <<B(PngSig)>> \o PChunk("IHDR", <<U4(16), U4(16), B(<<8,2,0,0,0>>)>>) \o cs \o PChunk("IEND", <<>>)
RafHead(off) == <<S("FUJIFILMCCD-RAW "), S("0201"), S("FF159502"), B(PadTo(<<88,45,84,53>>, 32)), S("0100"), Z(20, 0), U4(off), Z(off - 88, 171)>>
CanonId == <<133,192,182,135,130,15,17,224,129,17,244,206,70,43,106,72>>
HeifMeta(off, len) == FullBox("meta", 0, FullBox("hdlr", 0, <<U4(0), S("pict"), Z(13, 0)>>)
  \o FullBox("iinf", 0, <<U2(2)>> \o FullBox("infe", 2, <<U2(1), U2(0), S("hvc1"), B(<<0>>)>>) \o FullBox("infe", 2, <<U2(2), U2(0), S("Exif"), B(<<0>>)>>))
  \o FullBox("iloc", 0, <<B(<<68, 0>>), U2(2), U2(1), U2(0), U2(1), U4(40), U4(30), U2(2), U2(0), U2(1), U4(off), U4(len)>>))
HeifItem(tp) == <<U4(6), B(<<69,120,105,102,0,0>>)>> \o tp
\* meta first, the item gap bytes into the media data
HeifPost(gap, tp) == LET ft == Ftyp("heic", <<"mif1", "heic">>)  m0 == Size(ft) + Size(HeifMeta(0, 0))  it == HeifItem(tp) IN
  ft \o HeifMeta(m0 + 8 + gap, Size(it)) \o Box("mdat", <<Z(gap, 170)>> \o it \o <<Z(30, 187)>>) \o Filler("free", 60)
HeifPre(gap, tp) == LET ft == Ftyp("avif", <<"mif1", "avif">>)  it == HeifItem(tp) IN
  ft \o Box("mdat", <<Z(gap, 170)>> \o it \o <<Z(30, 187)>>) \o HeifMeta(Size(ft) + 8 + gap, Size(it)) \o Filler("free", 60)
Cmt(t, tp) == Box(t, tp)
CrOf(pre, a, b) == Ftyp("crx ", <<"crx ", "isom">>) \o pre \o Box("moov", Filler("mvhd", 100) \o Box("uuid", <<B(CanonId)>> \o Filler("CNCV", 38) \o Cmt("CMT1", a) \o Cmt("CMT2", b) \o Filler("CMT3", 60)) \o Filler("trak", 80)) \o Filler("mdat", 300)
MvA(n) == [v |-> 0, t |-> [d |-> 45320, s |-> 25597], du |-> D4(n, 1000)]
VtA(w) == [v |-> 0, h |-> "vide", w |-> w, hh |-> 240, o |-> "std"]
AtA == [v |-> 0, h |-> "soun", w |-> 0, hh |-> 0, o |-> "std"]
MoovA(n, w) == Box("moov", Mvhd(MvA(n)) \o Trak(AtA) \o Trak(VtA(w)) \o Meta([o |-> "std", keys |-> <<"make", "model", "location.ISO6709">>, items |-> <<[ix |-> 1, ty |-> 1, v |-> "apple", bad |-> "no"], [ix |-> 2, ty |-> 1, v |-> "phone", bad |-> "no"], [ix |-> 3, ty |-> 1, v |-> "loc", bad |-> "no"]>>]))
MovSays(n, w) == SaysMvhd(MvA(n)) \o SaysTrak(VtA(w)) \o SaysMeta([o |-> "std", keys |-> <<"make", "model", "location.ISO6709">>, items |-> <<[ix |-> 1, ty |-> 1, v |-> "apple", bad |-> "no"], [ix |-> 2, ty |-> 1, v |-> "phone", bad |-> "no"], [ix |-> 3, ty |-> 1, v |-> "loc", bad |-> "no"]>>])
WInfo == El(IdInfo, 2, El(<<42, 215, 177>>, 1, UInt(1000000, 4)) \o El(<<68, 137>>, 1, <<B(<<70, 0, 0, 0>>)>>))
WTracks == El(IdTracks, 2, El(<<174>>, 2, El(<<131>>, 1, UInt(1, 1)) \o El(<<224>>, 2, El(<<176>>, 1, UInt(320, 2)) \o El(<<186>>, 1, UInt(240, 2)))))
WClus(n) == El(IdCluster, 4, El(<<231>>, 1, UInt(0, 1)) \o El(<<163>>, 4, <<Z(n, 21)>>))
WebmOf(mid) == LET b == WInfo \o mid \o WTracks \o Void(2, 300) IN WebmHead("webm") \o <<B(IdSeg), Covers(B(VSize(Size(b), 8)), 4, 8 + Size(b))>> \o b
WSays == << [f |-> "DurationMs", v |-> <<"U64", "8192">>, r |-> 1], [f |-> "Width", v |-> <<"U32", <<<<0, 320>>>> >>, r |-> 1], [f |-> "Height", v |-> <<"U32", <<<<0, 240>>>> >>, r |-> 1] >>
\* a SeekHead of fixed size in front of the cluster
SkEl(id, pos) == El(<<77, 187>>, 2, El(<<83, 171>>, 1, <<B(id)>>) \o El(<<83, 172>>, 1, UInt(pos, 4)))
SkHead(pi, pt) == El(IdSeek, 2, SkEl(IdInfo, pi) \o SkEl(IdTracks, pt))
WebmSeek(n) == LET k0 == Size(SkHead(0, 0)) + Size(WClus(n))  b == SkHead(k0 + Size(WTracks) + 20, k0) \o WClus(n) \o WTracks \o Void(1, 18) \o WInfo \o Void(2, 300) IN
  WebmHead("matroska") \o <<B(IdSeg), Covers(B(VSize(Size(b), 8)), 4, 8 + Size(b))>> \o b
UdLoc == <<[k |-> "other"], [k |-> "xyz", v |-> "loc2"], [k |-> "und", v |-> "phone"], [k |-> "zero"]>>
MoovU == Box("moov", Udta(UdLoc) \o Mvhd([v |-> 1, t |-> [d |-> 43000, s |-> 100], du |-> D4(77777, 600)]) \o Trak([v |-> 1, h |-> "vide", w |-> 720, hh |-> 480, o |-> "rev"]))
MovUSays == SaysUdta(UdLoc) \o SaysMvhd([v |-> 1, t |-> [d |-> 43000, s |-> 100], du |-> D4(77777, 600)]) \o SaysTrak([v |-> 1, h |-> "vide", w |-> 720, hh |-> 480, o |-> "rev"])
Heif64Meta(off, len) == FullBoxW(TRUE, "meta", 0, FullBox("iloc", 2, <<B(<<136, 132>>), U4(3), U4(70001), U2(0), U2(0), U8(0), U2(1), U4(1), U8(44), U8(20),
      U4(7), U2(1), U2(0), U8(0), U2(2), U4(1), U8(0), U8(4), U4(2), U8(4), U8(4), U4(70002), U2(0), U2(0), U8(off), U2(1), U4(1), U8(0), U8(len)>>)
  \o Filler("iprp", 40) \o FullBox("iinf", 1, <<U4(2)>> \o FullBox("infe", 3, <<U4(70001), U2(0), S("mime"), S("a"), B(<<0>>), S("text/x"), B(<<0>>)>>) \o FullBox("infe", 3, <<U4(70002), U2(0), S("Exif"), B(<<0>>)>>))
  \o FullBox("hdlr", 0, <<U4(0), S("pict"), Z(13, 0)>>))
Heif64(tp) == LET ft == Ftyp("mif1", <<"heic">>)  m0 == Size(ft) + Size(Heif64Meta(0, 0))  it == HeifItem(tp) IN
  ft \o Heif64Meta(m0 + 16, Size(it)) \o Box64("mdat", it \o <<Z(30, 187)>>) \o Filler("free", 60)
XmpMp(d) == JSeg(225, <<S("http://ns.adobe.com/xap/1.0/"), B(<<0>>), S("<x:xmpmeta><rdf:Description GCamera:MotionPhoto=\"1\" GCamera:MotionPhotoOffset=\"" \o Num(d) \o "\"/></x:xmpmeta>")>>)
MpVideo == Ftyp("mp42", <<"isom">>) \o MoovA(5432, 640) \o Filler("mdat", 300)
CutTo(parts, n) == << [cut |-> parts, at |-> n, n |-> n] >>

\* ---- the files ----
PA == RichP("MM", 65)
PB == [RichP("II", 66) EXCEPT !.tail = 9000]
PC == [RichP("MM", 67) EXCEPT !.gps = FALSE, !.tz = FALSE]
PD == [RichP("II", 68) EXCEPT !.bad = TRUE]
PE == [RichP("II", 69) EXCEPT !.gap = 9000, !.ifd1 = FALSE]
PF == [RichP("MM", 70) EXCEPT !.ifd1 = FALSE]
\* two blocks in one CR3: the second one repeats tags of the first, which are delivered once
C1 == [RichP("II", 71) EXCEPT !.gps = FALSE]
C2 == [RichP("MM", 72) EXCEPT !.ifd1 = FALSE]
CrEntsOf(a, b) == RichEnts(a) \o SelectSeq(RichEnts(b), LAMBDA x : x[1] = 0 /\ x[2] \in {34853, 1, 2, 3, 4})
CrEnts == CrEntsOf(C1, C2)
File(n) ==
  CASE n = "jpeg"   -> Img(n, <<B(<<255, 216>>)>> \o App1(RichParts(PA)) \o JTail(400), PA, FALSE)
    [] n = "jpegbig" -> Img(n, <<B(<<255, 216>>)>> \o JSeg(226, <<Z(30000, 1)>>) \o App1(RichParts(PB)) \o JTail(400), PB, FALSE)
    [] n = "jpegbad" -> Img(n, <<B(<<255, 216>>)>> \o JSeg(224, <<Z(14, 1)>>) \o App1(RichParts(PD)) \o JTail(400), PD, FALSE)
    [] n = "jpegno" -> NoExif(n, <<B(<<255, 216>>)>> \o JSeg(226, <<Z(9000, 1)>>) \o JTail(400))
    [] n = "motion" -> [Img(n, <<B(<<255, 216>>)>> \o App1(RichParts(PC)) \o XmpMp(Size(MpVideo)) \o JTail(400) \o MpVideo, PC, TRUE) EXCEPT !.track = TrackExp(MovSays(5432, 640))]
    [] n = "tiff"   -> Img(n, RichParts(PF), PF, FALSE)
    [] n = "tiffgap" -> Img(n, RichParts(PE), PE, FALSE)
    [] n = "png"    -> [Img(n, PngOf(PChunk("tEXt", <<S("Author"), B(<<0>>), S("Ada")>>) \o PChunk("IDAT", <<Z(20000, 1)>>) \o PChunk("eXIf", RichParts(PC)) \o PChunk("tEXt", <<S("Note"), B(<<0>>), S("x")>>)), PC, FALSE) EXCEPT !.hastext = TRUE, !.text = << <<"Author", "Ada">>, <<"Note", "x">> >>]
    [] n = "pngtext" -> [NoExif(n, PngOf(PChunk("tEXt", <<S("Title"), B(<<0>>), S("T")>>) \o PChunk("IDAT", <<Z(9000, 1)>>))) EXCEPT !.hastext = TRUE, !.text = << <<"Title", "T">> >>]
    [] n = "heic"   -> Img(n, HeifPost(20000, RichParts(PA)), PA, FALSE)
    [] n = "heicedge" -> Img(n, HeifPost(6500, RichParts(PB)), PB, FALSE)
    [] n = "avif"   -> Img(n, HeifPre(9000, RichParts(PD)), PD, FALSE)
    [] n = "cr3"    -> [Img(n, CrOf(Filler("free", 12000), RichParts(C1), RichParts(C2)), C1, FALSE) EXCEPT !.es = CrEnts, !.gps = RichGps(C2)]
    [] n = "raf"    -> Img(n, RafHead(9000) \o <<B(<<255, 216>>)>> \o App1(RichParts(PF)) \o JTail(400), PF, FALSE)
    [] n = "mov"    -> Trk(n, Ftyp("qt  ", <<"qt  ">>) \o MoovA(1234, 320) \o Filler("mdat", 400), TrackExp(MovSays(1234, 320)))
    [] n = "mp4"    -> Trk(n, Ftyp("isom", <<"mp42">>) \o Filler("mdat", 50000) \o MoovA(98765, 1920) \o Filler("free", 200), TrackExp(MovSays(98765, 1920)))
    [] n = "webm"   -> Trk(n, WebmOf(<<>>), TrackExp(WSays))
    [] n = "mkv"    -> Trk(n, WebmOf(WClus(30000)), TrackExp(WSays))
    [] n = "webmseek" -> Trk(n, WebmSeek(500), TrackExp(WSays))
    [] n = "mpudta" -> Trk(n, Ftyp("3gp4", <<"isom">>) \o Box64("mdat", <<Z(200, 5)>>) \o MoovU \o Filler("free", 40), TrackExp(MovUSays))
    [] n = "heic64" -> Img(n, Heif64(RichParts(PC)), PC, FALSE)
    \* more is loaded than the parser keeps
    [] n = "tiffhuge" -> LET p == [PE EXCEPT !.gap = 5000000] IN Img(n, RichParts(p), p, FALSE)
    [] n = "jpeghuge" -> Img(n, <<B(<<255, 216>>)>> \o << [rep |-> JSeg(226, <<Z(65533, 1)>>), k |-> 100, n |-> 6553700] >> \o App1(RichParts(PD)) \o JTail(400), PD, FALSE)
    \* twins: another file's layout and length with other content
    [] n = "jpegtwin" -> LET p == [PA EXCEPT !.ch = 84] IN Img(n, <<B(<<255, 216>>)>> \o App1(RichParts(p)) \o JTail(400), p, FALSE)
    [] n = "tifftwin" -> LET p == [PF EXCEPT !.ch = 84] IN Img(n, RichParts(p), p, FALSE)
    [] n = "heictwin" -> LET p == [PA EXCEPT !.ch = 85] IN Img(n, HeifPost(20000, RichParts(p)), p, FALSE)
    [] n = "cr3twin" -> LET a == [C1 EXCEPT !.ch = 85]  b == [C2 EXCEPT !.ch = 86] IN
         [Img(n, CrOf(Filler("free", 12000), RichParts(a), RichParts(b)), a, FALSE) EXCEPT !.es = CrEntsOf(a, b), !.gps = RichGps(b)]
    [] n = "pngtwin" -> LET p == [PC EXCEPT !.ch = 87] IN
         [Img(n, PngOf(PChunk("tEXt", <<S("Author"), B(<<0>>), S("Bob")>>) \o PChunk("IDAT", <<Z(20000, 1)>>) \o PChunk("eXIf", RichParts(p)) \o PChunk("tEXt", <<S("Memo"), B(<<0>>), S("y")>>)), p, FALSE) EXCEPT !.hastext = TRUE, !.text = << <<"Author", "Bob">>, <<"Memo", "y">> >>]
    [] n = "movtwin" -> Trk(n, Ftyp("qt  ", <<"qt  ">>) \o MoovA(4321, 240) \o Filler("mdat", 400), TrackExp(MovSays(4321, 240)))
    \* long texts in two directories, which every walk goes through
    [] n = "tifflong" -> [Img(n, << B(<<77,77,0,42>>), U4(8), U2(3), U2(270), U2(2), U4(40001), U4(50), U2(272), U2(2), U4(3), B(<<120,121,0,0>>), U2(34665), U2(4), U4(1), U4(40052), U4(0),
                                      Z(40000, 113), B(<<0, 0>>), U2(1), U2(42036), U2(2), U4(40001), U4(40070), U4(0), Z(40000, 114), B(<<0, 0>>) >>, PF, FALSE)
         EXCEPT !.gps = "none", !.es = << <<0, 270, <<"Text", RepStr(113, 40000)>> >>, <<0, 272, <<"Text", "xy">> >>, <<0, 34665, <<"U32", << HL(40052) >> >> >>, <<0, 42036, <<"Text", RepStr(114, 40000)>> >> >>]
    [] n = "junk"   -> Bad(n, <<Z(300, 1)>>, "junk")
    [] n = "cutjpeg" -> Bad(n, CutTo(<<B(<<255, 216>>)>> \o JSeg(226, <<Z(9000, 1)>>) \o App1(RichParts(PA)), 9200), "img")
    [] n = "cutheic" -> Bad(n, CutTo(HeifPost(30000, RichParts(PA)), 9000), "img")
    [] n = "cutitem" -> Bad(n, CutTo(HeifPost(400, RichParts(PB)), 1100), "img")
    [] n = "cutmp4" -> Bad(n, CutTo(Ftyp("isom", <<"mp42">>) \o Filler("mdat", 20000) \o MoovA(98765, 1920), 20200), "trk")
    [] n = "cutcr3" -> Bad(n, CutTo(CrOf(<<>>, RichParts(C1), RichParts(C2)), 900), "img")
    [] n = "badtiff" -> Bad(n, <<B(<<77,77,0,42>>), U4(2147483000), Z(400, 0)>>, "img")
    [] n = "cutpng" -> Bad(n, CutTo(PngOf(PChunk("eXIf", RichParts(PC)) \o PChunk("IDAT", <<Z(9000, 1)>>)), 300), "img")
    [] n = "heicno" -> NoExif(n, Ftyp("heic", <<"mif1">>) \o Filler("free", 20000) \o FullBox("meta", 0, FullBox("hdlr", 0, <<U4(0), S("pict"), Z(13, 0)>>) \o FullBox("iinf", 0, <<U2(0)>>) \o FullBox("iloc", 0, <<B(<<68, 0>>), U2(0)>>)) \o Filler("mdat", 100))
Images == {"jpeg", "jpegbig", "jpegbad", "motion", "tiff", "tiffgap", "png", "heic", "heicedge", "avif", "heic64", "cr3", "raf"}
NoExifs == {"jpegno", "pngtext", "heicno"}
Tracks == {"mov", "mp4", "webm", "mkv", "webmseek", "mpudta"}
Bads == {"junk", "cutjpeg", "cutheic", "cutitem", "cutmp4", "cutcr3", "badtiff", "cutpng"}
Huges == {"tiffhuge", "jpeghuge"}
Twins == {"jpegtwin", "tifftwin", "heictwin", "cr3twin", "pngtwin", "movtwin"}
Good == Images \cup NoExifs \cup Tracks
AllFiles == Good \cup Bads
WithTwins == AllFiles \cup Twins
Longs == {"tifflong", "jpegbad", "cr3"}
ImagesTwins == Images \cup (Twins \ {"movtwin"})
\* ---- the answer of each call ----
AnyErr == OneOf(<<Err("Eof"), Err("Malformed"), Err("ExifNotFound"), Err("TrackNotFound"), Err("Unsupported")>>)
ExifVal(f) == [entries |-> f.es, embedded |-> f.emb, gps |-> f.gps]
Answer(n, call) ==
  LET f == File(n) IN
  IF n = "junk" THEN Err("Unsupported")
  ELSE IF n \in Bads THEN (IF call = "kind" THEN (IF f.cls = "img" THEN "Image" ELSE "Track") ELSE AnyErr)
  ELSE CASE call = "kind" -> IF f.cls = "img" THEN "Image" ELSE "Track"
    [] call = "exif" -> IF f.has THEN [ok |-> ExifVal(f)] ELSE Err("ExifNotFound")
    [] call = "track" -> f.track
    [] call = "imeta" -> IF f.has THEN [ok |-> [exif |-> ExifVal(f), text |-> f.text]] ELSE IF f.hastext THEN [ok |-> [exif |-> "none", text |-> f.text]] ELSE Err("ExifNotFound")
BadsOf(es) == {i \in 1..Len(es) : es[i][3][1] = "!"}
EagerAns(n) == LET f == File(n) IN EagerVal(f.es, BadsOf(f.es), f.gps, f.emb)
=============================================================================
