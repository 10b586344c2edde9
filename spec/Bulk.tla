-------------------------------- MODULE Bulk -------------------------------
(* Large counts (C05): every repeated element of every format, very often.  *)
(* Time and memory stay in proportion to the size of the file.              *)
EXTENDS Catalog
CONSTANTS Kinds, Counts, Modes, Calls, Base, Per, Secs
VARIABLES b, phase
Times(k, ps) == [rep |-> ps, k |-> k, n |-> k * Size(ps)]
Here(d, l) == [here |-> d, less |-> l, n |-> 4]
HereTag == [here |-> 12000, less |-> 0, div |-> 12, n |-> 2]
LongBox(ty, body) == Box(ty, body)
Small == RichP("MM", 65)
MetaN(k, off, len) == FullBox("meta", 0, FullBox("hdlr", 0, <<U4(0), S("pict"), Z(13, 0)>>)
  \o FullBox("iinf", 1, <<U4(k + 1), Times(k, FullBox("infe", 2, <<U2(1), U2(0), S("hvc1"), B(<<0>>)>>))>> \o FullBox("infe", 2, <<U2(2), U2(0), S("Exif"), B(<<0>>)>>))
  \o FullBox("iloc", 2, <<B(<<68, 0>>), U4(k + 1), Times(k, <<U4(1), U2(0), U2(0), U2(1), U4(40), U4(30)>>), U4(2), U2(0), U2(0), U2(1), U4(off), U4(len)>>))
HeicN(k) == LET ft == Ftyp("heic", <<"mif1", "heic">>)  m0 == Size(ft) + Size(MetaN(k, 0, 0))  it == HeifItem(RichParts(Small)) IN
  ft \o MetaN(k, m0 + 8, Size(it)) \o Box("mdat", it \o <<Z(30, 187)>>) \o Filler("free", 60)
Ext(k, off, len) == FullBox("meta", 0, FullBox("iinf", 0, <<U2(1)>> \o FullBox("infe", 2, <<U2(2), U2(0), S("Exif"), B(<<0>>)>>))
  \o FullBox("iloc", 2, <<B(<<68, 0>>), U4(1), U4(2), U2(0), U2(0), U2(k), Times(k, <<U4(off), U4(len)>>)>>))
TiffHd == <<B(<<77, 77, 0, 42, 0, 0, 0, 8>>)>>
PtrN(tag, off) == <<U2(tag), U2(4), U4(1), U4(off)>>
ByteN == <<U2(300), U2(1), U4(1), B(<<7, 0, 0, 0>>)>>
Nest(k) == [rep |-> <<B(<<0>>)>>, k |-> k, n |-> k]
RECURSIVE Deep(_, _)
Deep(k, body) == IF k = 0 THEN body ELSE Deep(k - 1, Box(IF k % 2 = 0 THEN "moov" ELSE "trak", body))
FileOf(kd, k) ==
  CASE kd = "pngchunks" -> <<B(PngSig)>> \o PChunk("IHDR", <<Z(13, 1)>>) \o <<Times(k, PChunk("vpAg", <<U4(1)>>))>> \o PChunk("eXIf", RichParts(Small)) \o PChunk("IEND", <<>>)
    [] kd = "pngempty" -> <<B(PngSig)>> \o PChunk("IHDR", <<Z(13, 1)>>) \o <<Times(k, PChunk("IDAT", <<>>))>> \o PChunk("IEND", <<>>)
    [] kd = "pngtext" -> <<B(PngSig)>> \o PChunk("IHDR", <<Z(13, 1)>>) \o <<Times(k, PChunk("tEXt", <<S("k"), B(<<0>>), S("v")>>))>> \o PChunk("IEND", <<>>)
    [] kd = "pngexifs" -> <<B(PngSig)>> \o PChunk("IHDR", <<Z(13, 1)>>) \o <<Times(k, PChunk("eXIf", <<Z(40, 1)>>))>> \o PChunk("IEND", <<>>)
    [] kd = "jpegsegs" -> <<B(<<255, 216>>), Times(k, JSeg(226, <<Z(6, 1)>>))>> \o App1(RichParts(Small)) \o JTail(400)
    [] kd = "jpegempty" -> <<B(<<255, 216>>), Times(k, JSeg(226, <<>>))>> \o JTail(400)
    [] kd = "jpegxmp" -> <<B(<<255, 216>>)>> \o App1(RichParts(Small)) \o <<Times(k, JSeg(225, <<S("http://ns.adobe.com/xap/1.0/"), B(<<0>>), S("<x>")>>))>> \o JTail(400)
    [] kd = "jpegscan" -> <<B(<<255, 216>>)>> \o App1(RichParts(Small)) \o <<B(<<255, 218>>), U2(12), B(<<3,1,0,2,17,3,17,0,63,0>>), Times(k, <<B(<<255, 0, 17>>)>>), B(<<255, 217>>)>>
    [] kd = "jpeg255" -> <<B(<<255, 216>>)>> \o App1(RichParts(Small)) \o <<Z(k, 255)>>
    [] kd = "heicboxes" -> Ftyp("heic", <<"mif1">>) \o <<Times(k, Box("free", <<>>))>> \o Tail(HeicN(1))
    [] kd = "heicitems" -> HeicN(k)
    [] kd = "heicextents" -> Ftyp("heic", <<"mif1">>) \o Ext(k, 20, 20) \o Filler("mdat", 100)
    [] kd = "heicchild" -> Ftyp("heic", <<"mif1">>) \o FullBox("meta", 0, <<Times(k, Box("free", <<>>))>>) \o Filler("mdat", 100)
    [] kd = "cr3boxes" -> Ftyp("crx ", <<"crx ">>) \o Box("moov", <<Times(k, Box("free", <<>>))>> \o Box("uuid", <<B(CanonId), Times(k, Box("free", <<>>))>> \o Cmt("CMT1", RichParts(Small)))) \o Filler("mdat", 300)
    [] kd = "cr3uuids" -> Ftyp("crx ", <<"crx ">>) \o Box("moov", <<Times(k, Box("uuid", <<B(CanonId)>> \o Cmt("CMT1", <<Z(20, 7)>>)))>>) \o Filler("mdat", 300)
    [] kd = "movboxes" -> Ftyp("qt  ", <<"qt  ">>) \o <<Times(k, Box("free", <<>>))>> \o MoovA(1234, 320)
    [] kd = "movtraks" -> Ftyp("qt  ", <<"qt  ">>) \o Box("moov", Mvhd(MvA(1)) \o <<Times(k, Trak(AtA))>> \o Trak(VtA(320)))
    [] kd = "movvids" -> Ftyp("qt  ", <<"qt  ">>) \o Box("moov", Mvhd(MvA(1)) \o <<Times(k, Trak(VtA(320)))>>)
    [] kd = "movkeys" -> Ftyp("qt  ", <<"qt  ">>) \o Box("moov", Mvhd(MvA(1)) \o Box("meta", Hdlr("mdta") \o FullBox("keys", 0, <<U4(k), Times(k, KeyEnt("make"))>>)
                           \o Box("ilst", <<Times(k, <<U4(29), U4(1), U4(21), S("data"), U4(1), U4(0), S("Apple")>>)>>)))
    [] kd = "movudta" -> Ftyp("qt  ", <<"qt  ">>) \o Box("moov", Mvhd(MvA(1)) \o Box("udta", <<Times(k, Xyz(Val("loc").p))>>))
    [] kd = "movdeep" -> Ftyp("qt  ", <<"qt  ">>) \o Deep(Min2(k, 60), Filler("free", 20)) \o Filler("mdat", 100)
    [] kd = "webmvoid" -> WebmOf(<<Times(k, Void(1, 1))>>)
    [] kd = "webmclus" -> WebmOf(<<Times(k, WClus(10))>>)
    [] kd = "webminfo" -> LET bd == El(IdInfo, 8, <<Times(k, Void(1, 1))>> \o El(<<42, 215, 177>>, 1, UInt(1000000, 4))) \o WTracks \o Void(2, 300) IN WebmHead("webm") \o <<B(IdSeg), B(VSize(Size(bd), 8))>> \o bd
    [] kd = "webmtracks" -> LET bd == WInfo \o El(IdTracks, 8, <<Times(k, El(<<174>>, 2, El(<<131>>, 1, UInt(2, 1))))>>) \o Void(2, 300) IN WebmHead("webm") \o <<B(IdSeg), B(VSize(Size(bd), 8))>> \o bd
    [] kd = "webmseeks" -> LET bd == El(IdSeek, 8, <<Times(k, SkEl(IdCues, 5000))>>) \o WInfo \o WTracks \o Void(2, 300) IN WebmHead("webm") \o <<B(IdSeg), B(VSize(Size(bd), 8))>> \o bd
    [] kd = "webmself" -> LET bd == El(IdSeek, 8, <<Times(k, SkEl(IdInfo, 0))>>) \o WTracks \o Void(2, 300) IN WebmHead("webm") \o <<B(IdSeg), B(VSize(Size(bd), 8))>> \o bd
    [] kd = "ebmlhead" -> <<B(IdEbml), B(VSize(Size(El(<<66, 130>>, 1, <<S("webm")>>)) + k * 3, 8)), Times(k, <<B(<<236, 129, 0>>)>>)>> \o El(<<66, 130>>, 1, <<S("webm")>>)
    [] kd = "ifdents" -> TiffHd \o <<U2(Min2(k, 65535)), Times(Min2(k, 65535), ByteN), U4(0), Z(100, 0)>>
    [] kd = "ifdchain" -> TiffHd \o <<Times(k, <<U2(1)>> \o ByteN \o <<Here(4, 0)>>), U2(0), U4(0), Z(100, 0)>>
    [] kd = "exifsame" -> TiffHd \o <<U2(Min2(k, 65535)), Times(Min2(k, 65535), PtrN(34665, 8 + 12 * Min2(k, 65535) + 6)), U4(0), U2(1000), Times(1000, ByteN), U4(0), Z(100, 0)>>
    \* every pointer entry points at a place of its own: its own first byte
    [] kd = "exifeach" -> TiffHd \o <<U2(Min2(k, 65535)), Times(Min2(k, 65535), <<U2(34665), U2(4), U4(1), Here(0, 8)>>), U4(0), Z(600000, 0)>>
    [] kd = "gpseach" -> TiffHd \o <<U2(Min2(k, 65535)), Times(Min2(k, 65535), <<U2(34853), U2(4), U4(1), Here(0, 8)>>), U4(0), Z(600000, 0)>>
    [] kd = "chaineach" -> TiffHd \o <<Times(k, <<U2(1), U2(34665), U2(4), U4(1), Here(0, 8), Here(4, 0)>>), U2(0), U4(0), Z(600000, 0)>>
    [] kd = "bigtext" -> TiffHd \o <<U2(1), U2(270), U2(2), U4(k), U4(26), U4(0), Z(k, 65), Z(100, 0)>>
    [] kd = "bigrat" -> TiffHd \o <<U2(1), U2(270), U2(5), U4(k), U4(26), U4(0), Z(8 * k, 1), Z(100, 0)>>
    [] kd = "bigtwice" -> TiffHd \o <<U2(100), Times(100, <<U2(270), U2(7), U4(k), U4(8 + 2 + 1200 + 4)>>), U4(0), Z(k, 65), Z(100, 0)>>
    \* entries of their own tags that all show the same long data
    [] kd = "bigtags" -> TiffHd \o <<U2(Min2(k, 20000)), Times(Min2(k, 20000), <<HereTag, U2(7), U4(300000), U4(8 + 2 + 12 * Min2(k, 20000) + 4)>>), U4(0), Z(300000, 65), Z(100, 0)>>
    [] kd = "mpxmp" -> <<B(<<255, 216>>)>> \o App1(RichParts(Small)) \o JSeg(225, <<S("http://ns.adobe.com/xap/1.0/"), B(<<0>>), Times(Min2(k, 3000), <<S("MotionPhoto=\"1\" ")>>)>>) \o JTail(400)
AllKinds == {"pngchunks", "pngempty", "pngtext", "pngexifs", "jpegsegs", "jpegempty", "jpegxmp", "jpegscan", "jpeg255", "heicboxes", "heicitems", "heicextents", "heicchild", "cr3boxes", "cr3uuids",
  "movboxes", "movtraks", "movvids", "movkeys", "movudta", "movdeep", "webmvoid", "webmclus", "webminfo", "webmtracks", "webmseeks", "webmself", "ebmlhead",
  "ifdents", "ifdchain", "exifsame", "exifeach", "gpseach", "chaineach", "bigtext", "bigrat", "bigtwice", "bigtags", "mpxmp"}
Init == b \in [kd : Kinds, k : Counts, m : Modes, c : Calls] /\ phase = "go"
Give == phase = "go" /\ phase' = "done" /\ UNCHANGED b
  /\ Emit([k |-> "damage", suite |-> "bulk", id |-> b, parts |-> FileOf(b.kd, b.k), modes |-> {b.m}, calls |-> {b.c}, agree |-> FALSE, base |-> Base, per |-> Per, secs |-> Secs, edits |-> << <<>> >>, rot |-> 0])
Spec == Init /\ [][Give]_<<b, phase>>
=============================================================================
