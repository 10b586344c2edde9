------------------------------- MODULE Sniff -------------------------------
(* Which format a source is, from its leading bytes (C06). The body of a box *)
(* based file answers as HEIF, as CR3 and as a movie, so that what comes out *)
(* tells which parser was chosen.                                           *)
EXTENDS EbmlLib
CONSTANTS Starts,      \* how the files start
          Comps,       \* lists of compatible brands
          Wides, Mdats,
          Pick, Mode
VARIABLES f, phase, rule, class
vars == <<f, phase, rule, class>>
\* ---- brands ----
QtB   == {"qt  ", "mqt "}
AvifB == {"avif", "avis", "avio"}
HeifB == {"heic", "heix", "hevc", "heim", "heis", "hevm", "hevs", "mif1", "MiHE", "miaf", "MiHB"}
Mp4B  == {"3g2a", "3g2b", "3g2c", "3ge6", "3ge7", "3gg6", "3gp4", "3gp5", "3gp6", "3gs7", "avc1", "mp41", "mp42", "iso2", "isom", "vfj1", "XAVC"}
CrB   == {"crx "}
NoB   == {"abcd", "jpx ", "qt", "heif"} \ {"qt"}
AllB  == QtB \cup AvifB \cup HeifB \cup Mp4B \cup CrB
\* ---- catalogs ----
F(m) == [t |-> "ftyp", m |-> m, x |-> 0]
StartBrands == {F(m) : m \in AllB \cup NoB}
StartFew == {F(m) : m \in {"heic", "avif", "qt  ", "crx ", "mp42", "abcd", "jpx "}}
StartUnknown == {F(m) : m \in NoB}
StartWide == {[t |-> "wide", m |-> "", x |-> 0]}
\* boxes no known file starts with
StartOther == {[t |-> "box", m |-> b, x |-> 0] : b \in {"jP  ", "abcd", "jumb", "Wide", "wid ", "uuid"}}
SigNames == {"jpeg", "png", "tiffII", "tiffMM", "raf", "webm", "mkv", "heic", "mov"}
SigLen(n) == CASE n = "jpeg" -> 2 [] n = "png" -> 8 [] n \in {"tiffII", "tiffMM"} -> 4 [] n = "raf" -> 16 [] n \in {"webm", "mkv"} -> 4 [] n \in {"heic", "mov"} -> 8
StartSigs == {[t |-> n, m |-> "ok", x |-> 0] : n \in SigNames}
\* one byte changed, or the data cut within the signature, or something before it
StartBad == UNION {{[t |-> n, m |-> "flip", x |-> i] : i \in (IF n \in {"heic", "mov"} THEN 5..8 ELSE 1..SigLen(n))} : n \in SigNames}
            \cup UNION {{[t |-> n, m |-> "cut", x |-> i] : i \in 0..(SigLen(n) - 1)} : n \in SigNames}
            \cup {[t |-> n, m |-> "lead", x |-> i] : n \in SigNames, i \in {1, 4, 16}}
StartsSig == StartSigs \cup StartBad
StartsAll == StartBrands \cup StartWide \cup StartOther
CompsNone == {<<>>}
CompsOne == {<<>>} \cup {<<b>> : b \in AllB} \cup {<<"abcd", b>> : b \in AllB} \cup {<<b, "zzzz", "abcd">> : b \in AllB}
CompsMix == {<<"mif1", "avif", "miaf">>, <<"heic", "mif1", "qt  ">>, <<"isom", "iso2", "avc1", "mp41">>, <<"avis", "isom">>, <<"mp42", "heic">>, <<"isom", "mqt ">>, <<"zzzz", "yyyy", "xxxx">>, <<"isom", "mif1", "avio", "qt  ">>,
             <<"zzzz", "yyyy", "xxxx", "wwww", "vvvv", "uuuu", "tttt", "ssss", "rrrr", "qqqq", "pppp", "oooo", "nnnn", "mmmm", "mp42">>, <<"crx ", "isom">>, <<"3gp4">>, <<"mif1", "isom">>}
\* names that only look like a brand across the borders of two, or in the version field
CompsOdd == {<<"zzzz", "abqt", "  cd">>, <<"xhei", "cyyy">>, <<"zzis", "omzz">>, <<"aavi", "fbbb">>, <<"zcrx", " zzz">>, <<"zmp4", "2zzz", "isom">>, <<"xxx3", "gp4y", "heic">>, <<"abcd", "mif">>, <<"abcd", "qt">>}
\* lists that go on behind the first 128 bytes
LongC(i, b) == [k \in 1..60 |-> IF k = i THEN b ELSE "zzzz"]
CompsLong == {LongC(i, b) : i \in {1, 15, 26, 28, 30, 60}, b \in {"heic", "avif", "qt  ", "crx ", "isom", "yyyy"}}
Vers == IF Len(f.comp) > 1 /\ f.comp[1] \in {"xhei", "zzis", "abcd"} THEN S(IF f.comp[1] = "abcd" THEN "qt  " ELSE "isom") ELSE U4(0)
\* mdat: "near": its header lies within the first 128 bytes, "far": behind them

Rc(n) == [st |-> RandomElement(Starts), comp |-> RandomElement(Comps), wide |-> RandomElement(Wides), md |-> RandomElement(Mdats)]
Files == [st : Starts, comp : Comps, wide : Wides, md : Mdats]
Init == /\ phase = "sniff" /\ rule = 1 /\ class = "?"
        /\ f \in (IF Pick = 0 THEN Files ELSE {Rc(n) : n \in 1..Pick})

\* ---- the body ----
PayA == [e |-> "MM", ch |-> 65, len |-> 20]
PayB == [e |-> "II", ch |-> 66, len |-> 21]
CanonId == <<133,192,182,135,130,15,17,224,129,17,244,206,70,43,106,72>>
Mv == [v |-> 0, t |-> [d |-> 45320, s |-> 25597], du |-> D4(7777, 1000)]
Vt == [v |-> 0, h |-> "vide", w |-> 320, hh |-> 240, o |-> "std"]
Moov == Box("moov", Box("uuid", <<B(CanonId)>> \o Box("CMT1", <<B(PBytes(PayB))>>)) \o Mvhd(Mv) \o Trak(Vt))
Meta1(off) == FullBox("meta", 0, FullBox("hdlr", 0, <<U4(0), S("pict"), Z(13, 0)>>)
  \o FullBox("iinf", 0, <<U2(1)>> \o FullBox("infe", 2, <<U2(1), U2(0), S("Exif"), B(<<0>>)>>))
  \o FullBox("iloc", 0, <<B(<<68, 0>>), U2(1), U2(1), U2(0), U2(1), U4(off), U4(10 + Len(PBytes(PayA)))>>))
ExifItem == <<U4(6), B(<<69,120,105,102,0,0>>), B(PBytes(PayA))>>
BodyOf(lead, mv) == LET ms == Size(Meta1(0))  m == Meta1(lead + ms + Size(Moov) + 8) IN (IF mv THEN Moov \o m ELSE m \o Moov) \o Box("mdat", ExifItem)
BodyFrom(lead) == LET ms == Size(Meta1(0)) IN Meta1(lead + ms + Size(Moov) + 8) \o Moov \o Box("mdat", ExifItem)

Brands == f.st.t \in {"ftyp", "heic", "mov"}
Major == CASE f.st.t = "heic" -> "heic" [] f.st.t = "mov" -> "qt  " [] OTHER -> f.st.m
FtypBox == BoxW(f.wide, "ftyp", <<S(Major), Vers>> \o [i \in 1..Len(f.comp) |-> S(f.comp[i])])
First == IF f.st.t = "wide" THEN Box("wide", <<>>) ELSE IF f.st.t = "box" THEN Box(f.st.m, <<U4(218793738)>>) ELSE FtypBox
\* a box in between; then the media data, or a filler, that reaches far beyond the first bytes
FarBox == [far |-> "free", skip |-> "skip", moof |-> "moof", pnot |-> "pnot", udta |-> "udta", hide |-> "free"]
Lead == First \o (IF f.md = "hide" THEN Box("free", Filler("mdat", 80) \o Filler("mdat", 120)) ELSE IF f.md \in DOMAIN FarBox THEN Filler(FarBox[f.md], 200) ELSE IF f.md = "second" THEN Filler("free", 8) ELSE <<>>)
        \o (IF f.md \in {"none", "moov", "meta"} THEN Filler("free", 300) ELSE Filler("mdat", 300))
\* the movie or the item box right behind the first one: no media data in sight
Bmff == IF f.md \in {"moov", "meta"} THEN First \o BodyOf(Size(First), f.md = "moov") ELSE Lead \o BodyFrom(Size(Lead))
Jpeg == <<B(<<255, 216>>), B(<<255, 225>>), U2(8 + Len(PBytes(PayA))), B(<<69,120,105,102,0,0>>), B(PBytes(PayA)), B(<<255, 218>>), U2(12), B(<<3,1,0,2,17,3,17,0,63,0>>), Z(200, 17), B(<<255, 217>>)>>
PngSig == <<137,80,78,71,13,10,26,10>>
Chunk(ty, b) == <<U4(Size(b)), S(ty)>> \o b \o <<U4(0)>>
Png == <<B(PngSig)>> \o Chunk("IHDR", <<U4(16), U4(16), B(<<8,2,0,0,0>>)>>) \o Chunk("eXIf", <<B(PBytes(PayA))>>) \o Chunk("IDAT", <<Z(100, 1)>>) \o Chunk("IEND", <<>>)
Tif(e) == <<B(PBytes([PayA EXCEPT !.e = e])), Z(200, 0)>>
Raf == <<S("FUJIFILMCCD-RAW "), S("0201"), S("FF159502"), Z(32, 88), S("0100"), Z(20, 0), U4(100), Z(12, 171)>> \o Jpeg
InfoEl == El(IdInfo, 2, El(<<42, 215, 177>>, 1, UInt(1000000, 4)) \o El(<<68, 137>>, 1, <<B(<<70, 0, 0, 0>>)>>))
TracksEl == El(IdTracks, 2, El(<<174>>, 2, El(<<131>>, 1, UInt(1, 1)) \o El(<<224>>, 2, El(<<176>>, 1, UInt(320, 2)) \o El(<<186>>, 1, UInt(240, 2)))))
Webm(doc) == LET b == InfoEl \o TracksEl \o Void(2, 300) IN WebmHead(doc) \o <<B(IdSeg), B(VSize(Size(b), 8))>> \o b
Good == CASE f.st.t = "jpeg" -> Jpeg [] f.st.t = "png" -> Png [] f.st.t = "tiffII" -> Tif("II") [] f.st.t = "tiffMM" -> Tif("MM") [] f.st.t = "raf" -> Raf
          [] f.st.t = "webm" -> Webm("webm") [] f.st.t = "mkv" -> Webm("matroska") [] OTHER -> Bmff
\* ways to spoil a signature; edits are applied by the renderer
Damage == IF f.st.m \in {"flip", "cut"} /\ f.st.t \notin {"ftyp", "wide", "box"} THEN f.st.m ELSE "no"
Parts == CASE Damage = "flip" -> << [flip |-> Good, at |-> f.st.x - 1, n |-> Size(Good)] >>
           [] Damage = "cut" -> << [cut |-> Good, at |-> f.st.x, n |-> f.st.x] >>
           [] f.st.t \notin {"ftyp", "wide", "box"} /\ f.st.m = "lead" -> <<Z(f.st.x, 1)>> \o Good
           [] OTHER -> Good

\* ---- the rules, in the order they are tried ----
Meant == f.st.m = "ok"
\* only the brands within the first 128 bytes are seen
Seen == LET n == IF f.wide THEN 26 ELSE 28 IN IF Len(f.comp) < n THEN Len(f.comp) ELSE n
InComp(set) == \E i \in 1..Seen : f.comp[i] \in set
MdatSeen == f.md \in {"near", "second"} /\ Len(f.comp) < 20
Rules == << [c |-> "mov", p |-> Brands /\ Major \in QtB], [c |-> "heif", p |-> Brands /\ Major \in AvifB], [c |-> "heif", p |-> Brands /\ Major \in HeifB], [c |-> "mov", p |-> Brands /\ Major \in Mp4B],
            [c |-> "cr3", p |-> Brands /\ Major \in CrB], [c |-> "mov", p |-> Brands /\ InComp(QtB)], [c |-> "heif", p |-> Brands /\ InComp(AvifB)], [c |-> "heif", p |-> Brands /\ InComp(HeifB)],
            [c |-> "cr3", p |-> Brands /\ InComp(CrB)], [c |-> "mov", p |-> Brands /\ InComp(Mp4B)], [c |-> "mov", p |-> (Brands \/ f.st.t = "wide") /\ MdatSeen],
            [c |-> f.st.t, p |-> f.st.t \in SigNames] >>
Try == /\ phase = "sniff"
       /\ IF ~(f.st.t \in {"ftyp", "wide", "box"} \/ Meant) \/ rule > Len(Rules) THEN class' = "none" /\ phase' = "give" /\ UNCHANGED rule
          ELSE IF Rules[rule].p THEN class' = Rules[rule].c /\ phase' = "give" /\ UNCHANGED rule
          ELSE rule' = rule + 1 /\ UNCHANGED <<class, phase>>
       /\ UNCHANGED f
\* the major brand decides when it is known; images are never tracks
MajorRules == phase = "give" /\ f.st.t = "ftyp" =>
  /\ Major \in HeifB \cup AvifB => class = "heif"
  /\ Major \in CrB => class = "cr3"
  /\ Major \in QtB \cup Mp4B => class = "mov"
  /\ class = "none" => (Major \notin AllB /\ ~InComp(AllB) /\ ~MdatSeen)
Img(p) == [kind |-> "Image", exif |-> POk(p), track |-> Err("TrackNotFound"), imeta |-> [ok |-> [exif |-> POk(p).ok]]]
Trk(ss) == [kind |-> "Track", exif |-> Err("ExifNotFound"), imeta |-> Err("ExifNotFound"), track |-> TrackExp(ss)]
Un == [kind |-> Err("Unsupported"), exif |-> Err("Unsupported"), imeta |-> Err("Unsupported"), track |-> Err("Unsupported")]
WebmSays == << [f |-> "DurationMs", v |-> <<"U64", "8192">>, r |-> 1], [f |-> "Width", v |-> <<"U32", <<<<0, 320>>>> >>, r |-> 1], [f |-> "Height", v |-> <<"U32", <<<<0, 240>>>> >>, r |-> 1] >>
Exp == CASE class = "heif" -> Img(PayA) [] class = "cr3" -> Img(PayB) [] class = "mov" -> Trk(SaysMvhd(Mv) \o SaysTrak(Vt)) [] class = "none" -> Un
         [] class \in {"jpeg", "png", "raf", "tiffII", "tiffMM"} -> Img(PayA) [] class \in {"webm", "mkv"} -> Trk(WebmSays)
Vector == [k |-> "meta", suite |-> "sniff", id |-> f, paths |-> Mode, parts |-> Parts, exp |-> Exp]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<f, rule, class>> /\ Emit(Vector)
Next == Try \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
