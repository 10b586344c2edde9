-------------------------------- MODULE Webm --------------------------------
(* Matroska / WebM: the segment walk, the seek head, Info and the first      *)
(* video track (C21).                                                       *)
EXTENDS EbmlLib
CONSTANTS DocTypes, SegSizes,    \* width of the Segment size, "unknown" or 1..8
          Kids,                  \* orders of the Segment's children
          Seeks,                 \* what the SeekHead says
          Infos, Trks, Ws,       \* Ws: width of the size fields inside
          Big,                   \* size of a cluster
          Aligns, Deltas, Ats,   \* Ats: the child whose end is moved to align + delta
          Pick, Mode
VARIABLES f, phase, cur, info, trk
vars == <<f, phase, cur, info, trk>>
\* ---- x / 2^k as a float ----
RECURSIVE Log2(_)
Log2(x) == IF x < 2 THEN 0 ELSE 1 + Log2(x \div 2)
BitOf(x, i) == IF i < 0 THEN 0 ELSE (x \div P2(i)) % 2
\* sign, ex exponent bits, then the mantissa, padded to bytes
FBits(x, k, eb, bias, mb) == LET e == Log2(x)  ex == bias + e - k IN
  <<0>> \o [i \in 1..eb |-> BitOf(ex, eb - i)] \o [i \in 1..mb |-> BitOf(x, e - i)]
Pack(bits) == [j \in 1..(Len(bits) \div 8) |-> LET q == 8 * (j - 1) IN bits[q+1]*128 + bits[q+2]*64 + bits[q+3]*32 + bits[q+4]*16 + bits[q+5]*8 + bits[q+6]*4 + bits[q+7]*2 + bits[q+8]]
Float(x, k, sz) == IF x = 0 THEN Rep(0, sz) ELSE IF sz = 8 THEN Pack(FBits(x, k, 11, 1023, 52)) ELSE Pack(FBits(x, k, 8, 127, 23))
\* ---- nanoseconds since 2001 as eight bytes ----
RECURSIVE MulB(_, _, _, _)
MulB(bs, m, i, c) == IF i = 0 THEN bs ELSE LET v == bs[i] * m + c IN MulB([bs EXCEPT ![i] = v % 256], m, i - 1, v \div 256)
RECURSIVE NegB(_, _, _)
NegB(bs, i, c) == IF i = 0 THEN bs ELSE LET v == 255 - bs[i] + c IN NegB([bs EXCEPT ![i] = v % 256], i - 1, v \div 256)
SecsB(s) == Rep(0, 4) \o BE4(s)
NanoB(d, s, ns) == LET neg == d < 0
                       secs == IF neg THEN (0 - d) * 86400 - s ELSE d * 86400 + s
                       b == MulB(MulB(MulB(SecsB(secs), 1000, 8, 0), 1000, 8, 0), 1000, 8, ns)
                   IN IF neg THEN NegB(b, 8, 1) ELSE b
\* the fraction, as the shortest of three, six or nine digits
Frac(ns) == CASE ns = 0 -> "" [] ns = 500000000 -> ".500" [] ns = 123456 -> ".000123456" [] ns = 7000 -> ".000007"
When(dt) == LET m == Moment([d |-> 35430 + dt.d, s |-> dt.s]) IN SubSeq(m, 1, 19) \o Frac(dt.ns) \o "+00:00"
\* ---- Info ----
\* du: x / 2^k ticks; sc: nanoseconds per tick = num * 1000000 / den
Sc(sc, num, den, sz) == [sc |-> sc, num |-> num, den |-> den, sz |-> sz]
ScNone == Sc(0, 1, 1, 0)
ScAll == {ScNone, Sc(1000000, 1, 1, 3), Sc(1000000, 1, 1, 8), Sc(100000, 1, 10, 4), Sc(1000, 1, 1000, 2), Sc(1, 1, 1000000, 1), Sc(10, 10000, 1, 9), Sc(1000000000, 1000, 1, 5), Sc(1000000000, 1000, 1, 4)}
Du(x, k, sz) == [x |-> x, k |-> k, sz |-> sz]
DuNone == Du(0, 0, 0)
DuAll == {DuNone, Du(13346, 0, 8), Du(13346, 0, 4), Du(26693, 1, 4), Du(26693, 1, 8), Du(1, 0, 4), Du(1999999, 0, 8), Du(1999999, 3, 4), Du(999, 10, 8), Du(0, 0, 8), Du(0, 0, 4)}
Dt(d, s, ns) == [d |-> d, s |-> s, ns |-> ns, on |-> TRUE]
DtNone == [d |-> 0, s |-> 0, ns |-> 0, on |-> FALSE]
DtAll == {DtNone, Dt(0, 0, 0), Dt(2776, 29288, 0), Dt(8431, 86399, 500000000), Dt(0 - 1, 86399, 0), Dt(0 - 11323, 0, 0), Dt(8431, 1, 123456), Dt(24000, 5, 7000)}
InfoOrds == {<<"sc", "du", "dt">>, <<"dt", "du", "sc">>, <<"crc", "void", "sc", "app", "du", "uid", "dt">>, <<"du", "app", "dt", "sc", "void">>}
In(sc, du, dt, o) == [sc |-> sc, du |-> du, dt |-> dt, o |-> o]
Infos0 == {In(Sc(1000000, 1, 1, 3), Du(13346, 0, 8), Dt(2776, 29288, 0), <<"sc", "du", "dt">>)}
\* (size 9: ten seconds, more than 32 bits of nanoseconds)
InfosAll == {y \in {In(a, b, c, o) : a \in ScAll, b \in DuAll, c \in DtAll, o \in InfoOrds} : y.sc.sz = 9 => y.du.x < 200000}
InfoKid(i, k) == CASE k = "sc" -> (IF i.sc.sz = 0 THEN <<>> ELSE El(<<42, 215, 177>>, f.w, IF i.sc.sz = 9 THEN <<B(<<0, 0, 0, 2, 84, 11, 228, 0>>)>> ELSE UInt(i.sc.sc, i.sc.sz)))
  [] k = "du" -> (IF i.du.sz = 0 THEN <<>> ELSE El(<<68, 137>>, f.w, <<B(Float(i.du.x, i.du.k, i.du.sz))>>))
  [] k = "dt" -> (IF i.dt.on THEN El(<<68, 97>>, f.w, <<B(NanoB(i.dt.d, i.dt.s, i.dt.ns))>>) ELSE <<>>)
  [] k = "app" -> El(<<77, 128>>, f.w, <<S("Lavf58.29.100")>>) [] k = "uid" -> El(<<115, 164>>, f.w, <<Z(16, 68)>>)
  [] k = "crc" -> Crc [] k = "void" -> Void(f.w, 33)
InfoEl == El(IdInfo, f.w, Cat([i \in 1..Len(f.info.o) |-> InfoKid(f.info, f.info.o[i])]))
Ms1(i) == (i.du.x * i.sc.num) \div (P2(i.du.k) * i.sc.den)
SaysInfo == << [f |-> "DurationMs", v |-> <<"U64", Num(Ms1(f.info))>>, r |-> 1] >>
            \o (IF f.info.dt.on THEN << [f |-> "CreateDate", v |-> <<"DateTime", When(f.info.dt)>>, r |-> 1] >> ELSE <<>>)
\* ---- Tracks ----
Vid(w, ws, h, hs, o) == [ty |-> 1, w |-> w, ws |-> ws, h |-> h, hs |-> hs, o |-> o]
Aud == [ty |-> 2, w |-> 0, ws |-> 1, h |-> 0, hs |-> 1, o |-> "std"]
Sub == [ty |-> 17, w |-> 0, ws |-> 1, h |-> 0, hs |-> 1, o |-> "std"]
\* a track that cannot be read, and a video without its size: passed over
Broken == [ty |-> 9, w |-> 0, ws |-> 1, h |-> 0, hs |-> 1, o |-> "std"]
Unsized == [ty |-> 8, w |-> 0, ws |-> 1, h |-> 0, hs |-> 1, o |-> "std"]
\* a video with one half of its size: the other one is 0
OnlyW == [ty |-> 7, w |-> 300, ws |-> 2, h |-> 0, hs |-> 1, o |-> "std"]
OnlyH == [ty |-> 6, w |-> 0, ws |-> 1, h |-> 200, hs |-> 1, o |-> "std"]
Trks0 == {<<Vid(640, 2, 360, 2, "std")>>}
TrksAll == {<<Vid(640, 2, 360, 2, "std")>>, <<Aud, Vid(640, 2, 360, 2, "std")>>, <<Vid(200, 1, 255, 1, "rev"), Vid(9, 1, 9, 1, "std")>>, <<Aud, Sub, Vid(70000, 3, 65536, 4, "mid"), Aud>>,
            <<Aud>>, <<Sub, Aud>>, <<>>, <<Broken, Vid(300, 2, 200, 1, "std")>>, <<Aud, Unsized, Broken, Vid(44, 1, 55, 1, "mid")>>, <<Unsized>>, <<Vid(1920, 8, 1080, 5, "mid")>>, <<Vid(1920, 4, 1080, 6, "rev"), Aud>>, <<Aud, OnlyW, Vid(9, 1, 9, 1, "std")>>, <<Unsized, OnlyH, Aud>>}
VKids(t) == LET a == El(<<176>>, f.w, UInt(t.w, t.ws))  b == El(<<186>>, f.w, UInt(t.h, t.hs))  d == El(<<84, 176>>, f.w, UInt(11, 1)) \o El(<<84, 186>>, f.w, UInt(12, 1))
            IN IF t.o = "rev" THEN d \o b \o a ELSE a \o El(<<154>>, f.w, UInt(2, 1)) \o b \o d
TEl(t) == LET num == El(<<215>>, f.w, UInt(1, 1))  ty == El(<<131>>, f.w, UInt(t.ty, 1))  cod == El(<<134>>, f.w, <<S("V_VP8")>>)
              v == CASE t.ty = 1 -> El(<<224>>, f.w, VKids(t)) [] t.ty = 7 -> El(<<224>>, f.w, El(<<154>>, f.w, UInt(2, 1)) \o El(<<176>>, f.w, UInt(t.w, t.ws))) [] t.ty = 6 -> El(<<224>>, f.w, El(<<186>>, f.w, UInt(t.h, t.hs)) \o Void(1, 4))
                     [] t.ty = 8 -> El(<<224>>, f.w, El(<<154>>, f.w, UInt(2, 1))) [] t.ty = 2 -> El(<<225>>, f.w, El(<<159>>, 1, UInt(2, 1))) [] OTHER -> <<>>
          IN El(<<174>>, f.w, IF t.ty = 9 THEN num \o <<B(<<0, 0, 0, 0>>)>> ELSE IF t.o = "mid" THEN num \o v \o ty \o cod ELSE num \o ty \o cod \o v)
TracksEl == El(IdTracks, f.w, (IF f.tr # <<>> /\ f.w = 2 THEN Crc ELSE <<>>) \o Cat([i \in 1..Len(f.tr) |-> TEl(f.tr[i]) \o (IF f.w = 3 THEN Void(1, 5) ELSE <<>>)]))
FirstVid == LET c == {i \in 1..Len(f.tr) : f.tr[i].ty \in {1, 6, 7}} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
U32v(x) == <<"U32", <<<<x \div 65536, x % 65536>>>> >>
SaysTracks == << [f |-> "Width", v |-> U32v(IF FirstVid = 0 THEN 0 ELSE f.tr[FirstVid].w), r |-> 1], [f |-> "Height", v |-> U32v(IF FirstVid = 0 THEN 0 ELSE f.tr[FirstVid].h), r |-> 1] >>
\* ---- the segment ----
Cluster(n) == El(IdCluster, 4, El(<<231>>, 1, UInt(0, 1)) \o El(<<163>>, 4, <<Z(n, 21)>>))
\* a SeekHead of fixed size: positions take pw bytes
SeekSpec(ent, pw, o) == [ent |-> ent, pw |-> pw, o |-> o]
Seeks0 == {SeekSpec("none", 4, "std")}
SeeksAll == {SeekSpec("none", 4, "std")} \cup {SeekSpec(e, p, o) : e \in {"both", "info", "tracks", "rev", "cues", "wrong", "swap", "empty", "short"}, p \in {4, 8}, o \in {"std", "crc", "posfirst"}}
SeekEl(id, pos) == LET a == El(<<83, 171>>, f.w, <<B(id)>>)  b == El(<<83, 172>>, f.w, UInt(pos, f.seek.pw)) IN
  El(<<77, 187>>, f.w, IF f.seek.o = "posfirst" THEN b \o a ELSE a \o b)
\* pos: positions of the children; wrong entries point at the cluster
Entries(pi, pt, pc) == CASE f.seek.ent = "both" -> SeekEl(IdInfo, pi) \o SeekEl(IdTracks, pt) [] f.seek.ent = "rev" -> SeekEl(IdTracks, pt) \o Void(1, 7) \o SeekEl(IdCues, pc) \o SeekEl(IdInfo, pi)
  [] f.seek.ent = "short" -> SeekEl(<<236>>, pc) \o SeekEl(IdTracks, pt) \o SeekEl(<<66, 134>>, pc) \o SeekEl(IdInfo, pi) [] f.seek.ent = "info" -> SeekEl(IdInfo, pi) [] f.seek.ent = "tracks" -> SeekEl(IdTracks, pt) [] f.seek.ent = "cues" -> SeekEl(IdCues, pc)
  [] f.seek.ent = "wrong" -> SeekEl(IdInfo, pc) \o SeekEl(IdTracks, pc) [] f.seek.ent = "swap" -> SeekEl(IdTracks, pi) \o SeekEl(IdInfo, pt) [] OTHER -> <<>>
SeekHead(pi, pt, pc) == El(IdSeek, 4, (IF f.seek.o = "crc" THEN Crc ELSE <<>>) \o Entries(pi, pt, pc))
Kid0(k) == CASE k = "seek" -> SeekHead(0, 0, 0) [] k = "info" -> InfoEl [] k = "tracks" -> TracksEl [] k = "void" -> Void(2, 77) [] k = "crc" -> Crc
  [] k = "cluster" -> Cluster(f.big) [] k = "small" -> Cluster(120) [] k = "ucluster" -> <<B(IdCluster), B(Unknown(8))>> \o El(<<231>>, 1, UInt(0, 1)) \o El(<<163>>, 4, <<Z(f.big, 21)>>) [] k = "huge" -> <<B(<<236>>), B(<<1, 0, 0, 1, 0, 0, 0, 77>>), Z(77, 5)>> [] k = "cues" -> El(IdCues, 3, <<Z(20, 3)>>) [] k = "tags" -> El(IdTags, 3, <<Z(90, 4)>>)
Before(k) == LET p == CHOOSE i \in 1..Len(f.kids) : f.kids[i] = k IN Cat([i \in 1..(p - 1) |-> Kid0(f.kids[i])])
Has1(k) == \E i \in 1..Len(f.kids) : f.kids[i] = k
\* a Void at the front of the segment moves the end of child f.at to f.al
Ebml == WebmHead(f.doc)
EndAt == IF f.al > 0 /\ Has1(f.at) THEN Size(Ebml) + 12 + Size(Before(f.at)) + Size(Kid0(f.at)) ELSE 0
FrontPad == IF EndAt > 0 /\ f.al >= EndAt + 5 THEN Void(4, f.al - EndAt - 5) ELSE <<>>
PosOf(k) == IF Has1(k) THEN Size(FrontPad) + Size(Before(k)) ELSE 0
Kid(k) == IF k = "seek" THEN SeekHead(PosOf("info"), PosOf("tracks"), PosOf("cluster")) ELSE Kid0(k)
Body == FrontPad \o Cat([i \in 1..Len(f.kids) |-> Kid(f.kids[i])])
SegHead == LET n == Size(Body) IN <<B(IdSeg), B(IF f.seg = 0 THEN Unknown(8) ELSE VSize(n, 8))>>
Parts == Ebml \o SegHead \o Body \o (IF f.seg = 0 THEN Cluster(300) ELSE Void(2, 300))

KidsStd == {<<"seek", "info", "tracks", "cluster">>}
KidsAll == {<<"seek", "void", "info", "tracks", "tags", "cluster", "cues">>, <<"seek", "tracks", "info", "cluster">>, <<"void", "seek", "info", "tracks", "cluster">>, <<"crc", "seek", "tags", "tracks", "void", "info", "cluster">>,
            <<"info", "tracks", "cluster">>, <<"tracks", "info", "cluster", "seek">>, <<"seek", "cluster", "info", "tracks">>, <<"cluster", "small", "cues", "tags", "tracks", "info">>, <<"info", "cluster", "seek", "tracks">>,
            <<"seek", "small", "info", "cluster", "small", "tracks", "cues">>}
\* a cluster that does not tell its size, in front: the seek head leads past it
KidsLive == {<<"seek", "huge", "info", "tracks">>, <<"seek", "info", "huge", "small", "tracks", "cues">>, <<"seek", "ucluster", "info", "tracks">>, <<"void", "seek", "ucluster", "tracks", "small", "info">>, <<"seek", "info", "ucluster", "tracks", "cues">>, <<"crc", "seek", "tracks", "void", "ucluster", "info">>}
SeeksLive == {SeekSpec(e, p, o) : e \in {"both", "rev"}, p \in {4, 8}, o \in {"std", "crc", "posfirst"}}
\* (a child that says it is larger than 2^32 bytes hides what follows)
KidsBad == {<<"huge", "seek", "info", "tracks">>, <<"small", "huge", "seek", "tracks", "info">>, <<"huge", "info", "tracks", "cluster">>, <<"info", "huge", "tracks">>, <<"seek", "info", "cluster">>, <<"tracks", "cluster">>, <<"cluster">>, <<"seek", "tags", "cluster">>}
Rc(n) == [doc |-> RandomElement(DocTypes), seg |-> RandomElement(SegSizes), kids |-> RandomElement(Kids), seek |-> RandomElement(Seeks), info |-> RandomElement(Infos), tr |-> RandomElement(Trks),
          w |-> RandomElement(Ws), big |-> RandomElement(Big), al |-> RandomElement({0} \cup {a + d : a \in Aligns, d \in Deltas}), at |-> RandomElement(Ats)]
Files == [doc : DocTypes, seg : SegSizes, kids : Kids, seek : Seeks, info : Infos, tr : Trks, w : Ws, big : Big, al : {0} \cup {a + d : a \in Aligns, d \in Deltas}, at : Ats]
Init == /\ phase = "walk" /\ cur = 1 /\ info = <<>> /\ trk = <<>>
        /\ f \in (IF Pick = 0 THEN Files ELSE {Rc(n) : n \in 1..Pick})
Hidden == \E j \in 1..(cur - 1) : f.kids[j] = "huge" /\ \A m \in 1..j : f.kids[m] # "seek"
Walk == /\ phase = "walk"
        /\ IF cur > Len(f.kids) \/ Hidden THEN phase' = "give" /\ UNCHANGED <<cur, info, trk>>
           ELSE /\ cur' = cur + 1 /\ UNCHANGED phase
                /\ info' = IF f.kids[cur] = "info" /\ info = <<>> THEN SaysInfo ELSE info
                /\ trk' = IF f.kids[cur] = "tracks" /\ trk = <<>> THEN SaysTracks ELSE trk
        /\ UNCHANGED f
\* what the SeekHead says about a child is where the walk meets it
SeekRight == phase = "give" => \A k \in {"info", "tracks"} : Has1(k) => Size(FrontPad) + Size(Before(k)) = PosOf(k) /\ Size(SeekHead(0, 0, 0)) = Size(SeekHead(PosOf("info"), PosOf("tracks"), 5))
SizesRight == phase = "give" => Size(Ebml) <= 128 /\ Size(InfoEl) < 2000
Exp == IF info = <<>> \/ trk = <<>> THEN OneOf(<<Err("TrackNotFound"), Err("Eof")>> \o (IF Has1("huge") THEN <<Err("Io:Unsupported")>> ELSE <<>>)) ELSE TrackExp(info \o trk)
Vector == [k |-> "meta", suite |-> "webm", id |-> f, paths |-> Mode, parts |-> Parts,
           exp |-> [kind |-> "Track", exif |-> Err("ExifNotFound"), imeta |-> Err("ExifNotFound"), track |-> Exp]]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<f, cur, info, trk>> /\ Emit(Vector)
Next == Walk \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
