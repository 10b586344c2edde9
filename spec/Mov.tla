-------------------------------- MODULE Mov --------------------------------
(* QuickTime, MP4 and 3GP files: the walk to the movie box and what its      *)
(* children say about the track (C20).                                      *)
EXTENDS MovLib
CONSTANTS Majors,        \* how the file starts
          Pre, Post,     \* boxes before and after moov
          Kids,          \* orders of the children of moov
          Mvhds, Trks, Metas, Udtas,
          Wides, Aligns, Deltas, \* start of moov (al) forced to align + delta
          Ends,          \* the end of moov instead of its start
          Pick, Mode
VARIABLES f, phase, cur, says, vid
vars == <<f, phase, cur, says, vid>>
\* ---- catalogs ----
T(d, s) == [d |-> d, s |-> s]
Mv(v, t, du) == [v |-> v, t |-> t, du |-> du]
Mvhd0 == {Mv(0, T(45320, 25597), D4(630, 600))}
DursAll == {D4(0, 1000), D4(1, 1000), D4(1001, 1000), D4(299999, 1000), D4(630, 600), D4(599, 600), D4(90001, 90000), D4(2147483647, 1), D4(2147483647, 2000000), D4(1001, 30000), D4(57, 1000), D4(4359, 1000), D4(5, 0), D4(0, 0)}
BigDurs == {[hi |-> 1, lo |-> 0, ts |-> 1000, ms |-> "4294967296"], [hi |-> 1, lo |-> 1, ts |-> 1, ms |-> "4294967297000"], [hi |-> 2, lo |-> 7, ts |-> 48000, ms |-> "178956970"],
            [hi |-> 67108864, lo |-> 0, ts |-> 65536, ms |-> "4398046511104000"], [hi |-> 1073741824, lo |-> 0, ts |-> 1000000000, ms |-> "4611686018427"]}
TimesAll == {T(0, 0), T(1, 86399), T(59, 0), T(60, 3600), T(24107, 0), T(24855, 11647), T(24855, 11648), T(35125, 86399), T(45320, 25597), T(49709, 86399)}
MvhdAll == {Mv(v, t, d) : v \in {0, 1}, t \in TimesAll, d \in DursAll} \cup {Mv(1, t, d) : t \in TimesAll \cup {T(49710, 23296), T(50000, 1), T(90000, 5)}, d \in BigDurs}
Trk(v, h, w, hh, o) == [v |-> v, h |-> h, w |-> w, hh |-> hh, o |-> o]
V1 == Trk(0, "vide", 1920, 1080, "std")
V2 == Trk(1, "vide", 720, 65535, "rev")
A1 == Trk(0, "soun", 0, 0, "std")
A2 == Trk(1, "soun", 33, 44, "rev")
N1 == Trk(0, "none", 55, 66, "std")
N2 == Trk(0, "short", 77, 88, "std")
N3 == Trk(0, "over", 88, 99, "std")
N4 == Trk(1, "nomdia", 99, 11, "rev")
V3 == Trk(0, "vide", 40000, 50000, "nn")
V4 == Trk(1, "vide", 32768, 7, "ln")
VN == Trk(0, "vide", 1, 2, "nt")
Trks0 == {<<A1, V1>>}
TrksAll == {<<>>, <<V1>>, <<V2>>, <<A1>>, <<A1, V1>>, <<A2, V2>>, <<V1, V2>>, <<V2, V1>>, <<N1, V1>>, <<N2, A2, V2>>, <<VN, V1>>, <<A1, N1, N2>>, <<A1, A2, V2, V1>>, <<N3, V1>>, <<N4, A1, V2>>, <<N3, N4, N1, V1, A1>>, <<N4>>, <<V3, V1>>, <<A1, V4>>, <<N2, V3, A2>>}
It(ix, v) == [ix |-> ix, ty |-> 1, v |-> v, bad |-> "no"]
ItT(ix, ty, v) == [ix |-> ix, ty |-> ty, v |-> v, bad |-> "no"]
ItB(ix, b) == [ix |-> ix, ty |-> 1, v |-> "apple", bad |-> b]
M(o, ks, its) == [o |-> o, keys |-> ks, items |-> its]
K5 == <<"make", "model", "software", "location.ISO6709", "creationdate">>
K8 == <<"content.identifier", "make", "creationdate", "author", "live-photo.auto", "model", "location.ISO6709", "software">>
I5 == <<It(1, "apple"), It(2, "phone"), It(3, "uml"), It(4, "loc"), It(5, "date")>>
Metas0 == {M("std", K5, I5)}
MetasAll == {M("std", K5, I5), M("rev", K5, I5), M("nokeys", K5, I5), M("noilst", K5, I5), M("std", <<>>, <<>>), M("std", K5, <<>>), M("std", <<>>, I5),
  \* items in another order than the keys, keys without an item, items without a key
  M("std", K5, <<It(5, "datez"), It(4, "loc2"), It(1, "phone")>>), M("std", K5, <<It(2, "apple"), It(7, "phone"), It(0, "uml")>>),
  M("rev", K8, <<It(3, "date2"), It(2, "apple"), It(8, "big"), It(4, "uml"), It(7, "noloc")>>),
  \* items that cannot be used between usable ones
  M("std", K8, <<It(1, "phone"), ItT(5, 22, "b1"), It(2, "apple"), It(6, "phone")>>),
  M("std", K8, <<ItT(1, 13, "b5"), It(2, "apple"), ItT(5, 0, "b1"), It(8, "uml")>>),
  M("std", K8, <<ItT(1, 21, "b5"), It(2, "apple"), ItT(5, 23, "b4"), It(8, "uml"), ItT(1, 24, "b8")>>),
  M("std", K8, <<ItT(1, 22, "b2"), It(2, "apple"), ItT(5, 22, "b3"), ItT(1, 21, "b3"), It(8, "uml"), ItT(1, 22, "b8"), ItT(5, 21, "b2"), ItT(1, 65, "b1"), ItT(5, 74, "b1"), It(6, "phone")>>),
  \* items that are numbers
  M("std", K8, <<ItT(2, 21, "n1"), ItT(6, 21, "n2"), ItT(8, 21, "n3"), ItT(4, 21, "n4")>>), M("std", K8, <<ItT(2, 22, "n1"), ItT(6, 22, "n2"), ItT(8, 22, "n3"), ItT(4, 22, "n4")>>),
  M("rev", K8, <<ItT(2, 21, "n8"), ItT(6, 22, "n8"), ItT(8, 23, "b4"), ItT(4, 24, "b8")>>), M("std", K8, <<ItT(2, 21, "b1"), ItT(6, 22, "b4"), ItT(8, 23, "b2"), ItT(4, 21, "b4"), ItT(3, 21, "b4")>>),
  M("std", K8, <<It(1, "bad"), It(2, "apple"), It(6, "bad"), It(8, "uml")>>),
  M("std", K8, <<ItB(1, "name"), It(2, "phone"), ItB(6, "sizes"), ItB(4, "tiny"), It(8, "empty")>>),
  M("std", K8, <<It(3, "nodate"), It(7, "loc"), ItT(5, 21, "b1"), It(4, "phone")>>)}
U(k, v) == [k |-> k, v |-> v]
Udtas0 == {<<U("xyz", "loc2")>>}
UdtasAll == {<<>>, <<U("zero", "")>>, <<U("xyz", "loc")>>, <<U("xyz", "loc2"), U("zero", "")>>, <<U("xyzshort", "")>>, <<U("xyz", "noloc")>>, <<U("xyz", "loc1")>>, <<U("other", ""), U("und", "phone"), U("xyz", "loc2")>>,
  <<U("undnonul", "uml"), U("make", "")>>, <<U("eng", "apple"), U("zero", "")>>, <<U("jpn", "phone"), U("xyz", "loc")>>, <<U("zho", "apple")>>, <<U("aar", "uml"), U("other", "")>>, <<U("make", ""), U("other", "")>>}
KidsNoMoov == {<<"nomoov">>}
KidsStd == {<<"mvhd", "trak", "meta", "udta">>}
KidsAll == {<<"mvhd", "trak", "meta", "udta">>, <<"udta", "meta", "trak", "mvhd">>, <<"meta", "mvhd", "udta", "trak">>, <<"mvhd", "trak">>, <<"trak", "udta">>, <<"mvhd", "free", "udta", "iods", "trak">>,
  <<"meta", "trak">>, <<"mvhd", "meta">>, <<"udta">>, <<"mvhd">>, <<"trak">>, <<"meta">>, <<>>, <<"free", "mvhd", "trak", "free", "meta", "uuid", "udta", "free">>}
P(ty, n) == [ty |-> ty, n |-> n]
PreNone == {<<>>}
PreSome == {<<>>, <<P("wide", 8)>>, <<P("free", 100), P("mdat", 9000)>>, <<P("mdat", 30000)>>, <<P("mdat", 70000), P("free", 8), P("uuid", 400)>>, <<P("wide", 8), P("mdat", 200)>>}
PostNone == {<<P("mdat", 200)>>}
PostNoMoov == {<<P("mdat", 200)>>, <<P("free", 8), P("mdat", 40000)>>}
PostSome == {<<P("mdat", 200)>>, <<P("free", 8), P("mdat", 40000)>>, <<P("mdat", 9000), P("moov", 108)>>}

Rc(n) == [major |-> RandomElement(Majors), pre |-> RandomElement(Pre), post |-> RandomElement(Post), kids |-> RandomElement(Kids), mv |-> RandomElement(Mvhds), tr |-> RandomElement(Trks),
          me |-> RandomElement(Metas), ud |-> RandomElement(Udtas), wide |-> RandomElement(Wides), al |-> RandomElement({0} \cup {a + d : a \in Aligns, d \in Deltas}), fin |-> RandomElement(Ends)]
Files == [major : Majors, pre : Pre, post : Post, kids : Kids, mv : Mvhds, tr : Trks, me : Metas, ud : Udtas, wide : Wides, al : {0} \cup {a + d : a \in Aligns, d \in Deltas}, fin : Ends]
Init == /\ phase = "walk" /\ cur = 1 /\ says = <<>> /\ vid = FALSE
        /\ f \in (IF Pick = 0 THEN Files ELSE {Rc(n) : n \in 1..Pick})

TrakOf(k) == Trak([v |-> k.v, h |-> k.h, w |-> k.w, o |-> k.o, hh |-> k.hh])
Kid(k) == CASE k = "mvhd" -> Mvhd(f.mv) [] k = "trak" -> Cat([i \in 1..Len(f.tr) |-> TrakOf(f.tr[i])]) [] k = "meta" -> Meta(f.me) [] k = "udta" -> Udta(f.ud) [] OTHER -> Filler(k, 60)
MoovBody == Cat([i \in 1..Len(f.kids) |-> Kid(f.kids[i])])
NoMoov == f.kids = <<"nomoov">>
Moov == IF NoMoov THEN <<>> ELSE BoxW(f.wide, "moov", MoovBody)
PBox(p) == IF f.wide THEN Box64(p.ty, <<Z(p.n, 0)>>) ELSE Filler(p.ty, p.n)
\* a file without ftyp is QuickTime when its media data comes first
Start == CASE f.major = "none" -> Filler("wide", 8) \o Filler("mdat", 40)
           [] f.major = "qt  " -> Ftyp("qt  ", <<"qt  ">>)
           [] OTHER -> Ftyp(f.major, <<"isom">>)
Lead == Start \o Cat([i \in 1..Len(f.pre) |-> PBox(f.pre[i])])
\* a free box that moves the start or the end of moov to f.al
Here == Size(Lead) + (IF f.fin THEN Size(Moov) ELSE 0)
Extra == IF f.al >= Here + 8 THEN Filler("free", f.al - Here) ELSE <<>>
Parts == Lead \o Extra \o Moov \o Cat([i \in 1..Len(f.post) |-> PBox(f.post[i])]) \o Filler("free", 200)

\* ---- walking the children of moov ----
\* once a video track has spoken, no later one does
RECURSIVE SaysTrks(_, _, _)
SaysTrks(ts, i, had) == IF i > Len(ts) \/ had THEN <<>> ELSE IF IsVideo(ts[i]) THEN SaysTrak(ts[i]) ELSE SaysTrks(ts, i + 1, had)
SaysK(k, had) == CASE k = "mvhd" -> SaysMvhd(f.mv) [] k = "trak" -> SaysTrks(f.tr, 1, had) [] k = "meta" -> SaysMeta(f.me) [] k = "udta" -> SaysUdta(f.ud) [] OTHER -> <<>>
Walk == /\ phase = "walk"
        /\ IF cur > Len(f.kids) THEN phase' = "give" /\ UNCHANGED <<cur, says, vid>>
           ELSE /\ says' = says \o SaysK(f.kids[cur], vid)
                /\ vid' = (vid \/ (f.kids[cur] = "trak" /\ \E i \in 1..Len(f.tr) : IsVideo(f.tr[i])))
                /\ cur' = cur + 1 /\ UNCHANGED phase
        /\ UNCHANGED f
\* the order of the children is irrelevant
Present(k) == \E i \in 1..Len(f.kids) : f.kids[i] = k
Canonical == (IF Present("mvhd") THEN SaysMvhd(f.mv) ELSE <<>>) \o (IF Present("trak") THEN SaysTrks(f.tr, 1, FALSE) ELSE <<>>)
             \o (IF Present("meta") THEN SaysMeta(f.me) ELSE <<>>) \o (IF Present("udta") THEN SaysUdta(f.ud) ELSE <<>>)
OrderFree == phase = "give" => TrackExp(says) = TrackExp(Canonical)
\* dates stay within the calendar
DateOk == phase = "give" => \A i \in 1..Len(says) : says[i].f = "CreateDate" => Len(says[i].v[2]) = 25
Vector == [k |-> "meta", suite |-> "mov", id |-> f, paths |-> Mode, parts |-> Parts,
           exp |-> [kind |-> "Track", exif |-> Err("ExifNotFound"), imeta |-> Err("ExifNotFound"), track |-> IF NoMoov THEN OneOf(<<Err("TrackNotFound"), Err("Eof")>>) ELSE TrackExp(says)]]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<f, cur, says, vid>> /\ Emit(Vector)
Next == Walk \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
