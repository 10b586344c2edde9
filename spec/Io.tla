--------------------------------- MODULE Io ---------------------------------
(* Files with large payloads before, between and behind the metadata, with   *)
(* the answer, the end of the metadata, and the byte ranges a seekable       *)
(* reader must pass over (C02). The calls made on the reader are recorded    *)
(* and checked against IoTrace.                                              *)
EXTENDS Catalog

CONSTANTS Kinds,       \* layouts
          Pads,        \* small filler sizes in front (they shift every read boundary)
          Pays,        \* payload sizes
          Hole,        \* k: payloads grow by k GiB that are not materialised (0: none)
          Slack        \* how many bytes of a payload, or behind the metadata, may be read
VARIABLES c, phase
\* the number k GiB + x in 4 and in 8 bytes
G4(k, x) == B(<<(k % 4) * 64 + x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>)
G8(k, x) == <<U4(k \div 4), G4(k, x)>>
\* a box whose body is b plus a hole of k GiB: below 4 GiB the size takes 32 bits
Narrow(k) == k < 4
BigBox(k, ty, b) == (IF Narrow(k) THEN <<G4(k, 8 + Size(b)), S(ty)>> ELSE <<U4(1), S(ty)>> \o G8(k, 16 + Size(b))) \o b
PayBox(k, ty, n) == BigBox(k, ty, <<Z(n, 170)>>)
HdBox(k) == IF Narrow(k) THEN 8 ELSE 16
Pre(p) == IF p = 0 THEN <<>> ELSE Filler("free", p)
IsoMoov == MoovA(98765, 1920)
IsoTrk == TrackExp(MovSays(98765, 1920))
Qt == Ftyp("qt  ", <<"qt  ">>)
R0(lo, n) == [lo |-> lo, hi |-> lo + n]
F(parts, call, exp, end, skips, hole) == [parts |-> parts, call |-> call, exp |-> exp, end |-> end, skips |-> skips, hole |-> hole]
\* q bytes in as many segments as it takes
RECURSIVE JSegs(_)
JSegs(q) == IF q > 65533 THEN << [rep |-> JSeg(226, <<Z(65533, 1)>>), k |-> q \div 65533, n |-> (q \div 65533) * 65537] >> \o JSegs(q % 65533) ELSE JSeg(226, <<Z(q, 1)>>)
ExifOf(p) == [ok |-> [entries |-> RichEnts(p), embedded |-> FALSE, gps |-> RichGps(p)]]
\* HEIF with 64-bit offsets: the item behind a gap of the media data
HMeta64(k, off, len) == FullBox("meta", 0, FullBox("hdlr", 0, <<U4(0), S("pict"), Z(13, 0)>>)
  \o FullBox("iinf", 0, <<U2(1)>> \o FullBox("infe", 2, <<U2(2), U2(0), S("Exif"), B(<<0>>)>>))
  \o FullBox("iloc", 1, <<B(<<IF Narrow(k) THEN 68 ELSE 132, 0>>), U2(1), U2(2), U2(0), U2(0), U2(1)>> \o (IF Narrow(k) THEN <<G4(k, off)>> ELSE G8(k, off)) \o <<U4(len)>>))
\* the same with the position split into a base and an offset
HMetaBase(k, off, len) == FullBox("meta", 0, FullBox("hdlr", 0, <<U4(0), S("pict"), Z(13, 0)>>)
  \o FullBox("iinf", 0, <<U2(1)>> \o FullBox("infe", 2, <<U2(2), U2(0), S("Exif"), B(<<0>>)>>))
  \o FullBox("iloc", 1, <<B(<<72, 128>>), U2(1), U2(2), U2(0), U2(0)>> \o G8(k, off - 300) \o <<U2(1), U4(300), U8(len)>>))
HMetaOf(base, k, off, len) == IF base THEN HMetaBase(k, off, len) ELSE HMeta64(k, off, len)
HeifFar(base, k, pad, n, tp) ==
  LET h0 == Ftyp("heic", <<"mif1", "heic">>) \o Pre(pad)
      m0 == Size(h0) + Size(HMetaOf(base, k, 0, 0))
      it == HeifItem(tp)  at == m0 + HdBox(k) + n
      body == <<Z(n, 170)>> \o it \o <<Z(n, 187)>>
  IN [parts |-> h0 \o HMetaOf(base, k, at, Size(it)) \o BigBox(k, "mdat", body) \o Filler("free", 60),
      lo |-> m0 + HdBox(k), end |-> at + Size(it)]
\* hundreds of items, the Exif item among them
Hi(x) == x \div 256
Lo(x) == x % 256
ManyN == 300
InfeB(i, ty) == B(<<0,0,0,21, 105,110,102,101, 2,0,0,0, Hi(i),Lo(i), 0,0>> \o ty \o <<0>>)
LocB(i, at, len) == <<U2(i), U2(0), U2(1), U4(at), U4(len)>>
ManyMeta(ex, at, len) == FullBox("meta", 0, FullBox("hdlr", 0, <<U4(0), S("pict"), Z(13, 0)>>)
  \o FullBox("iinf", 0, <<U2(ManyN)>> \o [i \in 1..ManyN |-> InfeB(i, IF i = ex THEN <<69,120,105,102>> ELSE <<104,118,99,49>>)])
  \o FullBox("iloc", 0, <<B(<<68, 0>>), U2(ManyN)>> \o [i \in 1..(ex - 1) |-> B(<<Hi(i),Lo(i), 0,0, 0,1, 0,0,0,40, 0,0,0,9>>)] \o LocB(ex, at, len)
       \o [i \in 1..(ManyN - ex) |-> B(<<Hi(ex + i),Lo(ex + i), 0,0, 0,1, 0,0,0,40, 0,0,0,9>>)]))
HeifMany(ex, pad, n, tp) == LET h0 == Ftyp("heic", <<"mif1", "heic">>) \o Pre(pad)  m0 == Size(h0) + Size(ManyMeta(ex, 0, 0))  it == HeifItem(tp) IN
  [parts |-> h0 \o ManyMeta(ex, m0 + 8 + n, Size(it)) \o Box("mdat", <<Z(n, 170)>> \o it \o <<Z(30, 187)>>) \o Filler("free", 60), lo |-> m0 + 8, end |-> m0 + 8 + n + Size(it)]
Motion(q, n) == LET v == Ftyp("mp42", <<"isom">>) \o MoovA(5432, 640) \o Filler("mdat", n) IN
  [h |-> <<B(<<255, 216>>)>> \o JSegs(q) \o App1(RichParts(PC)) \o XmpMp(Size(v)), v |-> v]
Build(x) ==
  LET n == x.pay  q == x.pad  k == Hole IN
  CASE x.kind = "fast" -> LET h == Ftyp("isom", <<"mp42">>) \o Pre(q) \o IsoMoov IN F(h \o PayBox(k, "mdat", n), "track", IsoTrk, Size(h), <<>>, Size(h) + 8)
    [] x.kind = "late" -> LET h == Ftyp("isom", <<"mp42">>) \o Pre(q)  e == Size(h) + HdBox(k) + n + Size(IsoMoov) IN
                          F(h \o PayBox(k, "mdat", n) \o IsoMoov \o Filler("free", n), "track", IsoTrk, e, <<R0(Size(h) + HdBox(k), n)>>, Size(h) + HdBox(k))
    [] x.kind = "twice" -> LET h == Qt \o Pre(q)  b == HdBox(k) + n  e == Size(h) + b + 8 + n + Size(IsoMoov) IN
                          F(h \o PayBox(k, "mdat", n) \o Box("free", <<Z(n, 9)>>) \o IsoMoov \o Filler("skip", n), "track", IsoTrk, e,
                            <<R0(Size(h) + HdBox(k), n), R0(Size(h) + b + 8, n)>>, Size(h) + HdBox(k))
    [] x.kind = "nomoov" -> LET h == Qt \o Pre(q) IN F(h \o PayBox(k, "mdat", n) \o Filler("free", 100), "track", AnyErr, Size(h) + HdBox(k) + n + 100, <<R0(Size(h) + HdBox(k), n)>>, Size(h) + HdBox(k))
    [] x.kind = "heicbase" -> LET g == HeifFar(TRUE, k, q, n, RichParts(PA)) IN F(g.parts, "exif", ExifOf(PA), g.end, <<R0(g.lo, n)>>, g.lo)
    [] x.kind = "heicpost" -> LET g == HeifFar(FALSE, k, q, n, RichParts(PA)) IN F(g.parts, "exif", ExifOf(PA), g.end, <<R0(g.lo, n)>>, g.lo)
    [] x.kind = "heicpre" -> LET h0 == Ftyp("avif", <<"mif1">>) \o Pre(q)  it == HeifItem(RichParts(PD))  m == HeifMeta(Size(h0) + 8, Size(it)) IN
                             F(h0 \o Box("mdat", it) \o m \o PayBox(k, "mdat", n), "exif", ExifOf(PD), Size(h0) + 8 + Size(it) + Size(m), <<>>, Size(h0) + 8 + Size(it) + Size(m) + HdBox(k))
    [] x.kind = "heicmany" -> LET g == HeifMany(280, q, n, RichParts(PA)) IN F(g.parts, "exif", ExifOf(PA), g.end, <<R0(g.lo, n)>>, 0)
    [] x.kind = "motion" -> LET g == Motion(q, n) IN F(g.h \o JTail(400) \o g.v, "track", TrackExp(MovSays(5432, 640)), Size(g.h \o JTail(400) \o g.v), <<>>, 0)
    [] x.kind = "motionexif" -> LET g == Motion(q, n) IN F(g.h \o JTail(400) \o g.v, "exif", [ok |-> [entries |-> RichEnts(PC), embedded |-> TRUE, gps |-> RichGps(PC)]], Size(g.h), <<>>, 0)
    [] x.kind = "cr3" -> LET h == CrOf(Pre(q), RichParts(C1), RichParts(C2)) IN F(h \o PayBox(k, "mdat", n), "exif", [ok |-> [entries |-> CrEnts, embedded |-> FALSE, gps |-> RichGps(C2)]], Size(h) - 300, <<>>, Size(h) + 16)
    [] x.kind = "webm" -> LET b == Void(8, q) \o WInfo \o WTracks  h == WebmHead("webm") \o <<B(IdSeg), B(VSize(Size(b) + Size(WClus(n)), 8))>> \o b IN F(h \o WClus(n), "track", TrackExp(WSays), Size(h), <<>>, 0)
    [] x.kind = "jpeg" -> LET h == <<B(<<255, 216>>)>> \o JSegs(q) \o App1(RichParts(PA)) IN F(h \o JTail(n), "exif", ExifOf(PA), Size(h), <<>>, 0)
    \* megabytes of segments behind the Exif segment: only so many are searched for an XMP packet
    [] x.kind = "jpegsegs" -> LET h == <<B(<<255, 216>>)>> \o JSegs(q) \o App1(RichParts(PA)) IN F(h \o JSegs(4000000) \o JTail(n), "exif", ExifOf(PA), Size(h) + 600000, <<>>, 0)
    [] x.kind = "jpegno" -> LET h == <<B(<<255, 216>>)>> \o JSegs(q) IN F(h \o JTail(n), "exif", Err("ExifNotFound"), Size(h) + 14, <<>>, 0)
    [] x.kind = "tiff" -> LET p == [PF EXCEPT !.tail = n, !.gap = q] IN F(RichParts(p), "exif", ExifOf(p), Size(RichParts(p)) - n, <<>>, 0)
    [] x.kind = "raf" -> LET h == RafHead(148 + q) \o <<B(<<255, 216>>)>> \o App1(RichParts(PF)) IN F(h \o JTail(200) \o <<Z(n, 7)>>, "exif", ExifOf(PF), Size(h), <<>>, 0)
    [] x.kind = "png" -> LET a == PngOf(PChunk("tEXt", <<S("Author"), B(<<0>>), Z(q, 65)>>))  h == Size(a) - 12
                             t == PChunk("eXIf", RichParts(PC)) \o PChunk("IEND", <<>>) IN
                         F(SubSeq(a, 1, Len(a) - 3) \o PChunk("IDAT", <<Z(n, 1)>>) \o t \o <<Z(n, 3)>>, "exif", ExifOf(PC), h + 12 + n + Size(t), <<R0(h + 8, n)>>, 0)
    \* the wrong question is answered without looking further
    [] x.kind = "imgtrack" -> LET h == CrOf(Pre(q), RichParts(C1), RichParts(C2)) IN F(h \o Filler("mdat", n), "track", Err("TrackNotFound"), 128, <<>>, 0)
    [] x.kind = "trkexif" -> F(Ftyp("isom", <<"mp42">>) \o Pre(q) \o Filler("mdat", n) \o IsoMoov, "exif", Err("ExifNotFound"), 128, <<>>, 0)
    [] x.kind = "trkimeta" -> F(Ftyp("isom", <<"mp42">>) \o Pre(q) \o Filler("mdat", n) \o IsoMoov, "imeta", Err("ExifNotFound"), 128, <<>>, 0)
Init == c \in [kind : Kinds, pad : Pads, pay : Pays] /\ phase = "go"
Vector == LET f == Build(c) IN [k |-> "io", suite |-> "io", id |-> [c EXCEPT !.kind = c.kind], parts |-> f.parts, call |-> f.call, exp |-> f.exp, end |-> f.end, skips |-> f.skips,
                                slack |-> Slack, hole |-> IF Hole = 0 THEN <<>> ELSE <<f.hole, Hole>>]
Give == phase = "go" /\ phase' = "done" /\ UNCHANGED c /\ Emit(Vector)
Spec == Init /\ [][Give]_<<c, phase>>
=============================================================================
