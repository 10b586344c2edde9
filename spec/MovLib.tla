------------------------------ MODULE MovLib ------------------------------
(* QuickTime / MP4 movie boxes and what each of them says about the track   *)
(* (C20, C22).                                                              *)
EXTENDS BmffLib, SequencesExt

\* ---- a moment: days and seconds since 1904-01-01 ----
Hi32(t) == t.d + (t.d * 20864 + t.s) \div 65536      \* 86400 = 65536 + 20864
Lo32(t) == (t.d * 20864 + t.s) % 65536
Sec4(t) == <<U2(Hi32(t)), U2(Lo32(t))>>              \* fits 32 bits up to day 49709
Sec8(t) == <<U4(Hi32(t) \div 65536), U2(Hi32(t) % 65536), U2(Lo32(t))>>
RECURSIVE Num(_)
Num(x) == IF x < 10 THEN SubSeq(<<"0","1","2","3","4","5","6","7","8","9">>, x + 1, x + 1)[1]
          ELSE Num(x \div 10) \o Num(x % 10)
Pad2(x) == IF x < 10 THEN "0" \o Num(x) ELSE Num(x)
Pad3(x) == IF x < 10 THEN "00" \o Num(x) ELSE IF x < 100 THEN "0" \o Num(x) ELSE Num(x)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YLen(y) == IF Leap(y) THEN 366 ELSE 365
MLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE YearOf(_, _)
YearOf(y, d) == IF d < YLen(y) THEN <<y, d>> ELSE YearOf(y + 1, d - YLen(y))
RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, d) == IF d < MLen(y, m) THEN <<m, d + 1>> ELSE MonthOf(y, m + 1, d - MLen(y, m))
Moment(t) == LET y == YearOf(1904, t.d)  m == MonthOf(y[1], 1, y[2]) IN
  Num(y[1]) \o "-" \o Pad2(m[1]) \o "-" \o Pad2(m[2]) \o "T" \o Pad2(t.s \div 3600) \o ":" \o Pad2((t.s % 3600) \div 60) \o ":" \o Pad2(t.s % 60) \o "+00:00"

\* ---- durations: parts of the given width and the milliseconds ----
DurParts(v, du) == IF v = 1 THEN <<U4(du.hi), U4(du.lo)>> ELSE <<U4(du.lo)>>
\* whole milliseconds, rounded down; du.ms names the answer where it is too large for the arithmetic here
Ms(du) == IF du.ms # "" THEN du.ms
          ELSE LET w == du.lo \div du.ts  r == ((du.lo % du.ts) * 1000) \div du.ts
               IN IF w = 0 THEN Num(r) ELSE Num(w) \o Pad3(r)
D4(lo, ts) == [hi |-> 0, lo |-> lo, ts |-> ts, ms |-> ""]

MvhdBody(m) == LET v == m.v  t == IF v = 1 THEN Sec8(m.t) ELSE Sec4(m.t) IN
  t \o t \o <<U4(m.du.ts)>> \o DurParts(v, m.du) \o <<Z(76, 0), U4(5)>>
Mvhd(m) == FullBox("mvhd", m.v, MvhdBody(m))
Tkhd(k) == LET z == IF k.v = 1 THEN 8 ELSE 4 IN
  FullBox("tkhd", k.v, <<Z(z, 200), Z(z, 201), U4(7), Z(4, 0), Z(z, 202), Z(8, 0), U2(1), U2(2), U2(3), U2(0), Z(36, 9), U2(k.w), U2(32768), U2(k.hh), U2(1)>>)
Hdlr(h) == FullBox("hdlr", 0, <<S("mhlr"), S(h), Z(12, 0), B(<<0>>)>>)
Mdia(h) == CASE h = "none"  -> Box("mdia", Filler("mdhd", 32))
             [] h = "short" -> Box("mdia", FullBox("hdlr", 0, <<Z(7, 118)>>))
             \* the handler overruns the media box, or the media box is missing
             [] h = "over" -> Box("mdia", Filler("mdhd", 32) \o <<U4(400), S("hdlr"), Z(60, 118)>>)
             [] h = "nomdia" -> Filler("free", 20)
             [] OTHER -> Box("mdia", Filler("mdhd", 32) \o Hdlr(h) \o Filler("minf", 40))
\* a handler without a name, and with a long one
MdiaN(h, n) == Box("mdia", FullBox("hdlr", 0, <<S("mhlr"), S(h), Z(12, 0)>> \o (IF n = 0 THEN <<>> ELSE <<Z(n, 86)>>)) \o Filler("minf", 40))
\* rev: the media box before the track header; nt: no track header
Trak(k) == Box("trak", IF k.o = "rev" THEN Mdia(k.h) \o Filler("edts", 20) \o Tkhd(k)
                       ELSE IF k.o = "nt" THEN Mdia(k.h) ELSE IF k.o = "nn" THEN Tkhd(k) \o MdiaN(k.h, 0) ELSE IF k.o = "ln" THEN MdiaN(k.h, 300) \o Tkhd(k) ELSE Tkhd(k) \o Mdia(k.h))
IsVideo(k) == k.h = "vide"

\* ---- keys and item list ----
Key(k) == "com.apple.quicktime." \o k
KeyEnt(k) == <<Covers(U4(8 + Len(Key(k))), 0, 8 + Len(Key(k))), S("mdta"), S(Key(k))>>
Keys(ks) == FullBox("keys", 0, <<U4(Len(ks))>> \o Cat([i \in 1..Len(ks) |-> KeyEnt(ks[i])]))
\* value texts: bytes and the text they stand for ("!" where they are not UTF-8)
R(n, d) == <<<<n \div 65536, n % 65536>>, <<d \div 65536, d % 65536>>>>
LL(a, b, c) == <<R(a, 1), R(b, 1), R(c, 100)>>
Val(v) == CASE v = "apple" -> [p |-> <<S("Apple")>>, t |-> "Apple"]
            [] v = "phone" -> [p |-> <<S("iPhone 15 Pro")>>, t |-> "iPhone 15 Pro"]
            [] v = "uml"   -> [p |-> <<B(<<195, 164, 66>>)>>, t |-> Codes(<<228, 66>>)]
            [] v = "bad"   -> [p |-> <<B(<<195, 40>>)>>, t |-> "!"]
            [] v = "empty" -> [p |-> <<>>, t |-> ""]
            [] v = "big"   -> [p |-> <<Z(9000, 113)>>, t |-> RepStr(113, 9000)]
            [] v = "loc"   -> [p |-> <<S("+27.1281+100.2508+000.000/")>>, t |-> "+27.1281+100.2508+000.000/"]
            [] v = "loc2"  -> [p |-> <<S("-33.8688-151.2093/")>>, t |-> "-33.8688-151.2093/"]
            [] v = "loc1"  -> [p |-> <<S("+5/")>>, t |-> "+5/"]
            [] v = "noloc" -> [p |-> <<S("somewhere")>>, t |-> "somewhere"]
            [] v = "date"  -> [p |-> <<S("2019-02-12T15:27:12+08:00")>>, t |-> "2019-02-12T15:27:12+08:00"]
            [] v = "date2" -> [p |-> <<S("2023-11-02T19:58:34-0330")>>, t |-> "2023-11-02T19:58:34-0330"]
            [] v = "datez" -> [p |-> <<S("2000-02-29T23:59:59Z")>>, t |-> "2000-02-29T23:59:59Z"]
            [] v = "nodate" -> [p |-> <<S("2023-02-30T19:58:34+08:00")>>, t |-> "2023-02-30T19:58:34+08:00"]
            [] v = "b1" -> [p |-> <<B(<<7>>)>>, t |-> "!"]
            [] v = "b2" -> [p |-> <<B(<<1, 7>>)>>, t |-> "!"]
            [] v = "b3" -> [p |-> <<B(<<1, 2, 7>>)>>, t |-> "!"]
            [] v = "b4" -> [p |-> <<B(<<63, 112, 87, 92>>)>>, t |-> "!"]
            [] v = "n1" -> [p |-> <<B(<<249>>)>>, t |-> "!"]
            [] v = "n2" -> [p |-> <<B(<<255, 6>>)>>, t |-> "!"]
            [] v = "n3" -> [p |-> <<B(<<255, 255, 6>>)>>, t |-> "!"]
            [] v = "n4" -> [p |-> <<B(<<255, 255, 255, 6>>)>>, t |-> "!"]
            [] v = "n8" -> [p |-> <<Z(7, 255), B(<<6>>)>>, t |-> "!"]
            [] v = "b5" -> [p |-> <<B(<<1, 2, 3, 4, 5>>)>>, t |-> "!"]
            [] v = "b8" -> [p |-> <<Z(7, 0), B(<<4>>)>>, t |-> "!"]
GpsOf(v) == CASE v = "loc" -> [latref |-> "N", lat |-> LL(27, 7, 4116), lonref |-> "E", lon |-> LL(100, 15, 288), alt |-> "none", speed |-> "none"]
              [] v = "loc2" -> [latref |-> "S", lat |-> LL(33, 52, 768), lonref |-> "W", lon |-> LL(151, 12, 3348), alt |-> "none", speed |-> "none"]
              [] OTHER -> "none"
DateOf(v) == CASE v = "date" -> "2019-02-12T15:27:12+08:00" [] v = "date2" -> "2023-11-02T19:58:34-03:30"
               [] v = "datez" -> "2000-02-29T23:59:59+00:00" [] OTHER -> "!"
\* a number: 21 signed, 22 unsigned, 23 and 24 floating point
Numbers == {"b1", "b2", "b3", "b4", "b8", "n1", "n2", "n3", "n4", "n8"}
NumOf(ty, v) ==
  CASE ty = 21 -> (CASE v = "b1" -> <<"I8", <<7>> >> [] v = "b2" -> <<"I16", <<263>> >> [] v = "b3" -> <<"I32", << <<1, 519>> >> >> [] v = "b4" -> <<"I32", << <<16240, 22364>> >> >> [] v = "b8" -> <<"I64", "4">>
                     [] v = "n1" -> <<"I8", <<0 - 7>> >> [] v = "n2" -> <<"I16", <<0 - 250>> >> [] v = "n3" -> <<"I32", << <<65535, 65286>> >> >> [] v = "n4" -> <<"I32", << <<65535, 65286>> >> >> [] v = "n8" -> <<"I64", "-250">>)
    [] ty = 22 -> (CASE v = "b1" -> <<"U8", <<7>> >> [] v = "b2" -> <<"U16", <<263>> >> [] v = "b3" -> <<"U32", << <<1, 519>> >> >> [] v = "b4" -> <<"U32", << <<16240, 22364>> >> >> [] v = "b8" -> <<"U64", "4">>
                     [] v = "n1" -> <<"U8", <<249>> >> [] v = "n2" -> <<"U16", <<65286>> >> [] v = "n3" -> <<"U32", << <<255, 65286>> >> >> [] v = "n4" -> <<"U32", << <<65535, 65286>> >> >> [] v = "n8" -> <<"U64", "18446744073709551366">>)
    [] ty = 23 -> IF v = "b4" THEN <<"F32", << <<16240, 22364>> >> >> ELSE <<>>
    [] ty = 24 -> IF v = "b8" THEN <<"F64", << <<0, 0, 0, 4>> >> >> ELSE <<>>
    [] OTHER -> <<>>
\* an item: 1-based key index, type code, value, and a defect
ItemBytes(it) == LET v == Val(it.v).p  n == Size(v) IN
  CASE it.bad = "no" -> <<Covers(U4(24 + n), 0, 24 + n), U4(it.ix), Covers(U4(16 + n), 0, 16 + n), S("data"), U4(it.ty), U4(0)>> \o v
    [] it.bad = "name" -> <<Covers(U4(24 + n), 0, 24 + n), U4(it.ix), Covers(U4(16 + n), 0, 16 + n), S("name"), U4(it.ty), U4(0)>> \o v
    [] it.bad = "sizes" -> <<U4(25 + n), U4(it.ix), U4(16 + n), S("data"), U4(it.ty), U4(0)>> \o v \o <<B(<<0>>)>>
    [] it.bad = "tiny" -> <<U4(8), U4(it.ix)>>
Ilst(its) == Box("ilst", Cat([i \in 1..Len(its) |-> ItemBytes(its[i])]))
Meta(m) == Box("meta", CASE m.o = "std" -> Hdlr("mdta") \o Keys(m.keys) \o Ilst(m.items)
                         [] m.o = "rev" -> Ilst(m.items) \o Filler("free", 12) \o Keys(m.keys) \o Hdlr("mdta")
                         [] m.o = "nokeys" -> Hdlr("mdta") \o Ilst(m.items)
                         [] m.o = "noilst" -> Hdlr("mdta") \o Keys(m.keys))
\* ---- user data ----
\* the copyright sign in the box type is one byte; the text is Latin-1
Xyz(p) == <<Covers(U4(12 + Size(p)), 0, 12 + Size(p)), B(<<169>>), S("xyz"), U2(Size(p)), U2(5575)>> \o p
Auth(lang, p, nul) == FullBox("auth", 0, <<B(lang)>> \o p \o (IF nul THEN <<B(<<0>>)>> ELSE <<>>))
UItem(u) == CASE u.k = "xyz" -> Xyz(Val(u.v).p) [] u.k = "xyzshort" -> Xyz(<<>>)
              [] u.k = "und" -> Auth(<<85, 196>>, Val(u.v).p, TRUE) [] u.k = "undnonul" -> Auth(<<85, 196>>, Val(u.v).p, FALSE)
              [] u.k = "eng" -> Auth(<<21, 199>>, Val(u.v).p, TRUE) [] u.k = "jpn" -> Auth(<<42, 14>>, Val(u.v).p, FALSE)
              [] u.k = "zho" -> Auth(<<105, 15>>, Val(u.v).p, TRUE) [] u.k = "aar" -> Auth(<<4, 50>>, Val(u.v).p, TRUE)
              [] u.k = "other" -> Filler("cprt", 30) [] u.k = "make" -> Box("Make", <<S("Nobody")>>)
              [] u.k = "zero" -> <<Z(4, 0)>>
Udta(us) == Box("udta", Cat([i \in 1..Len(us) |-> UItem(us[i])]))

\* ---- what the children of a movie box say, one after the other ----
\* a statement is a field, its value, and a rank: a higher rank wins, and
\* among equals the later one
St(fl, v, r) == << [f |-> fl, v |-> v, r |-> r] >>
TextField(k) == CASE k = "make" -> "Make" [] k = "model" -> "Model" [] k = "software" -> "Software" [] k = "author" -> "Author"
                  [] k = "location.ISO6709" -> "GpsIso6709" [] OTHER -> ""
SaysMvhd(m) == (IF m.du.ts = 0 THEN <<>> ELSE St("DurationMs", <<"U64", Ms(m.du)>>, 1)) \o St("CreateDate", <<"DateTime", Moment(m.t)>>, 1)
SaysItem(keys, it) ==
  IF it.bad # "no" \/ it.ix < 1 \/ it.ix > Len(keys) THEN <<>>
  ELSE IF it.ty # 1 THEN
    (IF keys[it.ix] \in {"make", "model", "software", "author"} /\ it.v \in Numbers THEN
       (IF NumOf(it.ty, it.v) = <<>> THEN <<>> ELSE St(TextField(keys[it.ix]), NumOf(it.ty, it.v), 1)) ELSE <<>>)
  ELSE LET k == keys[it.ix]  t == Val(it.v).t IN
       IF it.v \in {"bad", "b5"} \cup Numbers THEN <<>>
       ELSE IF k = "creationdate" THEN (IF DateOf(it.v) = "!" THEN <<>> ELSE St("CreateDate", <<"DateTime", DateOf(it.v)>>, 2))
       ELSE IF TextField(k) = "" THEN <<>> ELSE [i \in 1..1 |-> [f |-> TextField(k), v |-> <<"Text", t>>, r |-> 1, g |-> GpsOf(it.v)]]
SaysMeta(m) == IF m.o \in {"nokeys", "noilst"} THEN <<>> ELSE Cat([i \in 1..Len(m.items) |-> SaysItem(m.keys, m.items[i])])
SaysU(u) == CASE u.k = "xyz" -> [i \in 1..1 |-> [f |-> "GpsIso6709", v |-> <<"Text", Val(u.v).t>>, r |-> 2, g |-> GpsOf(u.v)]]
              [] u.k \in {"und", "undnonul", "eng", "jpn", "zho", "aar"} -> St("Author", <<"Text", Val(u.v).t>>, 2)
              [] OTHER -> <<>>
SaysUdta(us) == Cat([i \in 1..Len(us) |-> SaysU(us[i])])
\* the first video track; a track without a header says nothing
SaysTrak(k) == IF k.o = "nt" THEN <<>> ELSE St("Width", <<"U32", <<<<0, k.w>>>> >>, 1) \o St("Height", <<"U32", <<<<0, k.hh>>>> >>, 1)

FieldNames == {"Make", "Model", "Software", "CreateDate", "DurationMs", "Width", "Height", "GpsIso6709", "Author"}
\* the statement that holds for field fl
Winner(ss, fl) == LET c == {i \in 1..Len(ss) : ss[i].f = fl} IN
  IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : ss[j].r < ss[i].r \/ (ss[j].r = ss[i].r /\ j <= i)
Held(ss) == {fl \in FieldNames : Winner(ss, fl) # 0}
TrackExp(ss) ==
  LET w(fl) == ss[Winner(ss, fl)] IN
  [ok |-> [fields |-> [fl \in Held(ss) |-> w(fl).v], tags |-> [xset |-> SetToSeq(Held(ss))],
           gps |-> IF "GpsIso6709" \in Held(ss) THEN w("GpsIso6709").g ELSE "none"]]
=============================================================================
