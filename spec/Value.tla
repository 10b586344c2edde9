------------------------------- MODULE Value -------------------------------
(* Decoding of one entry value: TIFF type, count, byte order, inline or     *)
(* out-of-line data (C13), between two intact entries that must come out    *)
(* unchanged whatever happens to it (C14).                                  *)
EXTENDS IfdLib, EagerLib, Randomization

CONSTANTS Fmts, Cnts, Pats, Endian, Places, Dirs, Tags, Pick, Mode

\* counts beyond the integers TLC handles are written as bytes
HugeCnt == {100001, 100002, 100003}
CntB(c) == CASE c = 100001 -> <<0, 1, 0, 0>> [] c = 100002 -> <<127, 255, 255, 255>> [] c = 100003 -> <<255, 255, 255, 255>>
                [] OTHER -> BE4(c)
FmtSet == 0..13 \cup {255, 65535}
CntStd == 0..5 \cup {8, 9, 31} \cup HugeCnt

\* data patterns: byte k (1-based)
PatByte(p, k) ==
  CASE p = "seq"  -> k % 256
    [] p = "ff"   -> 255
    [] p = "neg"  -> IF k % 2 = 1 THEN 128 + (k % 100) ELSE 254 - (k % 50)
    [] p = "zero" -> 0
    [] p = "mix"  -> <<0, 128, 255, 1, 127, 254, 16, 0, 65, 200, 33>>[1 + ((k - 1) % 11)]
    [] p = "ascii" -> 65 + (k % 26)
    [] p = "nulmid" -> IF k % 4 = 3 THEN 0 ELSE 97 + (k % 26)
    [] p = "nullead" -> IF k <= 2 THEN 0 ELSE 48 + (k % 10)
    [] p = "blank" -> IF k <= 3 \/ k % 5 \in {0, 1} THEN 32 ELSE 65 + (k % 26)
    [] p = "nulblank" -> IF k = 1 THEN 0 ELSE <<9, 32, 66, 10, 32>>[1 + ((k - 2) % 5)]
    [] p = "utf8" -> <<195, 169, 226, 130, 172, 240, 159, 152, 128, 65>>[1 + ((k - 1) % 10)]
    [] p = "latin" -> <<233, 65, 252, 66>>[1 + ((k - 1) % 4)]
    [] p = "badutf" -> <<65, 237, 160, 128, 192, 175, 66>>[1 + ((k - 1) % 7)]

VARIABLES c,           \* the case
          phase, i, acc
vars == <<c, phase, i, acc>>
Cases == [fmt : Fmts, cnt : Cnts, pat : Pats, e : Endian, place : Places, dir : Dirs, tag : Tags]
RandCase(n) == [fmt |-> RandomElement(Fmts), cnt |-> RandomElement(Cnts), pat |-> RandomElement(Pats), e |-> RandomElement(Endian),
                place |-> RandomElement(Places), dir |-> RandomElement(Dirs), tag |-> RandomElement(Tags)]
Init == phase = "decode" /\ i = 1 /\ acc = <<>> /\ c \in IF Pick = 0 THEN Cases ELSE {RandCase(n) : n \in 1..Pick}

CompSize(f) == CASE f \in {1, 2, 6, 7} -> 1 [] f \in {3, 8} -> 2 [] f \in {4, 9, 11} -> 4 [] f \in {5, 10, 12} -> 8 [] OTHER -> 0
KnownFmt == c.fmt \in 1..12
Huge == c.cnt \in HugeCnt
Bytes == IF Huge \/ ~KnownFmt THEN 0 ELSE c.cnt * CompSize(c.fmt)
Inline == ~Huge /\ Bytes <= 4
OutOfRange == ~Inline /\ KnownFmt /\ (Huge \/ c.place # "ok")
\* the data bytes as they are in the file
Data == [k \in 1..Bytes |-> PatByte(c.pat, k)]

\* ---- decoding, one component at a time ----
Comp(k) == LET s == CompSize(c.fmt) IN SubSeq(Data, (k - 1) * s + 1, k * s)
BE(bs) == IF c.e = "II" THEN Reverse(bs) ELSE bs
W(bs) == bs[1] * 256 + bs[2]
HL4(bs) == LET b == BE(bs) IN <<W(SubSeq(b, 1, 2)), W(SubSeq(b, 3, 4))>>
HL8(bs) == LET b == BE(bs) IN <<W(SubSeq(b, 1, 2)), W(SubSeq(b, 3, 4)), W(SubSeq(b, 5, 6)), W(SubSeq(b, 7, 8))>>
Signed(x, m) == IF x >= m THEN x - 2 * m ELSE x
DecodeComp(bs) ==
  CASE c.fmt \in {1, 2, 7} -> bs[1]
    [] c.fmt = 6 -> Signed(bs[1], 128)
    [] c.fmt = 3 -> W(BE(bs))
    [] c.fmt = 8 -> Signed(W(BE(bs)), 32768)
    [] c.fmt \in {4, 9, 11} -> HL4(bs)
    [] c.fmt \in {5, 10} -> <<HL4(SubSeq(bs, 1, 4)), HL4(SubSeq(bs, 5, 8))>>
    [] c.fmt = 12 -> HL8(bs)
Step == /\ phase = "decode"
        /\ IF KnownFmt /\ ~OutOfRange /\ ~Huge /\ i <= c.cnt
           THEN acc' = Append(acc, DecodeComp(Comp(i))) /\ i' = i + 1 /\ UNCHANGED phase
           ELSE phase' = "give" /\ UNCHANGED <<i, acc>>
        /\ UNCHANGED c
AccWithin == Len(acc) * CompSize(c.fmt) <= Bytes

\* ---- text: leading NULs skipped, cut at the next NUL; UTF-8, else Latin-1 ----
RECURSIVE SkipZ(_)
SkipZ(s) == IF s = <<>> THEN s ELSE IF s[1] = 0 THEN SkipZ(Tail(s)) ELSE s
RECURSIVE CutZ(_, _)
CutZ(s, k) == IF k > Len(s) THEN s ELSE IF s[k] = 0 THEN SubSeq(s, 1, k - 1) ELSE CutZ(s, k + 1)
Cont(b) == b >= 128 /\ b < 192
\* code points of a UTF-8 byte sequence, or <<-1>> when it is not valid
RECURSIVE Utf8(_, _, _)
Utf8(s, k, out) ==
  IF k > Len(s) THEN out
  ELSE LET b == s[k]
           at(j) == IF k + j <= Len(s) THEN s[k + j] ELSE 0
       IN IF b < 128 THEN Utf8(s, k + 1, Append(out, b))
          ELSE IF b >= 194 /\ b < 224 /\ Cont(at(1)) THEN Utf8(s, k + 2, Append(out, (b - 192) * 64 + at(1) - 128))
          ELSE IF b >= 224 /\ b < 240 /\ Cont(at(1)) /\ Cont(at(2)) /\ (b = 224 => at(1) >= 160) /\ (b = 237 => at(1) < 160)
               THEN Utf8(s, k + 3, Append(out, (b - 224) * 4096 + (at(1) - 128) * 64 + at(2) - 128))
          ELSE IF b >= 240 /\ b < 245 /\ Cont(at(1)) /\ Cont(at(2)) /\ Cont(at(3)) /\ (b = 240 => at(1) >= 144) /\ (b = 244 => at(1) < 144)
               THEN Utf8(s, k + 4, Append(out, (b - 240) * 262144 + (at(1) - 128) * 4096 + (at(2) - 128) * 64 + at(3) - 128))
          ELSE <<0 - 1>>
TextOf(s) == LET t == CutZ(SkipZ(s), 1)  u == Utf8(t, 1, <<>>) IN IF u = <<0 - 1>> THEN t ELSE u

Name1 == <<"U8", "Text", "U16", "U32", "URational", "I8", "Undefined", "I16", "I32", "IRational", "F32", "F64">>
NameN == [Name1 EXCEPT ![1] = "U8Array", ![3] = "U16Array", ![4] = "U32Array", ![5] = "URationalArray", ![10] = "IRationalArray"]
Bad(x) == <<"!", x>>
\* errors tell the type and count, or the bytes they need and what there is
CntHL == LET b == CntB(c.cnt) IN <<b[1] * 256 + b[2], b[3] * 256 + b[4]>>
Shape == <<"!", "InvalidShape", <<c.fmt, CntHL>> >>
Short == IF Huge THEN Bad("Truncated") ELSE <<"!", "Truncated", <<ToString(Bytes), IF c.place = "cut" THEN ToString(Bytes - 1) ELSE "0">> >>
Answer ==
  IF ~KnownFmt THEN Shape
  ELSE IF OutOfRange THEN Short
  ELSE IF c.cnt = 0 THEN Shape
  ELSE IF c.tag \in {306, 36867, 36868} THEN OneOf(<<Bad("InvalidValue"), Bad("InvalidShape")>>)   \* no pattern is a date
  ELSE IF c.fmt = 2 THEN <<"Text", Codes(TextOf(acc))>>
  ELSE IF c.fmt = 7 THEN <<"Undefined", acc>>
  ELSE IF c.cnt = 1 THEN <<Name1[c.fmt], acc>>
  ELSE IF c.fmt \in {1, 3, 4, 5, 10} THEN <<NameN[c.fmt], acc>>
  ELSE Shape      \* there is no array form of these types
\* a value is never invented: what is delivered has exactly the recorded count
CountKept == phase = "give" /\ KnownFmt /\ ~OutOfRange /\ c.cnt >= 1 => Len(acc) = c.cnt

\* ---- the file: <a> <tested> <b> in the chosen directory ----
Txt(tag, a, b) == [tag |-> tag, fmt |-> 2, cnt |-> 3, inl |-> <<a, b, 0, 0>>]
Tested ==
  LET base == [tag |-> c.tag, fmt |-> c.fmt, cntb |-> CntB(c.cnt)] IN
  IF Inline \/ ~KnownFmt THEN base @@ [inl |-> PadTo(Data, 4)]
  ELSE IF c.place = "far" THEN base @@ [ofs |-> <<127, 255, 255, 0>>]
  ELSE IF c.place = "max" THEN base @@ [ofs |-> <<255, 255, 255, 255>>]
  ELSE IF Huge THEN base @@ [ofs |-> <<0, 0, 0, 8>>]
  ELSE base @@ [out |-> Data]
Ents == <<Txt(270, 65, 66), Tested, Txt(305, 67, 68)>>
D(es, n) == [ents |-> es, next |-> n, over |-> 0]
Ptr(t, d) == [tag |-> t, fmt |-> 4, cnt |-> 1, ptr |-> d]
\* the tested directory is placed last, its data ends the block
Tf == [e |-> c.e, gap |-> 0, tail |-> 0, order |-> IF c.dir = "ifd0" THEN <<1>> ELSE <<1, 2>>,
       dirs |-> CASE c.dir = "ifd0" -> <<D(Ents, 0)>>
                  [] c.dir = "exif" -> <<D(<<Txt(271, 69, 70), Ptr(34665, 2)>>, 0), D(Ents, 0)>>
                  [] c.dir = "gps"  -> <<D(<<Txt(271, 69, 70), Ptr(34853, 2)>>, 0), D(Ents, 0)>>
                  [] c.dir = "ifd1" -> <<D(<<Txt(271, 69, 70)>>, 2), D(Ents, 0)>>]
Idx == IF c.dir = "ifd1" THEN 1 ELSE 0
E(x, t, v) == <<x, t, v>>
Exp == (CASE c.dir = "ifd0" -> <<>>
          [] c.dir = "ifd1" -> <<E(0, 271, <<"Text", "EF">>)>>
          [] OTHER -> <<E(0, 271, <<"Text", "EF">>), E(0, IF c.dir = "exif" THEN 34665 ELSE 34853, <<"U32", << HL(OffOf(Tf, 2)) >> >>)>>)
       \o <<E(Idx, 270, <<"Text", "AB">>), E(Idx, c.tag, Answer), E(Idx, 305, <<"Text", "CD">>)>>
\* "cut": the last data byte is missing
RECURSIVE Flat(_, _)
Flat(ps, k) == IF k > Len(ps) THEN <<>> ELSE ps[k].b \o Flat(ps, k + 1)
Block == IF c.place = "cut" /\ ~Inline /\ KnownFmt /\ ~Huge
         THEN LET f == Flat(TiffParts(Tf), 1) IN <<B(SubSeq(f, 1, Len(f) - 1))>>
         ELSE TiffParts(Tf)
AnsBad == \/ ~KnownFmt \/ OutOfRange \/ c.cnt = 0 \/ c.tag \in {306, 36867, 36868}
          \/ (c.fmt \notin {1, 2, 3, 4, 5, 7, 10} /\ c.cnt # 1)
Bads == IF AnsBad THEN {Len(Exp) - 1} ELSE {}
ExifExp == [ok |-> [entries |-> Exp, embedded |-> FALSE]]
Vector == [k |-> "meta", suite |-> "value", id |-> c, paths |-> Mode, parts |-> JpegWrap(Block),
           exp |-> [exif |-> ExifExp, eager |-> EagerOf(Exp, Bads, AnyVal, FALSE), eimeta |-> EImetaOf(Exp, Bads, AnyVal, FALSE)]]
\* (the tag of the pointer that led here would be a repeated entry)
\* (and a pointer entry of another type whose data looks like an empty
\* directory may be followed instead of decoded)
Repeated == (c.tag \in {34665, 34853} /\ c.pat = "zero") \/ (c.dir = "exif" /\ c.tag = 34665) \/ (c.dir = "gps" /\ c.tag = 34853)
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<c, i, acc>> /\ IF Repeated THEN TRUE ELSE Emit(Vector)
Next == Step \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
