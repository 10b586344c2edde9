-------------------------------- MODULE Png --------------------------------
(* PNG: a chunk stream, and the walker that collects Exif and text.         *)
(* C08: the walker's result equals the declarative definition, for every    *)
(* chunk sequence; emitted vectors bind both to the implementation.         *)
EXTENDS TiffLib, EagerLib, FiniteSets

CONSTANTS MaxChunks, Kinds, Mode,
          Given      \* files given whole (otherwise every sequence of Kinds)

VARIABLES chunks,    \* the file: sequence of chunk kinds (names, see Chunk)
          phase,     \* "build" | "walk" | "done"
          i,         \* walker: next chunk
          best,      \* walker: [prio, idx] of the Exif source so far
          texts      \* walker: indices of text chunks kept
vars == <<chunks, phase, i, best, texts>>

MiB == 1048576

Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexOf(bs, up) == Cat([k \in 1..Len(bs) |->
     (IF up THEN <<HexUp(bs[k] \div 16), HexUp(bs[k] % 16)>> ELSE <<Hex(bs[k] \div 16), Hex(bs[k] % 16)>>)
     \o (IF k % 36 = 0 THEN <<10>> ELSE <<>>)])
\* "\nexif\n      26\n" + hex
RawProfile(bs, up) == <<10,101,120,105,102,10,32,32,32,32,50,54,10>> \o HexOf(bs, up) \o <<10>>

\* other line ends, and blanks between the digits
RawSpaced(bs) == <<13,10,97,112,112,49,13,10,32,57,13,10>> \o Cat([k \in 1..Len(bs) |-> <<IF k % 5 = 0 THEN 9 ELSE 32, Hex(bs[k] \div 16), HexUp(bs[k] % 16)>> \o (IF k % 7 = 0 THEN <<13, 10>> ELSE <<>>)]) \o <<32, 13, 10>>
ExifHdr == <<69,120,105,102,0,0>>
APP1Key == "Raw profile type APP1"
EXIFKey == "Raw profile type exif"
\* ASCII codes of the two keys
RawKeyCodes == <<82,97,119,32,112,114,111,102,105,108,101,32,116,121,112,101,32>>
APP1Codes == RawKeyCodes \o <<65,80,80,49>>
EXIFCodes == RawKeyCodes \o <<101,120,105,102>>

T(key, val) == [ty |-> "tEXt", data |-> <<B(key), B(<<0>>), B(val)>>, key |-> key, val |-> val, big |-> 0]
Raw(key, val, prio, pay) == [ty |-> "tEXt", data |-> <<B(key), B(<<0>>), B(val)>>, key |-> key, val |-> val,
                             big |-> 0, prio |-> prio, pay |-> pay]
\* Chunk catalogue: chunk of kind k at position pos (the marker character
\* depends on the position, so that every payload is distinguishable).
Chunk(k, pos) ==
  LET ch == 65 + pos
      pay == [e |-> IF pos % 2 = 0 THEN "II" ELSE "MM", ch |-> ch, len |-> 1 + (pos % 6)]
      bs == PBytes(pay)
  IN CASE k = "exif"   -> [ty |-> "eXIf", data |-> <<B(bs)>>, prio |-> 3, pay |-> pay]
       [] k = "exifbig" -> LET p2 == [pay EXCEPT !.len = 600] IN
                           [ty |-> "eXIf", data |-> <<B(PBytes(p2)), Z(20000, 7)>>, prio |-> 3, pay |-> p2]
       \* eXIf chunks that hold no TIFF block: not an Exif source
       [] k = "exifmagic" -> [ty |-> "eXIf", data |-> <<B(<<73,73,43>> \o Tail(Tail(Tail(bs))))>>]
       [] k = "exifshort" -> [ty |-> "eXIf", data |-> <<B(<<77,77,0,42,0,0>>)>>]
       [] k = "exifnone" -> [ty |-> "eXIf", data |-> <<>>]
       [] k = "app1"   -> Raw(APP1Codes, RawProfile(ExifHdr \o bs, FALSE), 2, pay)
       [] k = "app1nh" -> Raw(APP1Codes, RawProfile(bs, TRUE), 2, pay)
       [] k = "lexif"  -> Raw(EXIFCodes, RawProfile(bs, FALSE), 1, pay)
       [] k = "app1sp" -> Raw(APP1Codes, RawSpaced(bs), 2, pay)
       [] k = "badhex" -> Raw(APP1Codes, RawProfile(bs, FALSE) \o <<103,103>>, 0, pay)
       [] k = "oddhex" -> Raw(EXIFCodes, RawProfile(bs, FALSE) \o <<52>>, 0, pay)
       [] k = "badtiff" -> Raw(APP1Codes, RawProfile(<<73,73,43>> \o Tail(Tail(Tail(bs))), FALSE), 0, pay)
       [] k = "short"  -> Raw(EXIFCodes, RawProfile(<<73,73,42,0>>, FALSE), 0, pay)
       [] k = "lexifhdr" -> Raw(EXIFCodes, RawProfile(ExifHdr \o bs, FALSE), 0, pay)
       [] k = "text"   -> T(<<75, ch>>, <<86, ch, 10>>)
       [] k = "textdup" -> T(<<75>>, <<ch>>)
       [] k = "textlat" -> T(<<75, 233>>, <<255, 128, ch, 160>>)
       [] k = "textempty" -> T(<<75>>, <<>>)
       [] k = "textnul" -> T(<<75>>, <<97, 0, 98, ch>>)
       [] k = "textnokey" -> T(<<>>, <<ch>>)
       [] k = "textmed" -> [ty |-> "tEXt", data |-> <<B(<<77>>), B(<<0>>), Z(9000, ch)>>, key |-> <<77>>, val |-> ch, big |-> 9000]
       [] k = "textmax" -> [ty |-> "tEXt", data |-> <<B(<<77>>), B(<<0>>), Z(MiB - 2, ch)>>, key |-> <<77>>, val |-> ch, big |-> MiB - 2]
       [] k = "textover" -> [ty |-> "tEXt", data |-> <<B(<<77>>), B(<<0>>), Z(MiB - 1, ch)>>]
       [] k = "textbad" -> [ty |-> "tEXt", data |-> <<B(<<75, 86, ch>>)>>]
       [] k = "ihdr"   -> [ty |-> "IHDR", data |-> <<U4(1), U4(1), B(<<8,2,0,0,0>>)>>]
       [] k = "unk0"   -> [ty |-> "tIME", data |-> <<>>]
       [] k = "unk"    -> [ty |-> "zTXt", data |-> <<Z(50, 69)>>]
       [] k = "trap"   -> [ty |-> "iTXt", data |-> <<S("eXIf"), B(bs), S("tEXtK"), B(<<0>>), S("IEND")>>]
       [] k = "idat8k" -> [ty |-> "IDAT", data |-> <<Rnd(8192 + pos)>>]
       [] k = "idat30k" -> [ty |-> "IDAT", data |-> <<Rnd(30000 + pos)>>]
       [] k = "idat1m" -> [ty |-> "IDAT", data |-> <<Rnd(1200000)>>]
       [] k = "idat0"  -> [ty |-> "IDAT", data |-> <<>>]
       [] k = "iend"   -> [ty |-> "IEND", data |-> <<>>]

Prio(r) == IF Has(r, "prio") THEN r.prio ELSE 0
IsText(r) == Has(r, "key")
TextLen(r) == Len(r.key) + (IF r.big > 0 THEN r.big ELSE Len(r.val))
TextExp(r) == << Codes(r.key), IF r.big > 0 THEN RepStr(r.val, r.big) ELSE Codes(r.val) >>

C(p) == Chunk(chunks[p], p)
\* ---- declarative meaning (chunks before the first IEND) ----
End == IF \E p \in 1..Len(chunks) : chunks[p] = "iend"
       THEN CHOOSE p \in 1..Len(chunks) : chunks[p] = "iend" /\ \A q \in 1..(p-1) : chunks[q] # "iend"
       ELSE Len(chunks) + 1
Live == 1..(End - 1)
Src(pr) == {p \in Live : Prio(C(p)) = pr}
MinS(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxS(s) == CHOOSE x \in s : \A y \in s : x >= y
ExifIdx == IF Src(3) # {} THEN MaxS(Src(3))
           ELSE IF Src(2) # {} THEN MinS(Src(2))
           ELSE IF Src(1) # {} THEN MinS(Src(1)) ELSE 0
RECURSIVE KeepFrom(_, _, _)
KeepFrom(p, used, acc) ==
  IF p >= End THEN acc
  ELSE IF IsText(C(p)) /\ used + TextLen(C(p)) <= 16 * MiB
       THEN KeepFrom(p + 1, used + TextLen(C(p)), Append(acc, p))
       ELSE KeepFrom(p + 1, used, acc)
TextIdx == KeepFrom(1, 0, <<>>)

\* ---- walker ----
NoneGiven == {}
\* so much text that some of it is dropped, with skipped chunks between
Full(a, b) == Rep("textmax", a) \o b \o Rep("textmax", 16 - a)
GivenCap == {Full(a, b) \o c : a \in {0, 1, 9, 15, 16}, b \in {<<>>, <<"idat30k">>, <<"idat1m", "exif">>}, c \in {<<"text", "text", "text", "text", "exif">>, <<"textmed", "text", "idat30k", "textmax", "textempty", "lexif">>, <<"textmax", "app1", "idat8k", "text">>, <<"text", "text", "text", "textdup", "textnokey", "textnokey", "textempty", "exif">>}}
GivenFew == {Full(9, <<"idat1m", "exif">>) \o <<"text", "text", "text", "text", "exif">>, Full(16, <<>>) \o <<"textmed", "text", "idat30k", "textmax", "textempty", "lexif">>, Full(15, <<"idat30k">>) \o <<"text", "text", "text", "text", "exif">>,
  Full(16, <<>>) \o <<"text", "text", "text", "textdup", "textnokey", "textnokey", "exif">>}  \* exactly full
Init == /\ i = 1 /\ best = [prio |-> 0, idx |-> 0] /\ texts = <<>>
        /\ IF Given = {} THEN chunks = <<>> /\ phase = "build" ELSE chunks \in Given /\ phase = "walk"
AddChunk == /\ phase = "build" /\ Len(chunks) < MaxChunks
            /\ \E k \in Kinds : chunks' = Append(chunks, k)
            /\ UNCHANGED <<phase, i, best, texts>>
EndBuild == phase = "build" /\ phase' = "walk" /\ UNCHANGED <<chunks, i, best, texts>>
Used == LET RECURSIVE U(_, _)
            U(q, a) == IF q > Len(texts) THEN a ELSE U(q + 1, a + TextLen(C(texts[q])))
        IN U(1, 0)
Step ==
  /\ phase = "walk" /\ i <= Len(chunks) /\ chunks[i] # "iend"
  /\ LET r == C(i) pr == Prio(r) IN
     /\ best' = IF pr = 3 \/ pr > best.prio THEN [prio |-> pr, idx |-> i] ELSE best
     /\ texts' = IF IsText(r) /\ Used + TextLen(r) <= 16 * MiB THEN Append(texts, i) ELSE texts
  /\ i' = i + 1 /\ UNCHANGED <<chunks, phase>>
Stop == /\ phase = "walk" /\ (IF i > Len(chunks) THEN TRUE ELSE chunks[i] = "iend")
        /\ phase' = "done" /\ UNCHANGED <<chunks, i, best, texts>>

\* ---- invariants ----
WalkerCorrect == phase = "done" => best.idx = ExifIdx /\ texts = TextIdx

\* ---- the vector of a finished walk ----
ChunkParts(r) == <<U4(Size(r.data)), S(r.ty)>> \o r.data \o <<B(<<1,2,3,4>>)>>
Parts == <<B(<<137,80,78,71,13,10,26,10>>)>>
         \o Cat([p \in 1..Len(chunks) |-> ChunkParts(C(p))])
         \o (IF End > Len(chunks) THEN ChunkParts(Chunk("iend", 0)) ELSE <<>>)
ExifOk == [entries |-> PEntries(C(best.idx).pay), embedded |-> FALSE, gps |-> "none"]
TextsExp == [q \in 1..Len(texts) |-> TextExp(C(texts[q]))]
Vector ==
  [ k |-> "meta", suite |-> "png", id |-> chunks, paths |-> Mode, parts |-> Parts,
    exp |-> [ kind  |-> "Image",
              exif  |-> IF best.idx = 0 THEN Err("ExifNotFound") ELSE [ok |-> ExifOk],
              track |-> IF Size(Parts) > 128 THEN Err("TrackNotFound") ELSE OneOf(<<Err("TrackNotFound"), Err("Eof")>>),
              imeta |-> IF best.idx = 0 /\ texts = <<>> THEN Err("ExifNotFound")
                        ELSE [ok |-> [exif |-> IF best.idx = 0 THEN "none" ELSE ExifOk,
                                      text |-> IF texts = <<>> THEN "none" ELSE TextsExp]],
              eager |-> IF best.idx = 0 THEN Err("ExifNotFound") ELSE EagerOf(ExifOk.entries, {}, "none", FALSE),
              eimeta |-> IF best.idx = 0 /\ texts = <<>> THEN Err("ExifNotFound")
                         ELSE [ok |-> [exif |-> IF best.idx = 0 THEN "none" ELSE EagerVal(ExifOk.entries, {}, "none", FALSE),
                                       text |-> IF texts = <<>> THEN "none" ELSE TextsExp]] ] ]

Next == AddChunk \/ EndBuild \/ Step \/ (Stop /\ Emit(Vector))
Spec == Init /\ [][Next]_vars
=============================================================================
