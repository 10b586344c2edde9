-------------------------------- MODULE Raf --------------------------------
(* Fujifilm RAF: a header holding the offset of an embedded JPEG, whose     *)
(* first Exif segment is the answer (C11).                                  *)
EXTENDS JpegLib

CONSTANTS MaxSegs, Kinds, Offsets, Aligns, Deltas, Cams, Mode

VARIABLES cam, off, segs, phase, i, found
vars == <<cam, off, segs, phase, i, found>>
HdrSize == 88

Init == /\ cam \in Cams
        /\ off \in Offsets \cup {t + d - 16 : t \in Aligns, d \in Deltas}
        /\ segs = <<>> /\ phase = "build" /\ i = 1 /\ found = 0
AddSeg == /\ phase = "build" /\ Len(segs) < MaxSegs
          /\ \E k \in Kinds : segs' = Append(segs, [k |-> k, x |-> 0])
          /\ UNCHANGED <<cam, off, phase, i, found>>
EndBuild == /\ phase = "build"
            /\ phase' = IF off < HdrSize THEN "bad" ELSE "walk"
            /\ UNCHANGED <<cam, off, segs, i, found>>
Step == /\ phase = "walk" /\ i <= Len(segs) /\ found = 0 /\ segs[i].k # "sos"
        /\ found' = IF IsExif(segs[i].k) THEN i ELSE 0
        /\ i' = i + 1 /\ UNCHANGED <<cam, off, segs, phase>>
Stop == /\ phase = "walk"
        /\ (IF i > Len(segs) THEN TRUE ELSE IF found # 0 THEN TRUE ELSE segs[i].k = "sos")
        /\ phase' = "done" /\ UNCHANGED <<cam, off, segs, i, found>>
Give == phase = "bad" /\ phase' = "done" /\ UNCHANGED <<cam, off, segs, i, found>>
WalkerCorrect == phase = "done" /\ off >= HdrSize => found = FirstExifIn(segs)

CamBytes == CASE cam = "short" -> PadTo(<<88,45,84,53>>, 32)
              [] cam = "full"  -> Rep(88, 32)
              [] cam = "empty" -> Rep(0, 32)
Parts == <<S("FUJIFILMCCD-RAW "), S("0201"), S("FF159502"), B(CamBytes), S("0100"), Z(20, 0), U4(off)>>
         \o (IF off >= HdrSize THEN <<Z(off - HdrSize, 171)>> ELSE <<>>)
         \o JpegParts(segs) \o <<Z(200, 3)>>
ExifExp == IF off < HdrSize THEN Err("Malformed") ELSE ExifAnswer(segs, found)
Vector ==
  [ k |-> "meta", suite |-> "raf", id |-> [cam |-> cam, off |-> off, segs |-> segs], paths |-> Mode, parts |-> Parts,
    exp |-> [ kind |-> "Image", exif |-> ExifExp, track |-> Err("TrackNotFound"),
              imeta |-> IF Has(ExifExp, "ok") THEN [ok |-> [exif |-> ExifExp.ok, text |-> "none"]] ELSE ExifExp ] ]
Next == AddSeg \/ EndBuild \/ Step \/ (Stop /\ Emit(Vector)) \/ (Give /\ Emit(Vector))
Spec == Init /\ [][Next]_vars
=============================================================================
