-------------------------------- MODULE Jpeg --------------------------------
(* JPEG: a sequence of marker segments and the walker that looks for the    *)
(* first Exif APP1 before the start of scan (C07).                          *)
EXTENDS JpegLib

CONSTANTS MaxSegs, Kinds, Aligns, Deltas, Mode

VARIABLES segs,    \* sequence of segment descriptors
          phase, i, found
vars == <<segs, phase, i, found>>

Init == segs = <<>> /\ phase = "build" /\ i = 1 /\ found = 0
\* a plain segment, or a COM segment that pads so that the next segment
\* starts d bytes away from file offset t (an internal read boundary)
AddSeg == /\ phase = "build" /\ Len(segs) < MaxSegs
          /\ \/ \E k \in Kinds : segs' = Append(segs, [k |-> k, x |-> 0])
             \/ \E t \in Aligns, d \in Deltas :
                  LET here == 2 + SegsSize(segs)  pad == t + d - 16 - here - 4 IN
                  /\ pad >= 0 /\ pad <= 65533
                  /\ segs' = Append(segs, [k |-> "pad", x |-> pad])
          /\ UNCHANGED <<phase, i, found>>
EndBuild == phase = "build" /\ phase' = "walk" /\ UNCHANGED <<segs, i, found>>

Step == /\ phase = "walk" /\ i <= Len(segs) /\ found = 0 /\ segs[i].k # "sos"
        /\ found' = IF IsExif(segs[i].k) THEN i ELSE 0
        /\ i' = i + 1 /\ UNCHANGED <<segs, phase>>
Stop == /\ phase = "walk"
        /\ (IF i > Len(segs) THEN TRUE ELSE IF found # 0 THEN TRUE ELSE segs[i].k = "sos")
        /\ phase' = "done" /\ UNCHANGED <<segs, i, found>>

\* declarative meaning
FirstExif == FirstExifIn(segs)
WalkerCorrect == phase = "done" => found = FirstExif

Parts == JpegParts(segs)
ExifExp == ExifAnswer(segs, found)
Vector ==
  [ k |-> "meta", suite |-> "jpeg", id |-> segs, paths |-> Mode, parts |-> Parts,
    exp |-> [ kind |-> "Image", exif |-> ExifExp,
              track |-> Err("TrackNotFound"),
              imeta |-> IF Has(ExifExp, "ok") THEN [ok |-> [exif |-> ExifExp.ok, text |-> "none"]] ELSE ExifExp ] ]
Next == AddSeg \/ EndBuild \/ Step \/ (Stop /\ Emit(Vector))
Spec == Init /\ [][Next]_vars
=============================================================================
