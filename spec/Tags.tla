-------------------------------- MODULE Tags --------------------------------
(* Tag codes, names and identifiers (C24): every code of a block of codes is  *)
(* looked up by code and by name, and stored in a directory of a file.        *)
EXTENDS IfdLib, EagerLib
CONSTANTS Blocks, Width, TagDirs, Endian, Mode
AllBlocks == 0..((65536 \div Width) - 1)
FewBlocks == 0..15
VARIABLES c, phase, k, got
vars == <<c, phase, k, got>>
Init == /\ c \in [blk : Blocks, dir : TagDirs, e : Endian] /\ phase = "scan" /\ k = 0 /\ got = <<>>
Base == c.blk * Width
Row(x) == {i \in 1..Len(TagTable) : TagTable[i][1] = x}
NameOf(x) == IF Row(x) = {} THEN "" ELSE TagTable[CHOOSE i \in Row(x) : TRUE][2]
\* one code after the other
Scan == /\ phase = "scan" /\ k < Width
        /\ got' = Append(got, <<Base + k, NameOf(Base + k)>>) /\ k' = k + 1 /\ UNCHANGED <<c, phase>>
Scanned == phase = "scan" /\ k = Width /\ phase' = "give" /\ UNCHANGED <<c, k, got>>
\* the table itself: codes and names are one to one
OneToOne == \A i, j \in 1..Len(TagTable) : i # j => TagTable[i][1] # TagTable[j][1] /\ TagTable[i][2] # TagTable[j][2]
ASSUME OneToOne
Kept == phase = "give" => Len(got) = Width /\ \A i \in 1..Len(got) : got[i][2] # "" <=> got[i][1] \in KnownCodes

\* special meaning: padding outside the GPS directory, pointers, dates
Special(x) == x \in {34665, 34853, 306, 36867, 36868} \/ (x = 0 /\ c.dir # "gps")
CodesIn == SelectSeq([i \in 1..Width |-> Base + i - 1], LAMBDA x : ~Special(x))
Val(x) == (x * 7 + 13) % 65536
Ent(x) == [tag |-> x, fmt |-> 3, cnt |-> 1, inl |-> I2(c.e, Val(x)) \o <<0, 0>>]
Ents == [i \in 1..Len(CodesIn) |-> Ent(CodesIn[i])]
D(es, n) == [ents |-> es, next |-> n, over |-> 0]
Ptr(t, d) == [tag |-> t, fmt |-> 4, cnt |-> 1, ptr |-> d]
Mark == [tag |-> 271, fmt |-> 2, cnt |-> 3, inl |-> <<69, 70, 0, 0>>]
PtrTag == IF c.dir = "exif" THEN 34665 ELSE 34853
HasMark == 271 \notin {CodesIn[i] : i \in 1..Len(CodesIn)}
Pre == IF HasMark THEN <<Mark>> ELSE <<>>
Tf == [e |-> c.e, gap |-> 0, tail |-> 6, order |-> IF c.dir = "ifd0" THEN <<1>> ELSE <<1, 2>>,
       dirs |-> CASE c.dir = "ifd0" -> <<D(Ents, 0)>>
                  [] c.dir = "ifd1" -> <<D(Pre, 2), D(Ents, 0)>>
                  [] OTHER -> <<D(Append(Pre, Ptr(PtrTag, 2)), 0), D(Ents, 0)>>]
Idx == IF c.dir = "ifd1" THEN 1 ELSE 0
PreE == IF HasMark THEN << <<0, 271, <<"Text", "EF">>>> >> ELSE <<>>
Exp == (CASE c.dir = "ifd0" -> <<>>
          [] c.dir = "ifd1" -> PreE
          [] OTHER -> PreE \o << <<0, PtrTag, <<"U32", << HL(OffOf(Tf, 2)) >> >> >> >>)
       \o [i \in 1..Len(CodesIn) |-> <<Idx, CodesIn[i], <<"U16", <<Val(CodesIn[i])>>>>>>]
Vector == [k |-> "tags", suite |-> "tags", id |-> c, paths |-> Mode, parts |-> JpegWrap(TiffParts(Tf)),
           codes |-> got, track |-> TrackTags, all |-> [i \in 1..Len(TagTable) |-> TagTable[i][2]],
           exp |-> [exif |-> [ok |-> [entries |-> Exp]], eager |-> EagerOf(Exp, {}, AnyVal, FALSE)]]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<c, k, got>> /\ Emit(Vector)
Next == Scan \/ Scanned \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
