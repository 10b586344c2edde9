------------------------------ MODULE EbmlLib ------------------------------
(* EBML elements.                                                           *)
EXTENDS MovLib
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
\* n as a data size of w bytes
Byte(n, i) == IF i >= 4 THEN 0 ELSE (n \div (CASE i = 0 -> 1 [] i = 1 -> 256 [] i = 2 -> 65536 [] i = 3 -> 16777216)) % 256
VSize(n, w) == [i \in 1..w |-> Byte(n, w - i) + (IF i = 1 THEN P2(8 - w) ELSE 0)]
Fits(n, w) == w >= 5 \/ n < P2(7 * w) - 1
RECURSIVE Width(_, _)
Width(n, w) == IF Fits(n, w) THEN w ELSE Width(n, w + 1)
El(id, w, body) == LET n == Size(body)  v == VSize(n, Width(n, w)) IN <<B(id), Covers(B(v), Len(id), Len(v) + n)>> \o body
Unknown(w) == [i \in 1..w |-> IF i = 1 THEN P2(8 - w) * 2 - 1 ELSE 255]
UInt(x, k) == <<B([i \in 1..k |-> Byte(x, k - i)])>>
IdEbml == <<26, 69, 223, 163>>
IdSeg == <<24, 83, 128, 103>>
IdSeek == <<17, 77, 155, 116>>
IdInfo == <<21, 73, 169, 102>>
IdTracks == <<22, 84, 174, 107>>
IdCluster == <<31, 67, 182, 117>>
IdCues == <<28, 83, 187, 107>>
IdTags == <<18, 84, 195, 103>>
Void(w, n) == El(<<236>>, w, <<Z(n, 66)>>)
Crc == El(<<191>>, 1, <<Z(4, 7)>>)
\* (a text may be filled up with zeros)
DocText(doc) == CASE doc = "webm00" -> <<S("webm"), B(<<0, 0>>)>> [] doc = "matroska0" -> <<S("matroska"), B(<<0>>)>> [] OTHER -> <<S(doc)>>
WebmHead(doc) == El(IdEbml, 1, El(<<66, 134>>, 1, UInt(1, 1)) \o El(<<66, 247>>, 1, UInt(1, 1)) \o El(<<66, 242>>, 1, UInt(4, 1)) \o El(<<66, 243>>, 1, UInt(8, 1)) \o El(<<66, 130>>, 1, DocText(doc)) \o El(<<66, 135>>, 1, UInt(4, 1)))
=============================================================================
