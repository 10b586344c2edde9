------------------------------ MODULE BmffLib ------------------------------
(* ISO base media file format boxes.                                        *)
EXTENDS TiffLib, FiniteSets

Box(ty, body)   == LET n == 8 + Size(body) IN <<Covers(U4(n), 0, n), S(ty)>> \o body
\* the same box with the 64-bit size field
Box64(ty, body) == LET n == 16 + Size(body) IN <<U4(1), S(ty), Covers(U8(n), 8, n - 8)>> \o body
BoxW(w, ty, body) == IF w THEN Box64(ty, body) ELSE Box(ty, body)
FullBox(ty, v, body) == Box(ty, <<B(<<v, 0, 0, 0>>)>> \o body)
FullBoxW(w, ty, v, body) == BoxW(w, ty, <<B(<<v, 0, 0, 0>>)>> \o body)
\* a box of total size n filled with zeros
Filler(ty, n) == Box(ty, <<Z(n - 8, 0)>>)
Ftyp(major, compat) == Box("ftyp", <<S(major), U4(0)>> \o [i \in 1..Len(compat) |-> S(compat[i])])
UW(w, x) == CASE w = 0 -> <<>> [] w = 4 -> <<U4(x)>> [] w = 8 -> <<U8(x)>> [] w = 2 -> <<U2(x)>>
=============================================================================
