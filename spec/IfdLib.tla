------------------------------- MODULE IfdLib -------------------------------
(* Writer for arbitrary TIFF blocks: directories with entries, pointers and  *)
(* out-of-line data at computed offsets.                                     *)
EXTENDS TiffLib, FiniteSets

\* tf: [e |-> "II"|"MM", dirs |-> seq of dir, order |-> seq of dir numbers (file
\*      order, the first one listed is placed first), gap |-> bytes before each
\*      directory, tail |-> bytes after the last; negative: bytes missing at
\*      the end of the last directory, which has no data then]
\* dir: [ents |-> seq of entry, next |-> ref, over |-> added to the entry count]
\* entry: [tag, fmt, cnt] with one of
\*   ptr |-> ref         value field holds the offset of a directory
\*   inl |-> 4 bytes     value field verbatim
\*   ofs |-> 4 bytes     value field holds this (big endian) number
\*   out |-> bytes       value field holds the offset of these bytes
\*   raw |-> 12 bytes    the whole entry verbatim
\* ref: 0 null, k > 0 directory k, -1 far beyond, -2 size of the block,
\*      -3 last byte of the block
OutLen(x) == IF Has(x, "out") THEN Len(x.out) ELSE 0
RECURSIVE SumOut(_, _)
SumOut(es, i) == IF i = 0 THEN 0 ELSE OutLen(es[i]) + SumOut(es, i - 1)
DirLen(d)  == 2 + 12 * Len(d.ents) + 4
DirData(d) == SumOut(d.ents, Len(d.ents))
RECURSIVE OffRec(_, _, _, _)
OffRec(tf, k, at, acc) ==
  IF k > Len(tf.order) THEN acc
  ELSE LET o == at + tf.gap
           d == tf.dirs[tf.order[k]]
       IN OffRec(tf, k + 1, o + DirLen(d) + DirData(d), Append(acc, <<tf.order[k], o>>))
\* offset of every directory
Offs(tf) == LET a == OffRec(tf, 1, 8, <<>>)
            IN [d \in 1..Len(tf.dirs) |-> (CHOOSE i \in 1..Len(a) : a[i][1] = d) ]
OffOf(tf, d) == LET a == OffRec(tf, 1, 8, <<>>)
                IN a[CHOOSE i \in 1..Len(a) : a[i][1] = d][2]
RECURSIVE EndRec(_, _, _)
EndRec(tf, k, at) == IF k > Len(tf.order) THEN at
                     ELSE EndRec(tf, k + 1, at + tf.gap + DirLen(tf.dirs[tf.order[k]]) + DirData(tf.dirs[tf.order[k]]))
TotalLen(tf) == EndRec(tf, 1, 8) + tf.tail
RefVal(tf, r) == CASE r = 0 -> 0
                   [] r = -1 -> 2147483632
                   [] r = -2 -> TotalLen(tf)
                   [] r = -3 -> TotalLen(tf) - 1
                   [] OTHER -> OffOf(tf, r)
CntBytes(e, x) == IF Has(x, "cntb") THEN (IF e = "II" THEN Reverse(x.cntb) ELSE x.cntb) ELSE I4(e, x.cnt)
EntryBytes(tf, o, d, i) ==
  LET x == d.ents[i] IN
  IF Has(x, "raw") THEN x.raw
  ELSE I2(tf.e, x.tag) \o I2(tf.e, x.fmt) \o CntBytes(tf.e, x)
       \o (CASE Has(x, "ptr") -> I4(tf.e, RefVal(tf, x.ptr))
             [] Has(x, "inl") -> x.inl
             [] Has(x, "ofs") -> IF tf.e = "II" THEN Reverse(x.ofs) ELSE x.ofs
             [] Has(x, "out") -> I4(tf.e, o + DirLen(d) + SumOut(d.ents, i - 1)))
DirBytes(tf, k) ==
  LET d == tf.dirs[k]  o == OffOf(tf, k) IN
  I2(tf.e, Len(d.ents) + d.over)
  \o Cat([i \in 1..Len(d.ents) |-> EntryBytes(tf, o, d, i)])
  \o I4(tf.e, RefVal(tf, d.next))
  \o Cat([i \in 1..Len(d.ents) |-> IF Has(d.ents[i], "out") THEN d.ents[i].out ELSE <<>>])
Hdr(tf) == (IF tf.e = "II" THEN <<73,73,42,0>> ELSE <<77,77,0,42>>) \o I4(tf.e, OffOf(tf, 1))
TiffParts(tf) ==
  <<B(Hdr(tf))>> \o Cat([k \in 1..Len(tf.order) |->
      (IF tf.gap > 0 THEN <<Z(tf.gap, 238)>> ELSE <<>>) \o <<B(IF tf.tail < 0 /\ k = Len(tf.order) THEN LET b == DirBytes(tf, tf.order[k]) IN SubSeq(b, 1, Len(b) + tf.tail) ELSE DirBytes(tf, tf.order[k]))>>])
  \o (IF tf.tail > 0 THEN <<Z(tf.tail, 0)>> ELSE <<>>)
\* the block as APP1 of a small JPEG
JpegWrap(parts) ==
  <<B(<<255,216>>), B(<<255,225>>), Covers(U2(2 + 6 + Size(parts)), 2, 2 + 6 + Size(parts)), B(<<69,120,105,102,0,0>>)>> \o parts
  \o <<B(<<255,219>>), U2(67), Z(65, 1), B(<<255,218>>), U2(12), B(<<3,1,0,2,17,3,17,0,63,0>>), Z(60, 17), B(<<255,217>>)>>
\* 32-bit number as the harness prints it
HL(x) == <<x \div 65536, x % 65536>>
=============================================================================
