------------------------------ MODULE TiffLib ------------------------------
(* Small marker TIFF blocks used as payload by the container specifications *)
(* and the answer each must produce.                                        *)
EXTENDS Lay

\* One IFD, one ImageDescription (0x010E) ASCII entry holding len times the
\* character code ch, followed by NUL; out of line when longer than 4.
TiffBytes(e, ch, len) ==
  LET hdr == IF e = "II" THEN <<73,73,42,0>> ELSE <<77,77,0,42>>
      val == Rep(ch, len) \o <<0>>
      inl == len + 1 <= 4
  IN  hdr \o I4(e, 8) \o I2(e, 1)
      \o I2(e, 270) \o I2(e, 2) \o I4(e, len + 1)
      \o (IF inl THEN PadTo(val, 4) ELSE I4(e, 26))
      \o I4(e, 0)
      \o (IF inl THEN <<>> ELSE val)
      \o Rep(0, 8)

TiffEntries(ch, len) == << <<0, 270, <<"Text", Codes(Rep(ch, len))>> >> >>
\* payload record: p.e byte order, p.ch marker, p.len text length
PBytes(p)   == TiffBytes(p.e, p.ch, p.len)
PEntries(p) == TiffEntries(p.ch, p.len)
POk(p)      == [ok |-> [entries |-> PEntries(p), embedded |-> FALSE, gps |-> "none"]]
Pay(ch)     == [e |-> IF ch % 2 = 0 THEN "II" ELSE "MM", ch |-> ch, len |-> 1 + (ch % 7)]
=============================================================================
