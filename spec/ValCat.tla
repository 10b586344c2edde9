------------------------------- MODULE ValCat -------------------------------
(* Entry values, the accessors and conversions defined on them (C19) and how *)
(* they are rendered (C25). Numbers beyond 32 bits are decimal numerals.      *)
EXTENDS Lay, FiniteSets
CONSTANTS MaxLen, Pick, Types

\* numerals in ascending order
Nums == << "-9223372036854775808", "-9007199254740993", "-2147483649", "-2147483648", "-32769", "-32768", "-129", "-128", "-1", "0", "1",
  "16", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
  "9007199254740992", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615" >>
Pos(x) == CHOOSE i \in 1..Len(Nums) : Nums[i] = x
Lo(t) == CASE t \in {"U8", "U16", "U32", "U64"} -> Pos("0") [] t = "I8" -> Pos("-128") [] t = "I16" -> Pos("-32768")
           [] t = "I32" -> Pos("-2147483648") [] t = "I64" -> 1
Hi(t) == CASE t = "U8" -> Pos("255") [] t = "U16" -> Pos("65535") [] t = "U32" -> Pos("4294967295") [] t = "U64" -> Len(Nums)
           [] t = "I8" -> Pos("127") [] t = "I16" -> Pos("32767") [] t = "I32" -> Pos("2147483647") [] t = "I64" -> Pos("9223372036854775807")
Range(t) == {Nums[i] : i \in Lo(t)..Hi(t)}
\* nearest double
Dbl(x) == CASE x = "-9007199254740993" -> "-9007199254740992" [] x = "9007199254740993" -> "9007199254740992"
            [] x = "9223372036854775807" -> "9223372036854775808" [] OTHER -> x
HexDig == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN HexDig[n + 1] ELSE HexOf(n \div 16) \o HexDig[(n % 16) + 1]
Hex2(n) == IF n < 16 THEN "0" \o HexOf(n) ELSE HexOf(n)
HexNum(x) == CASE x = "0" -> "00" [] x = "1" -> "01" [] x = "16" -> "10" [] x = "127" -> "7f" [] x = "128" -> "80" [] x = "255" -> "ff"
               [] x = "256" -> "100" [] x = "32767" -> "7fff" [] x = "32768" -> "8000" [] x = "65535" -> "ffff" [] x = "65536" -> "10000"
               [] x = "2147483647" -> "7fffffff" [] x = "2147483648" -> "80000000" [] x = "4294967295" -> "ffffffff"
IntT == {"U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64"}
ArrT == {"U8Array", "U16Array", "U32Array"}
Elem(t) == CASE t = "U8Array" -> "U8" [] t = "U16Array" -> "U16" [] t = "U32Array" -> "U32"
RatT == {"URational", "IRational"}
RatArrT == {"URationalArray", "IRationalArray"}
Comp(t) == IF t \in {"URational", "URationalArray"} THEN "U32" ELSE "I32"
\* texts and bytes as codes; dates as wall clock and offset
TextCodes == { <<>>, <<65>>, <<72, 105>>, <<34, 92, 10>>, <<32, 97, 32>>, <<228, 8364, 128512>>, <<1, 127>>, <<48, 120, 52, 49>>, Rep(120, 300) }
ByteSeqs == { <<>>, <<0>>, <<48, 50, 50, 48>>, <<48, 120, 52, 49>>, <<34>>, <<31>>, <<32>>, <<126>>, <<127>>, <<255>>, <<65, 0>>, <<1, 2, 3, 0>>, Rep(7, 200), Rep(65, 200), <<16, 1>>, <<1, 1>> }
Walls == {"2023-07-09T20:36:33", "0000-01-01T00:00:00", "9999-12-31T23:59:59", "2000-02-29T12:00:01"}
WallSp(w) == CASE w = "2023-07-09T20:36:33" -> "2023-07-09 20:36:33" [] w = "0000-01-01T00:00:00" -> "0000-01-01 00:00:00"
               [] w = "9999-12-31T23:59:59" -> "9999-12-31 23:59:59" [] w = "2000-02-29T12:00:01" -> "2000-02-29 12:00:01"
OffNames == {"+00:00", "+08:00", "-05:30", "+14:00", "-12:00", "+00:01", "-00:30"}
\* floats: 16-bit pieces of the bit pattern, most significant first
F64s == { <<0,0,0,0>>, <<32768,0,0,0>>, <<16368,0,0,0>>, <<49144,0,0,0>>, <<16377,8699,21572,11544>>, <<32751,65535,65535,65535>>, <<16,0,0,0>>, <<0,0,0,1>>, <<16313,39321,39321,39322>>, <<17200,0,0,1>> }
F32s == { <<0,0>>, <<32768,0>>, <<16256,0>>, <<49088,0>>, <<16457,4059>>, <<32639,65535>>, <<128,0>>, <<15820,52429>> }
NonFinite64 == { <<32752,0,0,0>>, <<65520,0,0,0>> }
NonFinite32 == { <<32640,0>>, <<65408,0>> }
\* widening a single to a double (normal numbers and zero)
Widen(b) == LET sg == b[1] \div 32768  ex == (b[1] % 32768) \div 128  m1 == b[1] % 128  m2 == b[2]
            IN IF ex = 0 THEN <<sg * 32768, 0, 0, 0>>
               ELSE IF ex = 255 THEN <<sg * 32768 + 32752, 0, 0, 0>>
               ELSE LET e2 == ex - 127 + 1023
                    IN <<sg * 32768 + e2 * 16 + m1 \div 8, (m1 % 8) * 8192 + m2 \div 8, (m2 % 8) * 8192, 0>>

VARIABLES val, phase, shown
vars == <<val, phase, shown>>
\* val: [t, v]; v is a sequence: numerals, pairs of numerals, codes, ...
RatVals(t) == Range(Comp(t)) \X Range(Comp(t))
Vals(t) == CASE t \in IntT -> {<<x>> : x \in Range(t)}
             [] t \in ArrT -> UNION {[1..n -> Range(Elem(t))] : n \in 0..(IF MaxLen > 2 THEN 2 ELSE MaxLen)}
             [] t \in RatT -> {<<p>> : p \in RatVals(t)}
             [] t = "Text" -> TextCodes
             [] t = "Undefined" -> ByteSeqs
             [] t = "F64" -> F64s \cup NonFinite64
             [] t = "F32" -> F32s \cup NonFinite32
             [] t = "DateTime" -> {<<w, x>> : w \in Walls, x \in OffNames}
             [] t = "NaiveDateTime" -> {<<w>> : w \in Walls}
             [] OTHER -> {}
RandSeq(t, i) == IF t \in RatArrT THEN [k \in 1..RandomElement(0..MaxLen) |-> RandomElement(RatVals(t))]
                 ELSE [k \in 1..RandomElement(0..MaxLen) |-> RandomElement(Range(Elem(t)))]
Init == /\ phase = "show" /\ shown = <<>>
        /\ val \in UNION {{[t |-> t, v |-> x] : x \in Vals(t)} : t \in Types}
                   \cup {[t |-> t, v |-> RandSeq(t, i)] : t \in Types \cap (ArrT \cup RatArrT), i \in 1..Pick}
T == val.t
V == val.v
\* walk over the elements, rendering one after the other
NoElems == T \in {"Text", "F32", "F64", "DateTime", "NaiveDateTime"}
ElemText(x) == CASE T \in RatT \cup RatArrT -> x[1] \o "/" \o x[2] \o " ("
                 [] T \in ArrT -> "0x" \o HexNum(x)
                 [] T = "Undefined" -> Hex2(x)
                 [] OTHER -> x
Show == /\ phase = "show" /\ ~NoElems /\ Len(shown) < Len(V)
        /\ shown' = Append(shown, ElemText(V[Len(shown) + 1])) /\ UNCHANGED <<val, phase>>
Shown == /\ phase = "show" /\ (NoElems \/ Len(shown) = Len(V)) /\ phase' = "give" /\ UNCHANGED <<val, shown>>
EveryElement == phase = "give" /\ ~NoElems => Len(shown) = Len(V)
RECURSIVE Join(_, _, _)
Join(ss, sep, k) == IF k > Len(ss) THEN "" ELSE ss[k] \o (IF k < Len(ss) THEN sep ELSE "") \o Join(ss, sep, k + 1)
Printable == V # <<>> /\ \A k \in 1..Len(V) : V[k] \in 32..126
Disp == CASE T \in IntT -> V[1]
          [] T \in ArrT -> T \o "[" \o Join(shown, ", ", 1) \o "]"
          [] T \in RatT -> [xtok |-> shown]
          [] T \in RatArrT -> [xtok |-> <<T \o "[">> \o shown \o <<"]">>]
          [] T = "Text" -> Codes(V)
          [] T = "Undefined" -> IF Printable THEN Codes(<<34>> \o V \o <<34>>) ELSE "0x" \o Join(shown, "", 1)
          [] T = "DateTime" -> V[1] \o V[2]
          [] T = "NaiveDateTime" -> WallSp(V[1])
          [] OTHER -> AnyVal
RatJ(p) == [numerator |-> p[1], denominator |-> p[2]]
Js == CASE T \in IntT -> V[1]
        [] T \in ArrT -> V
        [] T \in RatT -> RatJ(V[1])
        [] T \in RatArrT -> [k \in 1..Len(V) |-> RatJ(V[k])]
        [] T = "Text" -> Codes(V)
        [] T = "Undefined" -> Join(shown, "", 1)
        [] T = "DateTime" -> V[1] \o V[2]
        [] T = "NaiveDateTime" -> WallSp(V[1])
        [] OTHER -> AnyVal
\* ---- accessors ----
Acc == CASE T = "U8" -> "as_u8" [] T = "I8" -> "as_i8" [] T = "U16" -> "as_u16" [] T = "I16" -> "as_i16" [] T = "U32" -> "as_u32" [] T = "I32" -> "as_i32"
         [] T = "U64" -> "as_u64" [] T = "I64" -> "as_i64" [] T = "F64" -> "as_f64" [] T = "Text" -> "as_str" [] T = "Undefined" -> "as_undefined"
         [] T = "URational" -> "as_urational" [] T = "IRational" -> "as_irational" [] T = "URationalArray" -> "as_urational_slice"
         [] T = "IRationalArray" -> "as_irational_slice" [] T = "U8Array" -> "as_u8_slice" [] T = "U16Array" -> "as_u16_slice" [] T = "U32Array" -> "as_u32_slice"
         [] T \in {"DateTime", "NaiveDateTime"} -> "as_datetime" [] OTHER -> ""
Canon == CASE T = "Text" -> Codes(V) [] T = "Undefined" -> V [] T = "DateTime" -> V[1] \o V[2] [] T = "NaiveDateTime" -> V[1] [] OTHER -> V
Accs == IF Acc = "" THEN <<>> ELSE << <<Acc, Canon>> >>
IntVal == IF T \in IntT THEN (IF Pos(V[1]) <= Pos("9223372036854775807") THEN V[1] ELSE "none") ELSE "none"
Flt == CASE T \in IntT -> (IF Pos(V[1]) <= Pos("9223372036854775807") THEN [i |-> Dbl(V[1])] ELSE OneOf(<<"none", [i |-> AnyVal]>>))
         [] T = "F64" -> [bits |-> V] [] T = "F32" -> [bits |-> Widen(V)]
         [] T \in RatT -> (IF V[1][2] = "0" THEN "none" ELSE [q |-> V[1]])
         [] OTHER -> "none"
\* signed to unsigned rational: equal or refused
Neg(x) == Pos(x) < Pos("0")
ToU == IF T # "IRational" THEN "n/a" ELSE IF Neg(V[1][1]) \/ Neg(V[1][2]) THEN "err" ELSE V[1]
\* three components make a coordinate, negative ones are refused
LatLngOf == IF T \notin RatArrT THEN "n/a"
            ELSE IF Len(V) < 3 THEN "err"
            ELSE IF \E k \in 1..3 : Neg(V[k][1]) \/ Neg(V[k][2]) THEN "err"
            ELSE <<V[1], V[2], V[3]>>
Date(fb) == CASE T = "DateTime" -> [aware |-> V[1] \o V[2], naive |-> V[1], or |-> V[1] \o V[2]]
              [] T = "NaiveDateTime" -> [aware |-> "none", naive |-> V[1], or |-> V[1] \o fb]
Fbs == <<"+00:00", "+09:30", "-11:00">>
Dates == IF T \in {"DateTime", "NaiveDateTime"} THEN [k \in 1..3 |-> Date(Fbs[k])] ELSE <<>>
Vector == [k |-> "value", suite |-> "value", id |-> val, fbs |-> Fbs,
           exp |-> [acc |-> Accs, int |-> IntVal, float |-> Flt, tou |-> ToU, latlng |-> LatLngOf, dates |-> Dates, disp |-> Disp, json |-> Js,
                    dback |-> IF T \in {"F32", "F64"} THEN V ELSE "n/a",
                    jback |-> IF T = "F32" /\ V \notin NonFinite32 THEN V ELSE IF T = "F64" /\ V \notin NonFinite64 THEN V ELSE IF T \in {"F32", "F64"} THEN AnyVal ELSE "n/a"]]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED <<val, shown>> /\ Emit(Vector)
Next == Show \/ Shown \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
