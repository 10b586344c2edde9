-------------------------------- MODULE Lay --------------------------------
(* Byte layout language shared by all format specifications, and the        *)
(* vector emission used to bind them to the implementation.                 *)
(* A file is a sequence of parts; every part records its own size in n, so  *)
(* the specification computes lengths and offsets itself.                   *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, CSV, IOUtils
EDIT == INSTANCE EditLib

Has(r, f) == f \in DOMAIN r
B(bytes)  == [b |-> bytes, n |-> Len(bytes)]      \* literal bytes
S(str)    == [s |-> str, n |-> Len(str)]          \* ASCII
U2(x)     == [u2 |-> x, n |-> 2]
U3(x)     == [u3 |-> x, n |-> 3]
U4(x)     == [u4 |-> x, n |-> 4]
U8(x)     == [u8 |-> x, n |-> 8]
L2(x)     == [l2 |-> x, n |-> 2]
L4(x)     == [l4 |-> x, n |-> 4]
Z(k, v)   == [z |-> k, v |-> v, n |-> k]          \* k bytes of value v
Rnd(k)    == [r |-> k, n |-> k]                   \* k pseudo random bytes

RECURSIVE SizeFrom(_, _, _)
SizeFrom(ps, i, acc) == IF i > Len(ps) THEN acc ELSE SizeFrom(ps, i + 1, acc + ps[i].n)
Size(ps)  == SizeFrom(ps, 1, 0)
\* p is a size field: with the pre bytes before it, it heads a structure that ends len bytes behind its start
Covers(p, pre, len) == p @@ [pre |-> pre, cov |-> len]
Grp(ps)   == [p |-> ps, n |-> Size(ps)]

RECURSIVE CatFrom(_, _, _)
CatFrom(ss, i, acc) == IF i > Len(ss) THEN acc ELSE CatFrom(ss, i + 1, acc \o ss[i])
Cat(ss)   == CatFrom(ss, 1, <<>>)                 \* concatenation of a sequence of sequences

Map(f(_), s)    == [i \in 1..Len(s) |-> f(s[i])]
Filter(s, P(_)) == SelectSeq(s, P)
Rep(x, k)       == [i \in 1..k |-> x]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* --- integers as bytes (sequences of 0..255) ---
LE2(x) == <<x % 256, x \div 256>>
BE2(x) == <<x \div 256, x % 256>>
LE4(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216>>
BE4(x) == <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
I2(e, x) == IF e = "II" THEN LE2(x) ELSE BE2(x)
I4(e, x) == IF e = "II" THEN LE4(x) ELSE BE4(x)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
PadTo(s, k) == IF Len(s) >= k THEN s ELSE s \o Rep(0, k - Len(s))

\* --- expected-answer patterns (see harness/src/cmp.rs) ---
AnyVal     == [xany |-> TRUE]
OneOf(s)   == [xin |-> s]
Codes(s)   == [xcodes |-> s]
RepStr(c, k) == [xrep |-> <<c, k>>]
Err(c)     == [err |-> c]

\* --- emission ---
OutFile == IOEnv.NX_OUT
\* In a run with NX_DAMAGE the file is given with random edits instead of its answers:
\* whatever the bytes, every call returns ("agree": with the same answer on every access path).
Damaged(v) == [k |-> "damage", suite |-> v.suite, id |-> v.id, parts |-> v.parts, edits |-> EDIT!EditLists(v.parts, 12), rot |-> RandomElement(0..(11 + 0 * Len(v.parts))),
  modes |-> <<"Mem", "Seek", "Unseek", "AMem", "ASeek", "AUnseek">>, calls |-> <<"exif", "track", "imeta">>, agree |-> IOEnv.NX_DAMAGE = "agree", base |-> 4000000, per |-> 64, secs |-> 20]
Emit(v) == CSVWrite("%1$s", <<ToJson(IF "NX_DAMAGE" \in DOMAIN IOEnv THEN Damaged(v) ELSE v)>>, OutFile)
=============================================================================
