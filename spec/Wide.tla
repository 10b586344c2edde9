-------------------------------- MODULE Wide --------------------------------
(* TIFF blocks that are large in number instead of deep: long chains of      *)
(* directories, directories of thousands of entries, and many entries whose  *)
(* values share the same bytes. Every entry and every directory is delivered *)
(* once, in order, with its own value (C12, C13), lazily and eagerly (C16).  *)
EXTENDS IfdLib, EagerLib
CONSTANTS Kinds, Counts, Endian, Mode
VARIABLES c, phase
KindsAll == {"chain", "back", "many", "shared", "overlap"}
I2P(x) == IF c.e = "II" THEN L2(x) ELSE U2(x)
I4P(x) == IF c.e = "II" THEN L4(x) ELSE U4(x)
Head0(at) == <<B(IF c.e = "II" THEN <<73, 73, 42, 0>> ELSE <<77, 77, 0, 42>>), I4P(at)>>
\* p parts per index: part k of the whole is part ((k-1) % p) + 1 of index (k-1) \div p + 1
Flat(n, p, f(_)) == LET t == [i \in 1..n |-> f(i)] IN [k \in 1..(n * p) |-> t[1 + ((k - 1) \div p)][1 + ((k - 1) % p)]]
\* a directory of one SHORT
Dir1(k, next) == <<I2P(1), I2P(50000 + (k % 3)), I2P(3), I4P(1), I2P(k), I2P(0), I4P(next)>>
DirAt(i) == 8 + 18 * (i - 1)
\* directory k of the chain lies at place Pl(k)
Pl(k) == IF c.kind = "back" /\ k > 1 THEN c.n + 2 - k ELSE k
Chain == Head0(8) \o Flat(c.n, 7, LAMBDA i : LET k == Pl(i) IN Dir1(k, IF k = c.n THEN 0 ELSE DirAt(Pl(k + 1))))
ChainEnts == [k \in 1..c.n |-> <<k - 1, 50000 + (k % 3), <<"U16", <<k>> >> >>]
\* a directory of n entries, each a LONG of its own
Many == Head0(8) \o <<I2P(c.n)>> \o Flat(c.n, 4, LAMBDA k : <<I2P(40000 + k), I2P(4), I4P(1), I4P(70000 + 3 * k)>>) \o <<I4P(0)>>
ManyEnts == [k \in 1..c.n |-> <<0, 40000 + k, <<"U32", << HL(70000 + 3 * k) >> >> >>]
\* n entries, all of them the same L bytes of text
TextLen == 700
DataAt == 8 + 2 + 12 * c.n + 4
Sh(k) == IF c.kind = "overlap" THEN k % 256 ELSE 0
Shared == Head0(8) \o <<I2P(c.n)>> \o Flat(c.n, 4, LAMBDA k : <<I2P(40000 + k), I2P(2), I4P(TextLen - Sh(k)), I4P(DataAt + Sh(k))>>) \o <<I4P(0), Z(TextLen - 1, 81), B(<<0>>)>>
SharedEnts == [k \in 1..c.n |-> <<0, 40000 + k, <<"Text", [xrep |-> <<81, TextLen - 1 - Sh(k)>>]>> >>]
Parts == (CASE c.kind \in {"chain", "back"} -> Chain [] c.kind = "many" -> Many [] OTHER -> Shared) \o <<Z(160, 0)>>
Ents == CASE c.kind \in {"chain", "back"} -> ChainEnts [] c.kind = "many" -> ManyEnts [] OTHER -> SharedEnts
Init == c \in [kind : Kinds, n : Counts, e : Endian] /\ phase = "go"
Want == [entries |-> Ents, embedded |-> FALSE, gps |-> "none"]
Give == phase = "go" /\ phase' = "done" /\ UNCHANGED c
        /\ Emit([k |-> "meta", suite |-> "wide", id |-> c, paths |-> Mode, parts |-> Parts,
                 exp |-> [kind |-> "Image", exif |-> [ok |-> Want], eager |-> EagerOf(Ents, {}, "none", FALSE)]])
Spec == Init /\ [][Give]_<<c, phase>>
=============================================================================
