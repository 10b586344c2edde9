-------------------------------- MODULE Iso --------------------------------
(* GPSInfo::from_str: every ISO 6709 spelling of a position gives that       *)
(* position, and nothing else is accepted in its place (C18).                *)
EXTENDS Lay, FiniteSets
CONSTANTS LatU, LonU,     \* positions in hundredths of an arc second (ids below)
          Forms, Alts, Spaces, Pick
FormAll == {"dec", "dec1", "letters", "dm", "dms", "dmsint", "human"}
AltAll == {"none", "int", "frac", "frac2", "neg", "zero", "negzero", "nocrs", "big", "big1", "big2", "big3", "mid1", "mid2", "mid3", "low1", "low2", "low3", "bad"}
BadAll == {"empty", "nolon", "junk", "lat91", "lon181", "min60", "sec60", "onesign", "twodigitlon", "comma"}
Bads == BadAll
VARIABLES c, phase
vars == <<c, phase>>
\* multiples of 18 hundredths (5e-5 degrees) that are also multiples of 6 (1/1000 minute)
Pos(k) == CASE k = 0 -> 0 [] k = 1 -> 18 [] k = 2 -> 26 * 360000 + 31 * 6000 + 5574 [] k = 3 -> 89 * 360000 + 59 * 6000 + 5982
            [] k = 4 -> 90 * 360000 [] k = 5 -> 12 * 360000 + 6012 [] k = 6 -> 359982 [] k = 7 -> 179 * 360000 + 59 * 6000 + 5982 [] k = 8 -> 180 * 360000
            [] k = 9 -> 9 * 360000 + 30 * 6000 + 1800 [] k = 10 -> 99 * 360000 + 9 * 6000 + 900
Cases == [lat : LatU, lon : LonU, sa : {1, 0 - 1}, so : {1, 0 - 1}, form : Forms, alt : Alts, sp : Spaces]
Init == phase = "give" /\ c \in {[good |-> TRUE, x |-> r, bad |-> "no"] : r \in Cases} \cup {[good |-> FALSE, x |-> 0, bad |-> b] : b \in Bads}
Dg(x) == <<48 + x>>
RECURSIVE Digits(_, _)
Digits(x, n) == IF n = 0 THEN <<>> ELSE Digits(x \div 10, n - 1) \o Dg(x % 10)
Degs(u) == u \div 360000
MinH(u) == u % 360000
Dot == <<46>>
Sign(s, lat, letter) == IF letter THEN (IF lat THEN (IF s = 1 THEN <<78>> ELSE <<83>>) ELSE (IF s = 1 THEN <<69>> ELSE <<87>>))
                        ELSE IF s = 1 THEN <<43>> ELSE <<45>>
Angle(u, w, form) ==
  CASE form \in {"dec", "letters"} -> LET r == (u \div 18) * 5 IN Digits(r \div 100000, w) \o Dot \o Digits(r % 100000, 5)
    [] form = "dec1" -> LET r == (u \div 18) * 5 IN Digits(r \div 100000, w) \o Dot \o Digits(r % 100000, 5) \o <<48, 48, 48>>
    [] form = "dm"  -> Digits(Degs(u), w) \o Digits(MinH(u) \div 6000, 2) \o Dot \o Digits((MinH(u) % 6000) \div 6, 3)
    [] form = "dms" -> Digits(Degs(u), w) \o Digits(MinH(u) \div 6000, 2) \o Digits((MinH(u) % 6000) \div 100, 2) \o Dot \o Digits(MinH(u) % 100, 2)
    [] form = "dmsint" -> Digits(Degs(u), w) \o Digits(MinH(u) \div 6000, 2) \o Digits((MinH(u) % 6000) \div 100, 2)
    [] form = "human" -> Digits(Degs(u), w) \o <<176>> \o Digits(MinH(u) \div 6000, 2) \o <<8242>> \o Digits((MinH(u) % 6000) \div 100, 2) \o Dot \o Digits(MinH(u) % 100, 2) \o <<48, 8243>>
Crs == <<67, 82, 83, 87, 71, 83, 95, 56, 52>>
Human == c.x.form = "human"
AltTxt == IF Human
  THEN CASE c.x.alt = "int" -> <<32, 49, 50, 51, 109>> [] c.x.alt = "frac" -> <<32, 49, 50, 46, 51, 52, 53, 109>> [] c.x.alt = "frac2" -> <<32, 49, 46, 48, 48, 49, 109>>
         [] c.x.alt = "neg" -> <<32, 45, 55, 46, 53, 109>> [] OTHER -> <<>>
  ELSE CASE c.x.alt = "int" -> <<43, 49, 50, 51>> \o Crs [] c.x.alt = "frac" -> <<43, 49, 50, 46, 51, 52, 53>> \o Crs [] c.x.alt = "frac2" -> <<45, 49, 46, 48, 48, 49>> \o Crs
         [] c.x.alt = "neg" -> <<45, 55, 46, 53>> \o Crs [] c.x.alt = "zero" -> <<43, 48>> \o Crs [] c.x.alt = "negzero" -> <<45, 48, 46, 48>> \o Crs
         [] c.x.alt = "nocrs" -> <<43, 49, 50, 51>> [] c.x.alt = "big" -> <<43, 52, 48, 48, 48, 48, 48, 48>> \o Crs
         [] c.x.alt = "big1" -> <<45>> \o Digits(5000000, 7) \o Dot \o <<50>> \o Crs [] c.x.alt = "big2" -> <<43>> \o Digits(42949673, 8) \o Dot \o <<52>> \o Crs [] c.x.alt = "big3" -> <<45>> \o Digits(999999999, 9) \o Crs
         [] c.x.alt = "mid1" -> <<43>> \o Digits(3000000, 7) \o <<46, 49, 50, 53>> \o Crs [] c.x.alt = "mid2" -> <<45>> \o Digits(20000000, 8) \o <<46, 50, 53>> \o Crs [] c.x.alt = "mid3" -> <<43>> \o Digits(300000000, 9) \o <<46, 51>> \o Crs
         [] c.x.alt = "low1" -> <<45, 48, 46, 51>> \o Crs [] c.x.alt = "low2" -> <<43, 48, 46, 48, 48, 55>> \o Crs [] c.x.alt = "low3" -> <<45, 48, 46, 57, 57, 57>> \o Crs
         [] c.x.alt = "bad" -> <<43, 46>> \o Crs [] OTHER -> <<>>
AltMm == CASE c.x.alt = "int" -> 123000 [] c.x.alt = "frac" -> 12345 [] c.x.alt = "frac2" -> (IF Human THEN 1001 ELSE 0 - 1001) [] c.x.alt = "neg" -> 0 - 7500
           [] c.x.alt \in {"zero", "negzero"} -> (IF Human THEN "none" ELSE 0)
           [] c.x.alt \in {"big", "big1", "big2", "big3", "mid1", "mid2", "mid3"} -> (IF Human THEN "none" ELSE AnyVal)
           [] c.x.alt \in {"low1", "low2", "low3"} -> (IF Human THEN "none" ELSE IF c.x.alt = "low1" THEN 0 - 300 ELSE IF c.x.alt = "low2" THEN 7 ELSE 0 - 999) [] OTHER -> "none"
\* heights beyond 32 bits of millimetres, in metres
AltM == IF Human THEN AnyVal ELSE CASE c.x.alt = "big" -> 4000000 [] c.x.alt = "big1" -> 0 - 5000000 [] c.x.alt = "big2" -> 42949673 [] c.x.alt = "big3" -> 0 - 999999999
        [] c.x.alt = "mid1" -> 3000000 [] c.x.alt = "mid2" -> 0 - 20000000 [] c.x.alt = "mid3" -> 300000000 [] OTHER -> AnyVal
\* thousandths of a metre, where the unit of the stored value has room for them
AltF == IF Human THEN AnyVal ELSE CASE c.x.alt = "mid1" -> 125 [] c.x.alt = "mid2" -> 250 [] c.x.alt = "mid3" -> 300 [] OTHER -> AnyVal
Tail1 == IF Human THEN <<>> ELSE <<47>>
\* whole seconds only where the form has no decimals
Used(u) == IF c.x.form = "dmsint" THEN (u \div 1800) * 1800 ELSE u
La == Used(Pos(c.x.lat))
Lo == Used(Pos(c.x.lon))
Text == IF c.good THEN
     c.x.sp \o (IF Human THEN Angle(La, 2, "human") \o Sign(c.x.sa, TRUE, TRUE) \o <<32>> \o Angle(Lo, 3, "human") \o Sign(c.x.so, FALSE, TRUE)
     ELSE Sign(c.x.sa, TRUE, c.x.form = "letters") \o Angle(La, 2, c.x.form) \o Sign(c.x.so, FALSE, c.x.form = "letters") \o Angle(Lo, 3, c.x.form))
     \o AltTxt \o Tail1 \o c.x.sp
  ELSE CASE c.bad = "empty" -> <<>> [] c.bad = "nolon" -> <<43, 49, 50, 46, 53, 47>> [] c.bad = "junk" -> <<104, 105>>
         [] c.bad = "lat91" -> <<43, 57, 49, 46, 48, 43, 48, 48, 49, 46, 48, 47>>
         [] c.bad = "lon181" -> <<43, 49, 49, 46, 48, 43, 49, 56, 49, 46, 48, 47>>
         [] c.bad = "min60" -> <<43, 49, 49, 54, 48, 43, 49, 48, 49, 48, 48, 47>>
         [] c.bad = "sec60" -> <<43, 49, 49, 48, 48, 54, 48, 43, 49, 48, 49, 48, 48, 48, 48, 47>>
         [] c.bad = "onesign" -> <<43, 49, 49, 46, 53, 49, 48, 49, 46, 53, 47>>
         [] c.bad = "twodigitlon" -> <<43, 49, 49, 46, 53, 43, 49, 46, 53, 47>>
         [] c.bad = "comma" -> <<43, 49, 49, 46, 53, 44, 43, 48, 48, 49, 46, 53, 47>>
Spaces0 == {<<>>}
Spaces2 == {<<>>, <<32>>, <<9, 10>>}
Sg(s, u) == IF s = 1 THEN u ELSE 0 - u
R(n, d) == <<<<n \div 65536, n % 65536>>, <<d \div 65536, d % 65536>>>>
LL(u) == <<R(u \div 360000, 1), R((u % 360000) \div 6000, 1), R(u % 6000, 100)>>
\* minutes and seconds stay below sixty
Exact == \A k \in 0..10 : Pos(k) % 18 = 0
Normal == c.good => MinH(La) \div 6000 < 60 /\ La <= 90 * 360000 /\ Lo <= 180 * 360000
Exp == IF ~c.good THEN "err"
       ELSE [rec |-> [latref |-> IF c.x.sa = 1 \/ La = 0 THEN "N" ELSE "S", lonref |-> IF c.x.so = 1 \/ Lo = 0 THEN "E" ELSE "W",
                      lat |-> LL(La), lon |-> LL(Lo), speed |-> "none"],
             dec |-> [lat |-> Sg(c.x.sa, La), lon |-> Sg(c.x.so, Lo), alt |-> AltMm, altm |-> AltM, altf |-> AltF]]
Vector == [k |-> "iso", suite |-> "iso", id |-> c, s |-> Text, exp |-> Exp]
Give == phase = "give" /\ phase' = "done" /\ UNCHANGED c /\ Emit(Vector)
Next == Give
Spec == Init /\ [][Next]_vars
=============================================================================
