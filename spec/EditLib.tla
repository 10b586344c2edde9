------------------------------- MODULE EditLib ------------------------------
(* Edits of a file given as parts: bytes overwritten, and structures made    *)
(* shorter or longer, left out, repeated or unframed, with every size field  *)
(* around them in step.                                                      *)
EXTENDS Naturals, Integers, Sequences, TLC
LOCAL Has_(r, f) == f \in DOMAIN r
LOCAL Rep_(x, k) == [i \in 1..k |-> x]
\* ---- the places: those of every part that is not mere filler ----
RECURSIVE Leafs(_, _, _, _)
Leafs(ps, at, acc, fine) == IF ps = <<>> THEN acc ELSE
  LET p == ps[1]
      r == IF p.n = 0 THEN <<>> ELSE IF p.n <= fine THEN << <<at, at + p.n - 1>> >> ELSE << <<at, at + 3>>, <<at + p.n - 4, at + p.n - 1>> >> IN
  Leafs(Tail(ps), at + p.n, acc \o r, fine)
\* ---- the values ----
One(w, b) == Rep_(0, w - 1) \o <<b>>
OneL(w, b) == <<b>> \o Rep_(0, w - 1)
Pt1 == { <<0>>, <<1>>, <<127>>, <<128>>, <<255>> }
Pt2 == { <<0, 0>>, <<255, 255>>, <<0, 1>>, <<1, 0>>, <<127, 255>>, <<255, 127>>, <<128, 0>>, <<0, 128>> }
Pt4 == { Rep_(0, 4), Rep_(255, 4), One(4, 1), OneL(4, 1), <<127, 255, 255, 255>>, <<255, 255, 255, 127>>, <<128, 0, 0, 0>>, <<0, 0, 0, 128>>, One(4, 8), OneL(4, 8), <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<255, 255, 255, 240>>, <<240, 255, 255, 255>> }
Pt8 == { Rep_(0, 8), Rep_(255, 8), One(8, 1), <<127>> \o Rep_(255, 7), <<128>> \o Rep_(0, 7), <<0, 0, 0, 1, 0, 0, 0, 0>>, <<1>> \o Rep_(255, 7) }
PatsFew == Pt1 \cup {Rep_(255, 4), Rep_(0, 4), <<127, 255, 255, 255>>, <<255, 255, 255, 127>>, <<255, 255, 255, 240>>, Rep_(255, 8)}
PatsAll == Pt1 \cup Pt2 \cup Pt4 \cup Pt8
\* ---- the structures ----
RECURSIVE Heads(_, _, _)
Heads(ps, at, acc) == IF ps = <<>> THEN acc ELSE
  Heads(Tail(ps), at + ps[1].n, IF Has_(ps[1], "cov") THEN Append(acc, [at |-> at, w |-> ps[1].n, pre |-> ps[1].pre, end |-> at + ps[1].cov]) ELSE acc)
\* the fields of the structures around a place
Around(hs, a) == SelectSeq(hs, LAMBDA h : h.at + h.w <= a /\ a <= h.end)
Fix(hs, d) == [k \in 1..Len(hs) |-> [o |-> "size", at |-> hs[k].at, w |-> hs[k].w, d |-> d]]
Outer(hs, h) == SelectSeq(hs, LAMBDA g : g.at + g.w <= h.at - h.pre /\ h.end <= g.end)
Shorter(hs, h, keep) == LET d == h.end - h.at - h.w - keep IN Fix(Append(Outer(hs, h), h), -d) \o << [o |-> "del", at |-> h.at + h.w + keep, n |-> d] >>
Longer(hs, h, d) == Fix(Append(Outer(hs, h), h), d) \o << [o |-> "ins", at |-> h.end, n |-> d, v |-> 65] >>
Gone(hs, h) == LET d == h.end - h.at + h.pre IN Fix(Outer(hs, h), -d) \o << [o |-> "del", at |-> h.at - h.pre, n |-> d] >>
Twice(hs, h) == LET d == h.end - h.at + h.pre IN Fix(Outer(hs, h), d) \o << [o |-> "dup", at |-> h.at - h.pre, n |-> d] >>
\* the contents without the frame
Bare(hs, h) == LET d == h.at + h.w - (h.at - h.pre) IN Fix(Outer(hs, h), -d) \o << [o |-> "del", at |-> h.at - h.pre, n |-> d] >>
\* ---- a random list of edits ----
EditPats == PatsAll
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SeqOf(s \ {x})
BodyLen(h) == h.end - h.at - h.w
Near(x, u) == {y \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 31, 32, 33, 40, x \div 2, x - 1, x - 2, x - 3, x - 4, x - 8, u - u} : y >= 0 /\ y < x}
SizeEdit(hs, u) ==
  LET h == hs[RandomElement(1..(Len(hs) + u - u))]  o == RandomElement(1..(10 + u - u)) IN
  CASE o <= 5 /\ BodyLen(h) > 0 -> Shorter(hs, h, RandomElement(Near(BodyLen(h), u)))
    [] o = 6 -> Longer(hs, h, RandomElement({1, 2, 3, 4, 8, 100, 9000, u - u + 20000}))
    [] o = 7 -> Gone(hs, h) [] o = 8 -> Bare(hs, h) [] OTHER -> Twice(hs, h)
SetEdit(sp, u) == LET r == sp[RandomElement(1..(Len(sp) + u - u))] IN << [o |-> "set", at |-> RandomElement(r[1]..r[2]), b |-> RandomElement(EditPats)] >>
CutEdit(sp, u) == LET r == sp[RandomElement(1..(Len(sp) + u - u))] IN << [o |-> "cut", at |-> RandomElement(r[1]..r[2])] >>
RECURSIVE Edits(_, _, _, _)
Edits(hs, sp, k, u) == IF k = 0 THEN <<>> ELSE
  LET o == RandomElement(1..(9 + u - u)) IN
  (IF o = 1 THEN CutEdit(sp, u) ELSE IF o <= 5 /\ hs # <<>> THEN SizeEdit(hs, u) ELSE SetEdit(sp, u)) \o Edits(hs, sp, k - 1, u)
\* so many lists of one to three edits each
EditLists(parts, many) == LET hs == Heads(parts, 0, <<>>)  sp == Leafs(parts, 0, <<>>, 600) IN [k \in 1..many |-> Edits(hs, sp, RandomElement({1, 1 + k - k, 2, 3}), k)]
=============================================================================
