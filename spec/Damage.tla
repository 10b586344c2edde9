------------------------------- MODULE Damage ------------------------------
(* Any bytes whatever (C05): complete files of every format, edited. The    *)
(* file is the state, an edit is a step: a field of some width overwritten  *)
(* with an extreme value, the file cut, a range of it deleted, repeated or  *)
(* copied over another place. In every state every call of the interface    *)
(* returns, within memory linear in the size of the file.                   *)
(* SweepSpec: one edit, every place of every part that is not mere filler.  *)
(* WalkSpec: behaviours of several edits (-simulate).                       *)
EXTENDS Catalog, EditLib
CONSTANTS Names, Pats, Modes, Calls, Stride, Fine, Chunk, Agree, MaxEdits, Many, Base, Per
VARIABLES n, i, eds, sp, lists, phase    \* sp: the places of the chosen file
vars == <<n, i, eds, sp, lists, phase>>
\* ---- the places ----
FileParts == [x \in AllFiles |-> File(x).parts]
Total == [x \in AllFiles |-> Size(FileParts[x])]
Spots == [x \in AllFiles |-> Leafs(FileParts[x], 0, <<>>, Fine)]
NChunks(x) == (Len(Spots[x]) + Chunk - 1) \div Chunk
Out(v) == Emit(v @@ [k |-> "damage", suite |-> "damage", parts |-> FileParts[n], modes |-> Modes, calls |-> Calls, agree |-> Agree, base |-> Base, per |-> Per, secs |-> 20])
\* ---- one edit ----
SweepInit == sp = <<>> /\ lists = <<>> /\ n \in Names /\ i \in 1..NChunks(n) /\ eds = <<>> /\ phase = "go"
Sweep == phase = "go" /\ phase' = "done" /\ UNCHANGED <<n, i, eds, sp, lists>>
  /\ Out([id |-> <<n, i>>, spots |-> SubSeq(Spots[n], (i - 1) * Chunk + 1, Min2(i * Chunk, Len(Spots[n]))), pats |-> SetToSeq(Pats), stride |-> Stride, rot |-> RandomElement(0..(Stride - 1 + 0 * i))])
SweepSpec == SweepInit /\ [][Sweep]_vars
\* ---- one structure made shorter or longer, left out or repeated, with every size field around it in step ----
AllHeads == [x \in AllFiles |-> Heads(FileParts[x], 0, <<>>)]
NHeads == [x \in AllFiles |-> Len(AllHeads[x])]
Body(h) == h.end - h.at - h.w
Keeps(h) == {x \in 0..Fine : x < Body(h)} \cup {x \in {Body(h) - y : y \in 1..4} : x >= 0}
SizesInit == sp = <<>> /\ lists = <<>> /\ n \in Names /\ i \in 1..NHeads[n] /\ eds = <<>> /\ phase = "go"
Sizes == phase = "go" /\ phase' = "done" /\ UNCHANGED <<n, i, eds, sp, lists>>
  /\ LET hs == AllHeads[n]  h == hs[i]  ks == SetToSeq(Keeps(h)) IN
     Out([id |-> <<n, i, h>>, rot |-> i, edits |-> [k \in 1..Len(ks) |-> Shorter(hs, h, ks[k])] \o << Longer(hs, h, 1), Longer(hs, h, 3), Longer(hs, h, 8), Longer(hs, h, 100), Longer(hs, h, 9000), Gone(hs, h), Twice(hs, h), Bare(hs, h) >>])
SizesSpec == SizesInit /\ [][Sizes]_vars
\* ---- several edits ----
Spot(u) == LET r == sp[RandomElement(1..(Len(sp) + u - u))] IN RandomElement(r[1]..r[2])
Wid(u) == RandomElement({1, 2, 4, 8, 12, 20, 60, 200, 3000, u - u + 9000})
NextEdit(u) ==
  LET o == <<"set", "set", "set", "set", "set", "cut", "del", "dup", "copy">>[RandomElement(1..(9 + u - u))]  a == Spot(u) IN
  CASE o = "set" -> [o |-> o, at |-> a, b |-> RandomElement(Pats)]
    [] o = "cut" -> [o |-> o, at |-> a]
    [] o \in {"del", "dup"} -> [o |-> o, at |-> a, n |-> Wid(u)]
    [] OTHER -> [o |-> o, at |-> a, n |-> Wid(u), to |-> Spot(u + 1)]
WalkInit == n \in Names /\ i = 0 /\ eds = <<>> /\ sp = <<>> /\ lists = <<>> /\ phase = "go"
Step == phase = "go" /\ Len(eds) < i /\ eds' = Append(eds, NextEdit(Len(eds))) /\ UNCHANGED <<n, i, sp, lists, phase>>
Plan == phase = "go" /\ i = 0 /\ Len(lists) < Many /\ i' = RandomElement(1..(MaxEdits + Len(eds))) /\ sp' = Spots[n] /\ UNCHANGED <<n, eds, lists, phase>>
Made == phase = "go" /\ i > 0 /\ Len(eds) = i /\ i' = 0 /\ eds' = <<>> /\ lists' = Append(lists, eds) /\ UNCHANGED <<n, sp, phase>>
Done == phase = "go" /\ Len(lists) = Many /\ phase' = "done" /\ UNCHANGED <<n, i, eds, sp, lists>>
  /\ Out([id |-> <<n, lists[1]>>, edits |-> lists, rot |-> RandomElement(0..(11 + 0 * i))])
WalkSpec == WalkInit /\ [][Plan \/ Step \/ Made \/ Done]_vars
\* an edit never leaves the file
InFile == \A k \in 1..Len(eds) : eds[k].at <= sp[Len(sp)][2]
=============================================================================
