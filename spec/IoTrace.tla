------------------------------ MODULE IoTrace ------------------------------
(* The calls a parse made on the caller's reader, checked one by one (C02):  *)
(* reads continue where the last call stopped; seeks only happen on seekable *)
(* readers, are relative and never go back; payload that is declared as such *)
(* is not read (but for a bounded part), nor is what follows the metadata.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.NX_TRACE)
VARIABLES i, j, pos, over, waste, ok
vars == <<i, j, pos, over, waste, ok>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Overlap(a, b, lo, hi) == IF Min(b, hi) > Max(a, lo) THEN Min(b, hi) - Max(a, lo) ELSE 0
NTr == Len(Traces)
Zero(t) == [k \in 1..Len(t.skips) |-> 0]
Init == i = 1 /\ j = 1 /\ pos = 0 /\ over = 0 /\ ok = TRUE /\ waste = (IF NTr = 0 THEN <<>> ELSE Zero(Traces[1]))
T == Traces[i]
E == T.ev[j]
Active == ok /\ i <= NTr
Reject == PrintT(<<"REJECTED", i, j>>) /\ ok' = FALSE /\ UNCHANGED <<i, j, pos, over, waste>>
ReadOk == E[2] = pos /\ E[4] <= E[3]
Read == /\ pos' = E[2] + E[4]
        /\ over' = over + (IF E[2] + E[4] > T.end THEN E[2] + E[4] - Max(E[2], T.end) ELSE 0)
        /\ waste' = [k \in 1..Len(T.skips) |-> waste[k] + Overlap(E[2], E[2] + E[4], T.skips[k].lo, T.skips[k].hi)]
        /\ j' = j + 1 /\ UNCHANGED <<i, ok>>
SeekOk == T.seekable /\ E[2] = pos /\ E[4] = 1 /\ E[3] >= E[2]
Seek == pos' = E[3] /\ j' = j + 1 /\ UNCHANGED <<i, over, waste, ok>>
Step == /\ Active /\ j <= Len(T.ev)
        /\ IF E[1] = 0 THEN (IF ReadOk THEN Read ELSE Reject) ELSE (IF SeekOk THEN Seek ELSE Reject)
EndOk == over <= T.slack /\ (T.seekable => \A k \in 1..Len(T.skips) : waste[k] <= T.slack)
End == /\ Active /\ j > Len(T.ev)
       /\ IF EndOk THEN /\ i' = i + 1 /\ j' = 1 /\ pos' = 0 /\ over' = 0 /\ UNCHANGED ok
                        /\ waste' = (IF i < NTr THEN Zero(Traces[i + 1]) ELSE <<>>)
          ELSE Reject
Spec == Init /\ [][Step \/ End]_vars
Accepted == ok
=============================================================================
