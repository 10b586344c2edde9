------------------------------- MODULE Faults ------------------------------
(* A reader or seeker that fails (C23). The parse is a process issuing read *)
(* and seek calls on the reader; the environment may make any one of them   *)
(* (or all from some point on) fail. Whatever the calls are, the parse ends *)
(* in one of two ways: with the right answer, or with the reader's error;   *)
(* an answer formed from what was read up to the failure is neither. The    *)
(* right answer is given only if it was complete without the failed call:   *)
(* after it the parse makes no further call (a failed call is not retried). *)
(* The harness enumerates the failing call: 0, 1, 2, ... until the parse    *)
(* does not reach it any more.                                              *)
EXTENDS Catalog
CONSTANTS Names, Calls, Modes, Scheds, Kinds, Stickies
VARIABLES n, c, m, s, k, t, phase
vars == <<n, c, m, s, k, t, phase>>
Init == n \in Names /\ c \in Calls /\ m \in Modes /\ s \in Scheds /\ k \in Kinds /\ t \in Stickies /\ phase = "go"
\* the class under which an I/O error of a kind is reported
Class(x) == IF x = "UnexpectedEof" THEN "Eof" ELSE "Io:" \o x
\* looking for the video behind a photo is an extra: when it fails, the hint stays clear
Hint(v) == [v EXCEPT !.ok.embedded = AnyVal]
HintE(v) == [v EXCEPT !.ok.embedded = AnyVal]
HintM(v) == [v EXCEPT !.ok.exif.embedded = AnyVal]
Right(a, call) == IF n # "motion" THEN a ELSE IF call \in {"exif", "eager"} THEN Hint(a) ELSE IF call = "imeta" THEN HintM(a) ELSE a
Ans(call) == IF call = "eager" THEN (IF File(n).has THEN [ok |-> EagerAns(n)] ELSE Answer(n, "exif")) ELSE Answer(n, call)
Vector == [k |-> "fault", suite |-> "faults", id |-> <<n, c, m, s, k, t>>, parts |-> File(n).parts, call |-> c, mode |-> m, sched |-> s, kind |-> k, sticky |-> t,
           exp |-> Ans(c), fexp |-> OneOf(<<Err(Class(k)), Right(Ans(c), c)>>)]
Give == phase = "go" /\ phase' = "done" /\ UNCHANGED <<n, c, m, s, k, t>> /\ Emit(Vector)
Spec == Init /\ [][Give]_vars
=============================================================================
