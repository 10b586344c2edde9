------------------------------ MODULE Session ------------------------------
(* Histories of one MediaParser and the results obtained from it (C03, C04,  *)
(* C15): the parser recycles its buffer between parses, results share it.    *)
(* The specification says which file every handle must keep showing and at   *)
(* which entry it stands, whatever else happened in between.                 *)
EXTENDS Catalog

CONSTANTS Files, Calls, Modes, Scheds,
          Ops,         \* the operations used
          MaxH,        \* handles (slots)
          MaxLen,      \* length of a history
          Recycle      \* "unshared": the cached buffer is written only when nothing refers to it

Slots == 1..MaxH
VARIABLES hs,       \* slot -> handle
          cached,   \* the buffer the parser keeps for its next parse (0: none)
          content,  \* buffer -> the file whose bytes it holds
          ops, phase
vars == <<hs, cached, content, ops, phase>>

\* ---- answers, computed once ----
FileF == [n \in AllFiles \cup Files |-> File(n)]
NEnt  == [n \in AllFiles \cup Files |-> Len(FileF[n].es)]
CallAns(n) == [exif |-> Answer(n, "exif"), track |-> Answer(n, "track"), imeta |-> Answer(n, "imeta"),
               eager |-> IF FileF[n].has THEN [ok |-> EagerAns(n)] ELSE Answer(n, "exif")]
AnsF  == [n \in AllFiles \cup Files |-> CallAns(n)]
Partf == [n \in AllFiles \cup Files |-> FileF[n].parts]

None == [live |-> FALSE, f |-> "", pos |-> 0, kind |-> "", buf |-> 0]
Memory == {"Mem", "MemOld", "AMem"}
Live == {h \in Slots : hs[h].live}
Dead == Slots \ Live
Shared(b) == \E h \in Live : hs[h].buf = b
\* the buffer the next streaming parse writes to
Target == IF cached # 0 /\ (Recycle = "always" \/ ~Shared(cached)) THEN cached ELSE Len(content) + 1
Fill(b, f) == IF b > Len(content) THEN Append(content, f) ELSE [content EXCEPT ![b] = f]
MinSlot == CHOOSE h \in Dead : \A k \in Dead : h <= k

Init == /\ hs = [h \in Slots |-> None] /\ cached = 0 /\ content = <<>> /\ ops = <<>> /\ phase = "run"

Log(o) == ops' = Append(ops, o)
Keeps(f, call) == call \in {"exif", "imeta"} /\ FileF[f].has
\* a parse of file f; the result is consumed at once (keep = FALSE) or kept
Parse(f, call, m, s, keep) ==
  LET b == Target
      k == keep /\ Keeps(f, call) /\ Dead # {}
      mem == m \in Memory
  IN /\ IF mem THEN UNCHANGED <<cached, content>> ELSE cached' = b /\ content' = Fill(b, f)
     /\ IF k THEN hs' = [hs EXCEPT ![MinSlot] = [live |-> TRUE, f |-> f, pos |-> 0, kind |-> "iter", buf |-> IF mem THEN 0 ELSE b]]
        ELSE UNCHANGED hs
     /\ Log([op |-> "parse", f |-> f, call |-> call, mode |-> m, sched |-> s, keep |-> IF k THEN MinSlot ELSE 0, fresh |-> f \in Bads])
\* a parse interrupted by an I/O error at the n-th call of the reader, or an
\* async parse dropped after n polls
Broken(o, f, call, m, s, n) ==
  /\ cached' = Target /\ content' = Fill(Target, f) /\ UNCHANGED hs
  /\ Log([op |-> o, f |-> f, call |-> call, mode |-> m, sched |-> s, at |-> n])
NewParser == cached' = 0 /\ UNCHANGED <<hs, content>> /\ Log([op |-> "newparser"])
Same == UNCHANGED <<cached, content>>
To(h, p) == hs' = [hs EXCEPT ![h].pos = p]
Rem(h) == NEnt[hs[h].f] - hs[h].pos
Take(h, n) == /\ Same /\ To(h, hs[h].pos + Min2(n, Rem(h)))
              /\ Log([op |-> "take", h |-> h, f |-> hs[h].f, at |-> hs[h].pos, n |-> n])
Drain(h, o) == /\ Same /\ To(h, NEnt[hs[h].f]) /\ Log([op |-> o, h |-> h, f |-> hs[h].f, at |-> hs[h].pos])
Copy(h, o) == /\ Same /\ hs' = [hs EXCEPT ![MinSlot] = [hs[h] EXCEPT !.pos = 0]] /\ Log([op |-> o, h |-> h, to |-> MinSlot])
Rewind(h) == Same /\ To(h, 0) /\ Log([op |-> "rewind", h |-> h])
\* the whole sequence again and again: rewound (or copied) and drained each time
Rounds(h, o) == /\ Same /\ To(h, 0) /\ Log([op |-> o, h |-> h, f |-> hs[h].f, at |-> hs[h].pos, n |-> 40])
Look(h, o) == Same /\ UNCHANGED hs /\ Log([op |-> o, h |-> h, f |-> hs[h].f, at |-> hs[h].pos])
ToExif(h) == Same /\ hs' = [hs EXCEPT ![h].kind = "eager"] /\ Log([op |-> "toexif", h |-> h])
Drop(h) == Same /\ hs' = [hs EXCEPT ![h] = None] /\ Log([op |-> "drop", h |-> h])
\* another thread drains the handle while this one parses
Par(h, f, call, m, s) ==
  /\ IF m \in Memory THEN UNCHANGED <<cached, content>> ELSE cached' = Target /\ content' = Fill(Target, f)
  /\ To(h, NEnt[hs[h].f])
  /\ Log([op |-> "par", h |-> h, hf |-> hs[h].f, at |-> hs[h].pos, f |-> f, call |-> call, mode |-> m, sched |-> s, fresh |-> f \in Bads])

\* ---- what must hold: a live result's bytes are those of its own file ----
Intact == \A h \in Slots : hs[h].live /\ hs[h].buf # 0 => content[hs[h].buf] = hs[h].f
InRange == \A h \in Slots : hs[h].live => hs[h].pos <= NEnt[hs[h].f]

\* ---- the vector: every live handle is drained at the end, rewound and drained again ----
Closing == Cat([h \in Slots |-> IF ~hs[h].live THEN <<>>
             ELSE IF hs[h].kind = "eager" THEN <<[op |-> "read", h |-> h, f |-> hs[h].f, at |-> 0]>>
             ELSE <<[op |-> "gps", h |-> h, f |-> hs[h].f, at |-> hs[h].pos], [op |-> "drain", h |-> h, f |-> hs[h].f, at |-> hs[h].pos],
                    [op |-> "rewind", h |-> h], [op |-> "drain", h |-> h, f |-> hs[h].f, at |-> 0]>>])
Used == {ops[i].f : i \in {j \in 1..Len(ops) : Has(ops[j], "f")}}
Vector == [k |-> "session", suite |-> "session", id |-> ops, files |-> [n \in Used |-> Partf[n]], ans |-> [n \in Used |-> AnsF[n]], ops |-> ops \o Closing]
Give == phase = "run" /\ Len(ops) = MaxLen /\ phase' = "done" /\ UNCHANGED <<hs, cached, content, ops>> /\ Emit(Vector)

Iters == {h \in Live : hs[h].kind = "iter"}
Eagers == {h \in Live : hs[h].kind = "eager"}
On(o) == o \in Ops
Run == phase = "run" /\ Len(ops) < MaxLen /\ UNCHANGED phase

\* every possible step
All == /\ Run
       /\ \/ \E f \in Files, c \in Calls, m \in Modes, s \in Scheds : (On("parse") /\ Parse(f, c, m, s, FALSE)) \/ (On("keep") /\ Dead # {} /\ Keeps(f, c) /\ Parse(f, c, m, s, TRUE))
          \/ On("newparser") /\ NewParser
          \/ \E h \in Iters : \/ On("next") /\ Take(h, 1)
                              \/ On("take") /\ \E n \in {2, 7} : Take(h, n)
                              \/ On("drain") /\ Drain(h, "drain")
                              \/ On("thread") /\ Drain(h, "thread")
                              \/ On("clone") /\ Dead # {} /\ Copy(h, "clone")
                              \/ On("rewound") /\ Dead # {} /\ Copy(h, "rewound")
                              \/ On("rewind") /\ Rewind(h)
                              \/ On("rounds") /\ Rounds(h, "rounds")
                              \/ On("copies") /\ Rounds(h, "copies")
                              \/ On("gps") /\ Look(h, "gps")
                              \/ On("toexif") /\ hs[h].pos = 0 /\ ToExif(h)
          \/ \E h \in Eagers : On("toexif") /\ Look(h, "read")
          \/ \E h \in Live : On("drop") /\ Drop(h)
ExSpec == Init /\ [][All \/ Give]_vars

\* one random step (simulation): RandomElement draws from TLC's seeded generator
RF(i) == RandomElement(Files)
RC(i) == RandomElement(Calls)
RM(i) == RandomElement(Modes)
RS(i) == RandomElement(Scheds)
RandParse(i) == Parse(RF(i), RC(i), RM(i), RS(i), On("keep") /\ RandomElement(1..3) > 1)
RandBroken(i) == IF RandomElement(1..2) = 1 THEN Broken("fault", RF(i), RC(i), RandomElement({"Seek", "Unseek", "ASeek", "AUnseek"}), RS(i), RandomElement(0..9))
                 ELSE Broken("cancel", RF(i), RC(i), RandomElement({"ASeek", "AUnseek"}), RS(i), RandomElement(1..12))
OnIter(i, h, o) ==
  CASE o = "next" -> Take(h, 1)
    [] o = "take" -> Take(h, RandomElement(2..16))
    [] o \in {"drain", "thread"} -> Drain(h, o)
    [] o \in {"clone", "rewound"} -> IF Dead # {} THEN Copy(h, o) ELSE Drop(h)
    [] o = "rewind" -> Rewind(h)
    [] o \in {"gps", "emb", "debug", "intoclone"} -> Look(h, o)
    [] o = "toexif" -> IF hs[h].pos = 0 THEN ToExif(h) ELSE Rewind(h)
    [] o = "par" -> Par(h, RF(i), RC(i), RM(i), RS(i))
    [] o = "drop" -> Drop(h)
HandleOps == Ops \cap {"next", "take", "drain", "thread", "clone", "rewound", "rewind", "gps", "emb", "debug", "intoclone", "toexif", "par", "drop"}
RandHandle(i, h) == IF hs[h].kind = "eager" THEN (IF RandomElement(1..4) = 1 THEN Drop(h) ELSE Look(h, "read"))
                    ELSE OnIter(i, h, RandomElement(HandleOps))
RandStep(i) ==
  LET r == RandomElement(1..100) IN
  IF On("newparser") /\ r <= 3 THEN NewParser
  ELSE IF On("broken") /\ r <= 25 THEN RandBroken(i)
  ELSE IF Live # {} /\ HandleOps # {} /\ r > 45 THEN RandHandle(i, RandomElement(Live))
  ELSE RandParse(i)
Rand == Run /\ RandStep(Len(ops))
RandSpec == Init /\ [][Rand \/ Give]_vars
=============================================================================
