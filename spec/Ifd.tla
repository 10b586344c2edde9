-------------------------------- MODULE Ifd --------------------------------
(* Directory graphs and the traversal that must deliver each entry of each  *)
(* reachable directory once (C12, C14).                                     *)
EXTENDS IfdLib, EagerLib, Randomization

CONSTANTS NDirs, MaxEnts,
          Alpha,       \* entry kinds used
          NextRefs,    \* values of the next pointer
          PtrRefs,     \* extra values of the sub-directory pointers
          Overs, Orders, Endian, Gaps, Tails, Wraps,
          Chain,       \* n: add a chain of n nested sub-directories (depth limit)
          Pick, Mode

MaxDepth == 8
Dirs == 1..NDirs
VARIABLES g,        \* the graph
          phase, stack, visited, seen, out
vars == <<g, phase, stack, visited, seen, out>>

Leafs == Alpha \cap {"a", "b", "zero", "bad", "trunc", "gver"}
Ptrs  == Alpha \cap {"exif", "gps"}
Ent   == [k : Leafs, r : {0}] \cup [k : Ptrs, r : Dirs \cup PtrRefs]
EntSeqs == UNION {[1..n -> Ent] : n \in 0..MaxEnts}
NoExtra == {}
Dang == {0 - 1, 0 - 2, 0 - 3, 0}
Dang1 == {0 - 1}
DangNext == Dirs \cup {0, 0 - 1, 0 - 2, 0 - 3}
ZeroNext == {0}
Graphs == [dirs : [Dirs -> [ents : EntSeqs, next : NextRefs, over : Overs]],
           e : Endian, ord : Orders, gap : Gaps, tail : Tails, wrap : Wraps]
\* a graph chosen uniformly component by component (-seed)
RandEnts(i, d) == [p \in 1..RandomElement(0..MaxEnts) |-> RandomElement(Ent)]
RandGraph(i) == [dirs |-> [d \in Dirs |-> [ents |-> RandEnts(i, d), next |-> RandomElement(NextRefs),
                                            over |-> RandomElement(Overs)]],
                 e |-> RandomElement(Endian), ord |-> RandomElement(Orders), gap |-> RandomElement(Gaps),
                 tail |-> RandomElement(Tails), wrap |-> RandomElement(Wraps)]
\* v: "plain"; "again": the first directory also refers to the last one;
\* "back": the last one refers to the first; "mid": every directory refers to
\* the last one after the next one; "next": the last one is also the next of the first
\* (not in spread out TIFF files: see TiffNext)
ChainGraph(n, e, o, w, v, gp) ==
  [dirs |-> [d \in 1..n |-> [ents |-> (IF d < n THEN <<[k |-> "a", r |-> 0], [k |-> IF d % 2 = 1 THEN "exif" ELSE "gps", r |-> d + 1], [k |-> "b", r |-> 0]>>
                                      ELSE <<[k |-> "b", r |-> 0]>>)
                                     \o (IF (v = "again" /\ d = 1 /\ n > 1) \/ (v = "mid" /\ d < n) THEN <<[k |-> IF d % 2 = 1 THEN "gps" ELSE "exif", r |-> n]>> ELSE <<>>)
                                     \o (IF v = "back" /\ d = n THEN <<[k |-> "exif", r |-> 1], [k |-> "a", r |-> 0]>> ELSE <<>>),
                             next |-> IF v = "next" /\ d = 1 /\ n > 1 THEN n ELSE 0, over |-> 0]],
   e |-> e, ord |-> o, gap |-> gp, tail |-> 0, wrap |-> w]
Turns == {"plain", "again", "back", "mid", "next"}
Init == /\ phase = "walk" /\ seen = {} /\ out = <<>> /\ visited = {1}
        /\ stack = <<[d |-> 1, p |-> 1, idx |-> 0, gps |-> FALSE]>>
        /\ g \in IF Chain > 0 THEN {ChainGraph(n, e, o, w, IF v = "next" /\ w = "tiff" /\ gp > 0 THEN "plain" ELSE v, gp) : n \in 1..Chain, e \in Endian, o \in Orders, w \in Wraps, v \in Turns, gp \in Gaps}
                 ELSE IF Pick = 0 THEN Graphs ELSE {RandGraph(i) : i \in 1..Pick}

N == Len(g.dirs)
DirAt(d) == g.dirs[d]
LastPlaced == IF g.ord = "fwd" THEN N ELSE 1
\* an overstated count only makes sense where nothing readable follows
Sane == /\ \A d \in 1..N : DirAt(d).over > 0 => d = LastPlaced /\ g.tail = 0
        /\ g.tail < 0 => DirAt(LastPlaced).next = 0
\* the block ends within the last directory's reference to a next one
NegTails == {-4, -3, -2, -1}

TagOf(k) == CASE k = "a" -> 270 [] k = "b" -> 271 [] k = "zero" -> 0 [] k = "bad" -> 272 [] k = "trunc" -> 305
              [] k = "gver" -> 0 [] k = "exif" -> 34665 [] k = "gps" -> 34853
\* a directory whose entries overrun the block is no directory
Usable(r) == IF r >= 1 THEN DirAt(r).over = 0 ELSE FALSE
\* a leaf's inline text identifies its directory and position
Lbl(d, p) == <<64 + d, 96 + p>>
Concrete(d, p) ==
  LET x == DirAt(d).ents[p] IN
  CASE x.k \in {"a", "b"} -> [tag |-> TagOf(x.k), fmt |-> 2, cnt |-> 3, inl |-> Lbl(d, p) \o <<0, 0>>]
    [] x.k = "zero"  -> [raw |-> Rep(0, 12)]
    [] x.k = "gver"  -> [tag |-> 0, fmt |-> 1, cnt |-> 4, inl |-> <<2, 3, 0, 0>>]
    [] x.k = "bad"   -> [tag |-> 272, fmt |-> 99, cnt |-> 1, inl |-> <<1, 2, 3, 4>>]
    [] x.k = "trunc" -> [tag |-> 305, fmt |-> 2, cnt |-> 500, inl |-> I4(g.e, 2147483000)]
    [] OTHER         -> [tag |-> TagOf(x.k), fmt |-> 4, cnt |-> 1, ptr |-> x.r]
Tf == [e |-> g.e, gap |-> g.gap, tail |-> g.tail,
       order |-> IF g.ord = "fwd" THEN [i \in 1..N |-> i] ELSE [i \in 1..N |-> N + 1 - i],
       dirs |-> [d \in 1..N |-> [ents |-> [p \in 1..Len(DirAt(d).ents) |-> Concrete(d, p)],
                                 next |-> DirAt(d).next, over |-> DirAt(d).over]]]

\* ------------------------------------------------------------- traversal
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
AtEnd(fr) == fr.p > Len(DirAt(fr.d).ents)
Adv(fr) == [fr EXCEPT !.p = @ + 1]
Deliver(idx, k, d, p) == [idx |-> idx, k |-> k, d |-> d, p |-> p, err |-> FALSE]
Fail(idx, k) == [idx |-> idx, k |-> k, d |-> 0, p |-> 0, err |-> TRUE]
Key(o) == <<o.idx, TagOf(o.k)>>
OutIfNew(o) == IF Key(o) \in seen THEN out ELSE Append(out, o)

\* end of a directory: continue with the next directory of the chain
EndDir == /\ phase = "walk" /\ stack # <<>>
          /\ IF stack = <<>> THEN FALSE ELSE AtEnd(Top)
          /\ LET d == DirAt(Top.d)  n == d.next IN
             IF Usable(n) /\ n \notin visited
             THEN /\ stack' = Append(Below, [d |-> n, p |-> 1, idx |-> Top.idx + 1, gps |-> FALSE])
                  /\ visited' = visited \cup {n}
             ELSE stack' = Below /\ UNCHANGED visited
          /\ UNCHANGED <<g, phase, seen, out>>
Entry == /\ phase = "walk" /\ stack # <<>>
         /\ IF stack = <<>> THEN FALSE ELSE ~AtEnd(Top)
         /\ LET x == DirAt(Top.d).ents[Top.p]
                fr == Adv(Top)
            IN
            CASE x.k \in {"zero", "gver"} /\ ~Top.gps ->      \* padding: the directory ends here
                   stack' = Below /\ UNCHANGED <<visited, seen, out>>
              [] x.k \in {"zero", "bad", "trunc"} ->          \* undecodable: an error at its own tag
                   LET o == Fail(Top.idx, x.k) IN
                   /\ stack' = Append(Below, fr)
                   /\ out' = OutIfNew(o) /\ UNCHANGED <<visited, seen>>
              [] x.k \in {"a", "b", "gver"} ->
                   LET o == Deliver(Top.idx, x.k, Top.d, Top.p) IN
                   /\ stack' = Append(Below, fr)
                   /\ out' = OutIfNew(o) /\ seen' = seen \cup {Key(o)} /\ UNCHANGED visited
              [] OTHER ->                                      \* a pointer is an entry itself
                   LET o == Deliver(Top.idx, x.k, x.r, Top.p)
                       deep == Len(Below) + 1 >= MaxDepth
                       enter == Usable(x.r) /\ ~deep /\ x.r \notin visited
                   IN
                   /\ out' = OutIfNew(o) /\ seen' = seen \cup {Key(o)}
                   /\ IF enter
                      THEN /\ stack' = Append(Append(Below, fr), [d |-> x.r, p |-> 1, idx |-> Top.idx, gps |-> x.k = "gps"])
                           /\ visited' = visited \cup {x.r}
                      ELSE stack' = Append(Below, fr) /\ UNCHANGED visited
         /\ UNCHANGED <<g, phase>>

\* --------------------------------------------------------- what must hold
NoDup == \A i, j \in 1..Len(out) : i < j /\ ~out[i].err /\ ~out[j].err => Key(out[i]) # Key(out[j])
DepthBound == Len(stack) <= MaxDepth
\* directories reachable without passing through padding, an overstated count or the depth limit
Live(d, gps) == {p \in 1..Len(DirAt(d).ents) : \A q \in 1..p : DirAt(d).ents[q].k \notin {"zero", "gver"}}
Edges(d) == {DirAt(d).ents[p].r : p \in {q \in Live(d, FALSE) : DirAt(d).ents[q].k \in {"exif", "gps"}}}
            \cup (IF Live(d, FALSE) = 1..Len(DirAt(d).ents) THEN {DirAt(d).next} ELSE {})
RECURSIVE ReachFrom(_, _)
ReachFrom(ds, k) == IF k = 0 THEN ds ELSE ReachFrom(ds \cup {r \in UNION {Edges(d) : d \in ds} : Usable(r)}, k - 1)
\* (with at most MaxDepth - 1 directories the depth limit cannot cut anything off)
AllReached == phase = "walk" /\ stack = <<>> /\ N < MaxDepth => ReachFrom({1}, N) \subseteq visited
\* and nothing that was not linked is visited
OnlyReached == visited \subseteq {1} \cup UNION {{DirAt(d).next} \cup {DirAt(d).ents[p].r : p \in 1..Len(DirAt(d).ents)} : d \in 1..N}

ValOf(o) == CASE o.err -> <<"!", IF o.k = "trunc" THEN "Truncated" ELSE "InvalidShape">>
              [] o.k \in {"a", "b"} -> <<"Text", Codes(Lbl(o.d, o.p))>>
              [] o.k = "gver" -> <<"U8Array", <<2, 3, 0, 0>>>>
              [] OTHER -> <<"U32", << HL(RefVal(Tf, o.d)) >> >>
Exp == [i \in 1..Len(out) |-> <<out[i].idx, TagOf(out[i].k), ValOf(out[i])>>]
ExifExp == IF ~Usable(1) THEN Err("Malformed") ELSE [ok |-> [entries |-> Exp, embedded |-> FALSE]]
Bads == {i \in 1..Len(out) : out[i].err}
\* the first reference to a GPS directory must lead to one, or it is reported
GpsRefs == {i \in 1..Len(out) : out[i].k = "gps"}
GpsBad == IF GpsRefs = {} THEN FALSE ELSE ~Usable(out[CHOOSE i \in GpsRefs : \A j \in GpsRefs : i <= j].d)
EVal == EagerWith(Exp, Bads, AnyVal, FALSE, IF GpsBad THEN GpsFail ELSE <<>>, <<>>)
Eager == IF Has(ExifExp, "ok") THEN [ok |-> EVal] ELSE ExifExp
EImeta == IF Has(ExifExp, "ok") THEN [ok |-> [exif |-> EVal, text |-> "none"]] ELSE ExifExp
Block == TiffParts(Tf)
Parts == IF g.wrap = "jpeg" THEN JpegWrap(Block) ELSE Block
Vector == [k |-> "meta", suite |-> "ifd", id |-> g, paths |-> Mode, parts |-> Parts,
           exp |-> [eager |-> Eager, eimeta |-> EImeta, kind |-> "Image", exif |-> ExifExp, track |-> Err("TrackNotFound"),
                    imeta |-> IF Has(ExifExp, "ok") THEN [ok |-> [exif |-> ExifExp.ok, text |-> "none"]] ELSE ExifExp]]
Done == /\ phase = "walk" /\ stack = <<>> /\ phase' = "done" /\ UNCHANGED <<g, stack, visited, seen, out>>
        /\ IF ~Sane \/ (g.wrap = "tiff" /\ TotalLen(Tf) <= 128) THEN TRUE ELSE Emit(Vector)
Next == EndDir \/ Entry \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
