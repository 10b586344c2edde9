-------------------------------- MODULE Cuts -------------------------------
(* Streams that end early (C23). Behind its metadata a file may end without *)
(* consequence. In front of that the answer is an end of input, malformed   *)
(* or not-found error, or what could be read in full: entries of the file,  *)
(* or their truncation errors. Data from elsewhere is never delivered.      *)
EXTENDS Catalog
CONSTANTS Names, Calls, Modes, Scheds, Chunk, Fine
VARIABLES n, c, m, s, i, phase
vars == <<n, c, m, s, i, phase>>
\* the offsets where parts begin, and every offset near those (within Fine)
\* (ranges of lengths, two bytes in front of the part included)
RECURSIVE Leafs(_, _, _)
Leafs(ps, at, acc) == IF ps = <<>> THEN acc ELSE
  LET p == ps[1] IN Leafs(Tail(ps), at + p.n, IF p.n = 0 THEN acc ELSE Append(acc, <<Max2(at - 2, 0), at + Min2(p.n, Fine) - 1>>))
Total == [x \in AllFiles |-> Size(File(x).parts)]
CutsOf == [x \in AllFiles |-> Append(Leafs(File(x).parts, 0, <<>>), <<Total[x] - 3, Total[x]>>)]
\* bytes after the last one that matters
Rest(x) ==
  CASE x \in {"jpeg", "jpegbig", "jpegbad", "raf"} -> Size(JTail(400))
    [] x \in {"tiff", "tiffgap"} -> 40
    [] x \in {"heic", "heic64"} -> 30 + 60
    [] x = "avif" -> 60
    [] x = "cr3" -> 300
    [] x = "mov" -> 400
    [] x = "mp4" -> 200
    [] x = "mpudta" -> 40
    [] x = "webm" -> 260
    [] x \in {"mkv", "webmseek"} -> 300
    [] OTHER -> 0
NChunks(x) == (Len(CutsOf[x]) + Chunk - 1) \div Chunk
Init == n \in Names /\ c \in Calls /\ m \in Modes /\ s \in Scheds /\ i \in 1..NChunks(n) /\ phase = "go"
\* ---- what may be delivered ----
Naive(e) == IF e[3][1] = "DateTime" THEN << <<e[1], e[2], <<"NaiveDateTime", SubSeq(e[3][2], 1, 19)>> >> >> ELSE <<>>
May(es) == [xsub |-> Cat([k \in 1..Len(es) |-> << es[k], <<es[k][1], es[k][2], <<"!", AnyVal>> >> >> \o Naive(es[k])])]
Errs == OneOf(<<Err("Eof"), Err("Malformed"), Err("ExifNotFound"), Err("TrackNotFound"), Err("Unsupported")>>)
\* a coordinate whose entry was lost stands at 0/0
Lost == << Rat(0, 0), Rat(0, 0), Rat(0, 0) >>
SomeGps(g) == IF ToString(g) = ToString("none") THEN OneOf(<<"none", [err |-> AnyVal]>>)
  ELSE OneOf(<<"none", [err |-> AnyVal], [g EXCEPT !.lat = OneOf(<<g.lat, Lost>>), !.lon = OneOf(<<g.lon, Lost>>), !.latref = OneOf(<<g.latref, "N">>), !.lonref = OneOf(<<g.lonref, "E">>)]>>)
SomeExif(f) == [entries |-> May(f.es), embedded |-> IF f.emb THEN AnyVal ELSE FALSE, gps |-> SomeGps(f.gps)]
Cut(call) ==
  LET f == File(n) IN
  CASE call = "exif" /\ f.has -> OneOf(<<Errs, [ok |-> SomeExif(f)]>>)
    [] call = "imeta" /\ f.has -> OneOf(<<Errs, [ok |-> [exif |-> OneOf(<<"none", SomeExif(f)>>), text |-> IF f.hastext THEN OneOf(<<"none", [xsub |-> f.text]>>) ELSE "none"]]>>)
    [] call = "imeta" /\ f.hastext -> OneOf(<<Errs, [ok |-> [exif |-> "none", text |-> [xsub |-> f.text]]]>>)
    [] OTHER -> OneOf(<<Errs, Answer(n, call)>>)
Vector == [k |-> "cut", suite |-> "cuts", id |-> <<n, c, m, s, i>>, parts |-> File(n).parts, call |-> c, mode |-> m, sched |-> s, full |-> Total[n] - Rest(n),
           cuts |-> SubSeq(CutsOf[n], (i - 1) * Chunk + 1, Min2(i * Chunk, Len(CutsOf[n]))), exp |-> Answer(n, c), cexp |-> Cut(c)]
Give == phase = "go" /\ phase' = "done" /\ UNCHANGED <<n, c, m, s, i>> /\ Emit(Vector)
Spec == Init /\ [][Give]_vars
=============================================================================
