--------------------------------- MODULE Cli --------------------------------
(* The command line tool (C26): what it prints for a file, for a directory  *)
(* of files and for a path that does not exist, under every set of options. *)
(* The state is what has been put into the directory so far; every state is *)
(* a run of the tool.                                                       *)
EXTENDS Catalog, Randomization
CONSTANTS Names, Singles, DirMax, Opts, Pick
VARIABLES dir, opt, arg, phase
vars == <<dir, opt, arg, phase>>
\* ---- names of the entries ----
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex4(x) == Hex[(x \div 4096) + 1] \o Hex[((x \div 256) % 16) + 1] \o Hex[((x \div 16) % 16) + 1] \o Hex[(x % 16) + 1]
Row(x) == {i \in 1..Len(TagTable) : TagTable[i][1] = x}
KeyOf(x) == IF Row(x) = {} THEN "Unknown(0x" \o Hex4(x) \o ")" ELSE TagTable[CHOOSE i \in Row(x) : TRUE][2]
\* ---- files that try the presentation ----
RECURSIVE Str(_, _)
Str(s, n) == IF n = 0 THEN "" ELSE s \o Str(s, n - 1)
TextsL == << <<"Comment", Str("ab\n", 11) \o "end">>, <<"ten", Str("l\n", 9) \o "end">>, <<"eleven", Str("l\n", 10) \o "end">>, <<"tail", Str("l\n", 10)>>, <<"dup", "one">>,
            <<"A key that is longer than all the others", "v">>, <<"dup", "two">>, <<"exact", Str("x", 200)>>, <<"over", Str("y", 201)>>, <<"far", Str("0123456789", 45)>>,
            <<"none", "">>, <<"dup", "three">>, <<"both", Str("z", 150) \o "\n" \o Str("w", 260) \o "\n">> >>
TChunk(kv) == PChunk("tEXt", <<S(kv[1]), B(<<0>>), S(kv[2])>>)
TChunks(ts) == FoldLeft(LAMBDA a, kv : a \o TChunk(kv), <<>>, ts)
\* letters of two bytes
Wide(n) == [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN 195 ELSE 169]
LongT == [e |-> "MM", gap |-> 0, tail |-> 40, order |-> <<1, 2, 3, 4>>,
  dirs |-> << [ents |-> << AscE(270, Rep(120, 300)), AscE(271, Rep(65, 9)), [tag |-> 305, fmt |-> 2, cnt |-> 1, inl |-> <<0, 0, 0, 0>>], AscE(315, <<97, 10, 10, 98, 10>> \o Rep(99, 220) \o <<10>> \o Rep(10, 9) \o <<100>>),
                            ShoE("MM", 3001, 5), ShoE("MM", 7, 6), AscE(33432, Wide(150)), AscE(316, Wide(260)), ShoE("MM", 49152, 7), UndE(49153, Rep(9, 120)), PtrE(34665, 2) >>, next |-> 3, over |-> 0],
              [ents |-> << ShoE("MM", 34855, 400), ShoE("MM", 65000, 1) >>, next |-> 0, over |-> 0],
              [ents |-> << AscE(271, Rep(66, 8)), ShoE("MM", 259, 6), ShoE("MM", 65001, 3) >>, next |-> 4, over |-> 0],
              [ents |-> << AscE(271, Rep(67, 7)), ShoE("MM", 259, 1) >>, next |-> 0, over |-> 0] >>]
LongEs == << <<0, 270, Txt(Rep(120, 300))>>, <<0, 271, Txt(Rep(65, 9))>>, <<0, 305, <<"Text", "">> >>, <<0, 315, Txt(<<97, 10, 10, 98, 10>> \o Rep(99, 220) \o <<10>> \o Rep(10, 9) \o <<100>>)>>,
   <<0, 3001, <<"U16", <<5>> >> >>, <<0, 7, <<"U16", <<6>> >> >>, <<0, 33432, Txt(Rep(233, 150))>>, <<0, 316, Txt(Rep(233, 260))>>, <<0, 49152, <<"U16", <<7>> >> >>, <<0, 49153, <<"Undefined", Rep(9, 120)>> >>, <<0, 34665, <<"U32", << HL(OffOf(LongT, 2)) >> >> >>, <<0, 34855, <<"U16", <<400>> >> >>, <<0, 65000, <<"U16", <<1>> >> >>,
   <<1, 271, Txt(Rep(66, 8))>>, <<1, 259, <<"U16", <<6>> >> >>, <<1, 65001, <<"U16", <<3>> >> >>, <<2, 271, Txt(Rep(67, 7))>>, <<2, 259, <<"U16", <<1>> >> >> >>
Plain(n, parts, es) == [n |-> n, parts |-> parts, cls |-> "img", es |-> es, gps |-> "none", emb |-> FALSE, hastext |-> FALSE, text |-> NoText, track |-> Err("TrackNotFound"), has |-> TRUE]
Own(n) ==
  CASE n = "pnglong" -> [Plain(n, PngOf(TChunks(TextsL) \o PChunk("eXIf", RichParts(PC))), RichEnts(PC)) EXCEPT !.hastext = TRUE, !.text = TextsL]
    [] n = "pngonly" -> [Plain(n, PngOf(TChunks(TextsL)), <<>>) EXCEPT !.hastext = TRUE, !.text = TextsL, !.has = FALSE]
    [] n = "jpeglong" -> Plain(n, <<B(<<255, 216>>)>> \o App1(TiffParts(LongT)) \o JTail(400), LongEs)
    [] n = "onlythumb" -> LET t == [e |-> "II", gap |-> 0, tail |-> 40, order |-> <<1, 2>>, dirs |-> << [ents |-> <<>>, next |-> 2, over |-> 0], [ents |-> << ShoE("II", 259, 6) >>, next |-> 0, over |-> 0] >>] IN
         Plain(n, <<B(<<255, 216>>)>> \o App1(TiffParts(t)) \o JTail(400), << <<1, 259, <<"U16", <<6>> >> >> >>)
    [] n = "mpbroken" -> [Img(n, <<B(<<255, 216>>)>> \o App1(RichParts(PC)) \o XmpMp(300) \o JTail(400) \o <<Z(300, 3)>>, PC, TRUE) EXCEPT !.track = Err("Malformed")]
    [] n = "mpshort" -> LET v == Ftyp("mp42", <<"isom">>) \o Box("moov", Trak(VtA(640))) \o Filler("mdat", 300) IN
         [Img(n, <<B(<<255, 216>>)>> \o App1(RichParts(PC)) \o XmpMp(Size(v)) \o JTail(400) \o v, PC, TRUE) EXCEPT !.track = TrackExp(SaysTrak(VtA(640)))]
    [] n = "mpnone" -> LET v == Ftyp("mp42", <<"isom">>) \o Box("moov", Filler("free", 30)) \o Filler("mdat", 300) IN
         [Img(n, <<B(<<255, 216>>)>> \o App1(RichParts(PC)) \o XmpMp(Size(v)) \o JTail(400) \o v, PC, TRUE) EXCEPT !.track = TrackExp(<<>>)]
    [] n = "movempty" -> Trk(n, Ftyp("qt  ", <<"qt  ">>) \o Box("moov", Filler("free", 30)) \o Filler("mdat", 300), TrackExp(<<>>))
    [] n = "movshort" -> Trk(n, Ftyp("qt  ", <<"qt  ">>) \o Box("moov", Trak(VtA(320))) \o Filler("mdat", 300), TrackExp(SaysTrak(VtA(320))))
    [] n = "empty" -> Bad(n, <<>>, "junk")
    [] n = "tiny" -> Bad(n, <<S("hello")>>, "junk")
OwnNames == {"pnglong", "pngonly", "jpeglong", "onlythumb", "mpbroken", "mpshort", "mpnone", "movempty", "movshort", "empty", "tiny"}
Everything == AllFiles \cup OwnNames
Of(n) == IF n \in OwnNames THEN Own(n) ELSE File(n)
IsBad(n) == n \in Bads \cup {"empty", "tiny"}
\* ---- what is printed for a file ----
Good3(es, o) == SelectSeq(es, LAMBDA x : x[3][1] # "!" /\ (x[1] # 1 \/ "--with-thumbnail" \in o \/ "--json" \in o))
Nest(d) == CASE d = 0 -> "" [] d = 1 -> "_thumbnail" [] OTHER -> "_ifd" \o ToString(d)
Max3(a, b) == IF a > b THEN a ELSE b
Clamp(x) == IF x < 32 THEN 32 ELSE IF x > 48 THEN 48 ELSE x
WidthOf(keys) == IF keys = {} THEN 32 ELSE Clamp(1 + (CHOOSE m \in {Len(k) : k \in keys} : \A k \in keys : Len(k) <= m))
Said(n, o) ==
  LET f == Of(n)
      es == Good3(f.es, o)
      emb == f.cls = "img" /\ f.emb /\ "--no-track" \notin o
      embok == emb /\ "ok" \in DOMAIN f.track
      fmt == f.cls = "img" /\ f.hastext /\ "--no-format" \notin o
      tr == IF f.cls = "trk" \/ embok THEN f.track.ok.fields ELSE << >>
      keys == {KeyOf(es[i][2]) : i \in 1..Len(es)} \cup (IF f.cls = "trk" \/ embok THEN DOMAIN tr ELSE {})
      w == WidthOf(keys)
      extra == embok \/ fmt
      Exif == [s |-> "exif", head |-> IF extra THEN "EXIF" ELSE "", w |-> w, list |-> [i \in 1..Len(es) |-> <<es[i][1], es[i][2], KeyOf(es[i][2]), es[i][3], Nest(es[i][1])>>]]
      Track(h, nest) == [s |-> "track", head |-> h, w |-> w, fields |-> tr, nest |-> nest]
      Fmt == [s |-> "text", head |-> "Format Metadata", w |-> WidthOf({f.text[i][1] : i \in 1..Len(f.text)}), list |-> f.text, nest |-> "_format"]
      err(secs) == [name |-> n, parts |-> f.parts, secs |-> secs, quiet |-> ~IsBad(n) /\ ~(emb /\ ~embok), loud |-> n = "junk" \/ n = "empty" \/ n = "tiny" \/ (emb /\ ~embok), fails |-> n = "junk" \/ n = "empty" \/ n = "tiny", cut |-> IsBad(n)] IN
  IF IsBad(n) THEN err(<<>>)
  ELSE IF f.cls = "trk" THEN err(<<Track("", "")>>)
  ELSE err(If(Len(es) > 0, <<Exif>>) \o If(embok, <<Track("Embedded Track", "_embedded_track")>>) \o If(fmt, <<Fmt>>))
\* ---- runs ----
Switches == {"--json", "--no-track", "--no-format", "--with-thumbnail", "--full"}
AllOpts == SUBSET Switches
FewOpts == {{}, {"--json"}, {"--with-thumbnail"}, {"--full", "--no-format"}, {"--json", "--no-track"}}
Init == phase = "fill" /\ dir = <<>> /\ opt \in Opts /\ arg \in {"file", "dir", "missing", "link", "rel", "debug"}
Put(n) == phase = "fill" /\ (IF arg = "dir" THEN Len(dir) < DirMax ELSE arg # "missing" /\ dir = <<>> /\ n \in Singles) /\ (\A i \in 1..Len(dir) : dir[i] # n) /\ dir' = Append(dir, n) /\ UNCHANGED <<opt, arg, phase>>
Ready == IF arg = "dir" THEN TRUE ELSE IF arg = "missing" THEN dir = <<>> ELSE dir # <<>>
Give == phase = "fill" /\ Ready /\ phase' = "done" /\ UNCHANGED <<dir, opt, arg>>
  /\ Emit([k |-> "cli", suite |-> "cli", id |-> [arg |-> arg, dir |-> dir, opt |-> opt], arg |-> arg, opts |-> SetToSeq(opt), files |-> [i \in 1..Len(dir) |-> Said(dir[i], opt)],
           maxchars |-> 200, maxlines |-> 10, rule |-> 48])
Next == (\E n \in Names : Put(n)) \/ Give
Spec == Init /\ [][Next]_vars
\* directories of many files, in random sets
RandDir(u) == RandomSubset(DirMax, {x \in Names : u = u})
ManyInit == phase = "fill" /\ arg = "dir" /\ opt \in Opts /\ dir \in {SetToSeq(RandDir(u)) : u \in 1..Pick}
Many == ManyInit /\ [][Give]_vars
=============================================================================
