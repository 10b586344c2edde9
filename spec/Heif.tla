-------------------------------- MODULE Heif --------------------------------
(* HEIF/AVIF: top-level boxes, the meta box with its item tables, and the    *)
(* walker that locates the Exif item (C09).                                 *)
EXTENDS BmffLib, Randomization

CONSTANTS Brands,      \* major brands
          Pre,         \* set of sequences of filler sizes before meta
          MetaAligns, MetaDeltas,  \* meta start forced to align + delta - 16
          Items,       \* set of item type sequences
          IinfV, InfeV, IlocV, OffW, LenW, BaseW, IdxW,
          MetaOrd,     \* orders of the children of meta
          Where,       \* "post" | "pre" | "none"
          Gaps,        \* distance between the start of mdat payload and the item
          DataAligns, DataDeltas,  \* item end forced to align + delta - 16
          Prefix,      \* Exif item payload header
          Lens, Wide, Post,
          Cms,         \* where the extents of the Exif item count from: the file, the idat box, another item
          KWide,       \* the boxes inside meta have 64-bit sizes
          Exts,        \* extents of the items that are not Exif (more than one: protected, too)
          Pick,        \* 0: every combination, n: a random subset of n
          Mode

\* constant sets of sequences (a .cfg file cannot write tuples)
PreNone  == {<<>>}
PreSome  == {<<>>, <<8>>, <<100, 8>>, <<9000>>, <<40000>>}
ItemsStd == {<<"Exif">>, <<"hvc1", "Exif", "mime">>}
ItemsAll == {<<>>, <<"hvc1">>, <<"Exif">>, <<"hvc1", "Exif">>, <<"mime", "uri ", "Exif", "grid">>, <<"Exif", "mime">>,
             <<"hvc1", "hvc1", "grid", "Exif", "hvc1", "mime">>}
PostSome == {<<>>, <<100>>, <<50000>>}

VARIABLES f,        \* file description
          phase, pos, cur, item, loc
vars == <<f, phase, pos, cur, item, loc>>

Pay0(len) == [e |-> "MM", ch |-> 72, len |-> len]
\* item payload: exif_tiff_header_offset, optional identifier, TIFF block
ItemBytes(x) ==
  LET t == B(PBytes(Pay0(x.len))) IN
  CASE x.pfx = "exif6" -> <<U4(6), B(<<69,120,105,102,0,0>>), t>>
    [] x.pfx = "exif0" -> <<U4(0), B(<<69,120,105,102,0,0>>), t>>
    [] x.pfx = "bare"  -> <<U4(0), t>>
    [] x.pfx = "far"   -> <<U4(300), Z(300, 73), t>>
    [] x.pfx = "vfar"  -> <<U4(70000), Z(70000, 73), t>>
    [] x.pfx = "gap"   -> <<U4(5), B(<<1,2,3,4,5>>), t>>
ItemLen(x) == Size(ItemBytes(x))

Files == [brand : Brands, pre : Pre, items : Items, iinfv : IinfV, infev : InfeV, ilocv : IlocV,
          offw : OffW, lenw : LenW, basew : BaseW, idxw : IdxW, ord : MetaOrd, where : Where,
          gap : Gaps, pfx : Prefix, len : Lens, wide : Wide, kw : KWide, cm : Cms, ext : Exts, post : Post,
          ma : {0} \cup {t + d - 16 : t \in MetaAligns, d \in MetaDeltas},
          da : {0} \cup {t + d - 16 : t \in DataAligns, d \in DataDeltas}]
Init == /\ phase = "meta" /\ pos = 0 /\ cur = 1 /\ item = 0 /\ loc = 0
        /\ f \in IF Pick = 0 THEN Files ELSE RandomSubset(Pick, Files)
        \* widths that cannot carry an offset are not well formed
        /\ (f.offw # 0 \/ f.basew # 0) /\ (f.ilocv = 0 => f.idxw = 0 /\ f.cm \in {0, 3})
        \* cm = 3: a base and an extent whose sum is 2^64 too much, which is no place in a file
        /\ (f.cm = 3 => f.basew = 8 /\ f.offw # 0)

FtypSize == 28
\* ---- top-level layout: ftyp, fillers, [pre mdat], meta, [gap filler], mdat, post
PreBoxes == f.pre
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
HasExif == \E i \in 1..Len(f.items) : f.items[i] = "Exif"
ExifPos == CHOOSE i \in 1..Len(f.items) : f.items[i] = "Exif"
InPre  == f.where = "pre" /\ HasExif
InPost == f.where = "post" /\ HasExif
PreMdat == IF InPre THEN 8 + f.gap + ItemLen(f) + 8 ELSE 0
Lead == FtypSize + Sum(f.pre, 1) + PreMdat
\* filler so that meta starts at ma
MetaFill == IF f.ma > Lead + 8 THEN f.ma - Lead ELSE 0
MetaStart == Lead + MetaFill

ItemId(i) == IF f.infev = 3 /\ i = 2 THEN 70000 + i ELSE i + 10
\* the name of an item says nothing about its type
Name(i) == CASE f.items[i] = "Exif" /\ f.pfx = "far" -> S("metadata of the picture") [] f.items[i] = "Exif" /\ f.pfx = "gap" -> S("hvc1")
             [] f.items[i] # "Exif" /\ f.pfx = "bare" -> S("Exif") [] f.items[i] # "Exif" /\ f.pfx = "far" -> B(<<80, 233, 201, 110>>) [] f.items[i] = "Exif" /\ f.pfx = "exif0" -> B(<<201, 130>>) [] OTHER -> B(<<>>)
Infe(i) == FullBox("infe", f.infev,
  (IF f.infev = 3 THEN <<U4(ItemId(i))>> ELSE <<U2(ItemId(i))>>) \o <<U2(IF f.ext > 1 /\ f.items[i] # "Exif" THEN f.ext ELSE 0), S(f.items[i])>>
  \o (CASE f.items[i] = "mime" -> <<S(IF f.pfx = "bare" THEN "Exif" ELSE "xmp"), B(<<0>>), S("application/rdf+xml"), B(<<0>>)>>
        [] f.items[i] = "uri " -> <<B(<<0>>), S("urn:x"), B(<<0>>)>>
        [] OTHER -> <<Name(i), B(<<0>>)>>))
Iinf == FullBoxW(f.kw, "iinf", f.iinfv,
  (IF f.iinfv = 0 THEN <<U2(Len(f.items))>> ELSE <<U4(Len(f.items))>>)
  \o Cat([i \in 1..Len(f.items) |-> Infe(i)]))
\* iloc entry for item i stored at absolute offset o with length n: the base
\* carries half of it when both fields exist
IlocEntry(i, o, n, ne, cm) ==
  LET wrap == cm = 3
      base == IF f.basew = 0 THEN 0 ELSE IF f.offw = 0 THEN o ELSE o \div 2
      ext  == IF wrap THEN o + 8 ELSE o - base
  IN (IF f.ilocv < 2 THEN <<U2(ItemId(i))>> ELSE <<U4(ItemId(i))>>)
     \o (IF f.ilocv >= 1 THEN <<U2(IF wrap THEN 0 ELSE cm)>> ELSE <<>>)
     \o <<U2(0)>> \o (IF wrap THEN <<B(<<255, 255, 255, 255, 255, 255, 255, 248>>)>> ELSE UW(f.basew, base)) \o <<U2(ne)>>
     \o Cat([k \in 1..ne |-> UW(f.idxw, k) \o UW(f.offw, ext) \o UW(f.lenw, n)])
IlocItemIds == IF f.ilocv < 2 /\ f.infev = 3 THEN {i \in 1..Len(f.items) : ItemId(i) < 65536} ELSE 1..Len(f.items)
Iloc(eo) == FullBoxW(f.kw, "iloc", f.ilocv,
  <<B(<<16 * f.offw + f.lenw, 16 * f.basew + f.idxw>>)>>
  \o (IF f.ilocv < 2 THEN <<U2(Cardinality(IlocItemIds))>> ELSE <<U4(Cardinality(IlocItemIds))>>)
  \o Cat([i \in 1..Len(f.items) |-> IF i \notin IlocItemIds THEN <<>>
            ELSE IF f.items[i] = "Exif" THEN IlocEntry(i, eo, ItemLen(f), 1, f.cm) ELSE IlocEntry(i, 40 + i, 30, f.ext, 0)]))
Hdlr == FullBoxW(f.kw, "hdlr", 0, <<U4(0), S("pict"), Z(13, 0)>>)
Iprp == Filler("iprp", 100)
MetaBody(eo) ==
  CASE f.ord = "std"  -> Hdlr \o FullBox("pitm", 0, <<U2(11)>>) \o Iinf \o Iprp \o Iloc(eo)
    [] f.ord = "rev"  -> Iloc(eo) \o Iprp \o Iinf \o Hdlr
    [] f.ord = "noiloc" -> Hdlr \o Iinf
    [] f.ord = "noiinf" -> Hdlr \o Iloc(eo)
    [] f.ord = "big"  -> Hdlr \o Filler("idat", 20000) \o Iinf \o Iloc(eo)
MetaBox(eo) == IF f.ord = "nometa" THEN <<>> ELSE FullBoxW(f.wide, "meta", 0, MetaBody(eo))
MetaSize == Size(MetaBox(0))      \* independent of the offsets inside
AfterMeta == MetaStart + MetaSize
\* the item must end at da, or lie gap bytes into the mdat payload
DataStart == IF InPre THEN FtypSize + Sum(f.pre, 1) + 8 + f.gap
             ELSE IF f.da > AfterMeta + 8 + f.gap + ItemLen(f) THEN f.da - ItemLen(f)
             ELSE AfterMeta + (IF f.wide THEN 16 ELSE 8) + f.gap
PostMdat == IF ~InPost THEN <<>>
            ELSE LET hd == IF f.wide THEN 16 ELSE 8
                     g == DataStart - AfterMeta - hd
                 IN BoxW(f.wide, "mdat", <<Z(g, 170)>> \o ItemBytes(f) \o <<Z(8, 187)>>)
Parts ==
  Ftyp(f.brand, <<"mif1", "miaf", "heic">>)
  \o Cat([i \in 1..Len(f.pre) |-> Filler("free", f.pre[i])])
  \o (IF InPre THEN Box("mdat", <<Z(f.gap, 170)>> \o ItemBytes(f) \o <<Z(8, 187)>>) ELSE <<>>)
  \o (IF MetaFill > 0 THEN Filler("skip", MetaFill) ELSE <<>>)
  \o MetaBox(DataStart) \o PostMdat
  \o Cat([i \in 1..Len(f.post) |-> Filler("free", f.post[i])])
  \o (IF f.where = "none" \/ ~HasExif THEN Filler("mdat", 300) ELSE <<>>)

\* ---- the walker: boxes until meta, then the item table, then the location ----
TopTypes == <<"ftyp">> \o [i \in 1..Len(f.pre) |-> "free"] \o (IF InPre THEN <<"mdat">> ELSE <<>>)
            \o (IF MetaFill > 0 THEN <<"skip">> ELSE <<>>) \o (IF f.ord = "nometa" THEN <<>> ELSE <<"meta">>)
Walk == /\ phase = "meta"
        /\ IF cur > Len(TopTypes) THEN phase' = "absent" /\ UNCHANGED cur
           ELSE IF TopTypes[cur] = "meta" THEN phase' = "items" /\ cur' = 1
           ELSE cur' = cur + 1 /\ UNCHANGED phase
        /\ UNCHANGED <<f, pos, item, loc>>
Scan == /\ phase = "items"
        /\ IF f.ord = "noiinf" \/ (IF f.ord = "noiinf" THEN TRUE ELSE cur > Len(f.items))
           THEN phase' = "absent" /\ UNCHANGED <<cur, item>>
           ELSE IF f.items[cur] = "Exif" THEN phase' = "locate" /\ item' = cur /\ UNCHANGED cur
           ELSE cur' = cur + 1 /\ UNCHANGED <<phase, item>>
        /\ UNCHANGED <<f, pos, loc>>
Locate == /\ phase = "locate"
          /\ IF f.ord = "noiloc" \/ f.where = "none" \/ item \notin IlocItemIds \/ f.cm # 0
             THEN phase' = "absent" /\ UNCHANGED loc
             ELSE phase' = "found" /\ loc' = DataStart
          /\ UNCHANGED <<f, pos, cur, item>>

\* declarative meaning
Present == f.ord \notin {"nometa", "noiinf", "noiloc"} /\ HasExif /\ f.where # "none" /\ f.cm = 0
           /\ (IF HasExif THEN ExifPos \in IlocItemIds ELSE FALSE)
WalkerCorrect == /\ phase = "found" => Present /\ item = ExifPos /\ loc = DataStart
                 /\ phase = "absent" => ~Present
ExifExp == IF phase = "found" THEN POk(Pay0(f.len)) ELSE IF f.cm = 3 THEN OneOf(<<Err("ExifNotFound"), Err("Malformed")>>) ELSE Err("ExifNotFound")
Vector ==
  [ k |-> "meta", suite |-> "heif", id |-> f, paths |-> Mode, parts |-> Parts,
    exp |-> [ kind |-> "Image", exif |-> ExifExp, track |-> Err("TrackNotFound"),
              imeta |-> IF Has(ExifExp, "ok") THEN [ok |-> [exif |-> ExifExp.ok, text |-> "none"]] ELSE ExifExp ] ]
Give == /\ phase \in {"found", "absent"} /\ phase' = "done" /\ UNCHANGED <<f, pos, cur, item, loc>>
        \* where = "none" means an Exif item without location: not a well-formed file
        \* (streamed files of up to 128 bytes are outside the contract)
        /\ IF (f.where = "none" /\ HasExif) \/ Size(Parts) <= 128 THEN TRUE ELSE Emit(Vector)
Next == Walk \/ Scan \/ Locate \/ Give
Spec == Init /\ [][Next]_vars
=============================================================================
