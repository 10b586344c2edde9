"""Which specification modules decide which property, in which configuration."""
def s(name, module, cfg=None, **kw):
    return dict(name=name, module=module, cfg=cfg or module, **kw)
def o(**kw):
    return {k: (v if isinstance(v, str) else str(v)) for k, v in kw.items()}
ALL, SOME, MEM = '"all"', '"some"', '"mem"'

BOTHE, BOTHO, BOTHW = '{"II","MM"}', '{"fwd","rev"}', '{"jpeg","tiff"}'
IGAP = dict(NDirs=3, MaxEnts=1, Alpha='{"a","exif","gps","trunc"}', Gaps="{7000,9000}", Wraps='{"tiff"}', NextRefs="<-ZeroNext", PtrRefs="<-Dang1", Orders=BOTHO)
VDIRS = '{"ifd0","exif","gps","ifd1"}'
VPATS = '{"blank","nulblank","seq","ff","neg","zero","mix","ascii","nulmid","nullead","utf8","latin","badutf"}'
VMIX = dict(Pats=VPATS, Dirs=VDIRS, Tags="{37500,300,6}")
TMIX = dict(OffO="<-OffAll", OffD="<-None", OffT="<-OffAll", Odd="<-OddAll", Endian=BOTHE)
TCAL = dict(Years="{0,1,1900,1970,2000,2023,2024,9999}", Months="{0,1,2,4,12,13}", Days="{0,1,28,29,30,31,32}", Hours="{0,23,24}", Mins="{0,59,60}", Secs="{0,59,60}", DateTags="{36867,36868,306}")
GMIX = dict(Lats='<-CoordAll', Lons='<-CoordAll', LatRefs='<-RefLat', LonRefs='<-RefLon', AltRefs='<-AltRefAll', Alts='<-AltAll', SpRefs='<-SpRefAll', Sps='<-SpAll', Ptrs='<-PtrAll', Extras='<-ExtraAll', Ords='{"asc","desc","mix"}', Endian=BOTHE)
HMIX = dict(Items="<-ItemsAll", Pre="<-PreSome", IinfV="{0,1}", InfeV="{2,3}", MetaOrd='{"std","rev","noiloc","noiinf","big","nometa"}', Where='{"post","pre"}', Gaps="{0,100,9000}", Prefix='{"exif6","exif0","bare","gap","far","vfar"}', Wide="{TRUE,FALSE}", KWide="{TRUE,FALSE}", Exts="{1,6,32}", Post="<-PostSome", Brands='{"heic","mif1","avif"}')
HALIGN = dict(MetaAligns="{8192,8320,24704}", MetaDeltas="{0,4,7,8,9,12,15,16,17,20,24}", IlocV="{1}", OffW="{4}", LenW="{4}", BaseW="{0}", IdxW="{0}")
HDALIGN = dict(DataAligns="{8192,8320,24704}", DataDeltas="{0,4,8,12,14,15,16,17,18,20,24}", IlocV="{1}", OffW="{4}", LenW="{4}", BaseW="{0}", IdxW="{0}")

CMIX = dict(Pre="<-PreSome", MoovPre="<-MoovSome", Wides="{TRUE,FALSE}", Post="<-PostSome", B1='{"tiff","gps","sub","big","garbage","short","empty","absent"}', Fill="{0,30,9000}")
CALIGN = dict(Aligns="{8192,8320,24704}", Deltas="{0,1,4,7,8,9,12,15,16,17,18,20,24}", Ords="<-Ord1", Fill="{0}", B1='{"tiff","gps"}', B2='{"tiff","sub","big","absent"}')
VBAD = dict(Pats='{"mix","zero"}', Tags="{37500,306,34665,34853,1}", Dirs=VDIRS, Places='{"cut","far","max","ok"}')
IALL = dict(Alpha='{"a","b","bad","trunc","exif","gps","gver","zero"}', Endian=BOTHE, Orders=BOTHO)
# which answers of a vector a property looks at (default: the lazy ones)
KEYS = {"C14": "exif,imeta,eager", "C16": "exif,eager,eimeta"}
JFILL = dict(Kinds='{"exif","fill1","fill3","dqt"}', Aligns="{8320}", Deltas="{2,4,13,15,16,17}")
RFILL = dict(Kinds='{"exif","fill3","app1xmp"}', Offsets="{148,30000}", Aligns="{}", MaxSegs=3)
SUITES = {
 "C07": dict(quick=[s("jpeg", "Jpeg", over=o(Mode=SOME)), s("jpegsim", "Jpeg", sim=900, depth=30, over=o(Mode=SOME, MaxSegs=7)), s("jpegfill", "Jpeg", over=o(Mode=SOME, MaxSegs=3, **JFILL))],
             thorough=[s("jpegfill", "Jpeg", over=o(Mode=ALL, MaxSegs=4, **JFILL)),
                       s("jpeg", "Jpeg", over=o(Mode=ALL)),
                       s("jpeg3", "Jpeg", over=o(Mode=SOME, MaxSegs=3, Aligns="{}")),
                       s("jpegsim", "Jpeg", sim=8000, depth=30, over=o(Mode=ALL, MaxSegs=7))]),
 "C08": dict(quick=[s("png", "Png", over=o(Mode=SOME)), s("pngsim", "Png", sim=900, depth=30, over=o(Mode=SOME, MaxChunks=8))],
             thorough=[s("png", "Png", over=o(Mode=ALL)),
                       s("pngsim", "Png", sim=8000, depth=30, over=o(Mode=ALL, MaxChunks=8))]),
 "C09": dict(quick=[s("heif", "Heif", over=o(Mode=SOME)),
                  s("heifmix", "Heif", over=o(Mode=SOME, Pick=2500, **HMIX)),
                  s("heifalign", "Heif", over=o(Mode=SOME, **HALIGN))],
             thorough=[s("heif", "Heif", over=o(Mode=ALL)),
                       s("heifmix", "Heif", over=o(Mode=ALL, Pick=15000, **HMIX)),
                       s("heifalign", "Heif", over=o(Mode=ALL, **HALIGN)),
                       s("heifdalign", "Heif", over=o(Mode=ALL, **HDALIGN))]),
 "C11": dict(quick=[s("raf", "Raf", over=o(Mode=SOME)), s("raffill", "Raf", over=o(Mode=SOME, **RFILL))],
             thorough=[s("raf", "Raf", over=o(Mode=ALL)),
                       s("raf2", "Raf", over=o(Mode=SOME, MaxSegs=2))]),
 "C12": dict(quick=[s("ifd1", "Ifd", over=o(Mode=MEM, NDirs=1, MaxEnts=2, Overs="{0,1,2}", Wraps=BOTHW, Tails="{0,200}", Endian=BOTHE)),
                    s("ifd2", "Ifd", over=o(Mode=MEM, NDirs=2, MaxEnts=1, Endian='{"MM"}', Orders=BOTHO)),
                    s("ifd3", "Ifd", over=o(Mode=MEM, NDirs=3, MaxEnts=3, Pick=6000, Endian=BOTHE, Orders=BOTHO, Overs="{0,1}", Tails="{0,3}", Gaps="{0,5}")),
                    s("ifd6", "Ifd", over=o(Mode=MEM, NDirs=6, MaxEnts=5, Pick=5000, Alpha='{"a","b","exif","gps"}', PtrRefs="<-Dang1", Endian=BOTHE, Orders=BOTHO)),
                    s("chain", "Ifd", over=o(Mode=ALL, Chain=12, Endian=BOTHE, Orders=BOTHO, Wraps=BOTHW)),
                    s("stream", "Ifd", over=o(Mode=SOME, Pick=1500, **IGAP))],
             thorough=[s("ifd1", "Ifd", over=o(Mode=MEM, NDirs=1, MaxEnts=3, Overs="{0,1,2}", Wraps=BOTHW, Tails="{0,200}", Endian=BOTHE)),
                       s("ifd2", "Ifd", over=o(Mode=SOME, NDirs=2, MaxEnts=1, Endian=BOTHE, Orders=BOTHO)),
                       s("ifd3", "Ifd", over=o(Mode=SOME, NDirs=3, MaxEnts=3, Pick=30000, Endian=BOTHE, Orders=BOTHO, Overs="{0,1}", Tails="{0,3}", Gaps="{0,5}")),
                       s("ifd6", "Ifd", over=o(Mode=SOME, NDirs=6, MaxEnts=5, Pick=30000, Alpha='{"a","b","exif","gps"}', PtrRefs="<-Dang1", Endian=BOTHE, Orders=BOTHO)),
                       s("ifd9", "Ifd", over=o(Mode=MEM, NDirs=9, MaxEnts=4, Pick=20000, Alpha='{"a","exif","gps"}', PtrRefs="<-Dang1", Endian=BOTHE, Orders=BOTHO)),
                       s("chain", "Ifd", over=o(Mode=ALL, Chain=14, Endian=BOTHE, Orders=BOTHO, Wraps=BOTHW)),
                       s("stream", "Ifd", over=o(Mode=ALL, Pick=6000, **IGAP)),
                       s("tail", "Ifd", over=o(Mode=ALL, NDirs=1, MaxEnts=2, Tails="{300000}", Wraps='{"tiff"}'))]),
 "C13": dict(quick=[s("value", "Value"), s("valmix", "Value", over=o(Pick=8000, **VMIX))],
             thorough=[s("value", "Value", over=o(Mode=SOME, Dirs=VDIRS)),
                       s("valpat", "Value", over=o(Pats=VPATS)),
                       s("valmix", "Value", over=o(Pick=50000, **VMIX))]),
 "C14": dict(quick=[s("valbad", "Value", over=o(Pats='{"mix"}', Tags="{37500,306,34665,34853,1}", Dirs='{"ifd0","exif","gps"}', Pick=6000, Places='{"cut","far","max","ok"}')),
                    s("ifdbad", "Ifd", over=o(Mode=MEM, NDirs=3, MaxEnts=4, Pick=6000, Alpha='{"a","b","bad","trunc","exif","gps"}', PtrRefs="<-Dang1", Endian=BOTHE)),
                    s("timebad", "Time", over=o(Odd="<-OddAll", Pick=3000, OffO="<-OffAll"))],
             thorough=[s("valbad", "Value", over=o(Mode=SOME, Pats='{"mix","zero"}', Tags="{37500,306,34665,34853,1}", Dirs=VDIRS, Pick=30000, Places='{"cut","far","max","ok"}')),
                       s("ifdbad", "Ifd", over=o(Mode=SOME, NDirs=4, MaxEnts=4, Pick=25000, Alpha='{"a","b","bad","trunc","exif","gps"}', PtrRefs="<-Dang1", Endian=BOTHE)),
                       s("timebad", "Time", over=o(Odd="<-OddAll", Pick=25000, OffO="<-OffAll"))]),
 "C17": dict(quick=[s("time", "Time"), s("timemix", "Time", over=o(Pick=6000, **TMIX)), s("cal", "Time", over=o(Pick=6000, **TCAL))],
             thorough=[s("time", "Time", over=o(Mode=SOME, Endian=BOTHE, DirOrd='{"fwd","rev"}')),
                       s("timemix", "Time", over=o(Pick=50000, **TMIX)), s("cal", "Time", over=o(Pick=60000, **TCAL))]),
 "C18": dict(quick=[s("gps", "Gps"), s("gpsmix", "Gps", over=o(Pick=6000, **GMIX)), s("iso", "Iso"), s("cr3", "Cr3")],
             thorough=[s("gps", "Gps", over=o(Mode=SOME, Lats="<-CoordAll", Endian=BOTHE)), s("gpsmix", "Gps", over=o(Mode=SOME, Pick=40000, **GMIX)),
                       s("iso", "Iso", over=o(Spaces="<-Spaces2"))]),
}
SUITES["C10"] = dict(quick=[s("cr3", "Cr3", over=o(Mode=SOME)), s("cr3mix", "Cr3", over=o(Mode=SOME, Pick=2000, **CMIX)), s("cr3align", "Cr3", over=o(Mode=SOME, **CALIGN))],
    thorough=[s("cr3", "Cr3", over=o(Mode=ALL)), s("cr3mix", "Cr3", over=o(Mode=ALL, Pick=15000, **CMIX)), s("cr3align", "Cr3", over=o(Mode=ALL, **CALIGN))])
SUITES["C16"] = dict(quick=[s("eifd", "Ifd", over=o(Mode=MEM, NDirs=4, MaxEnts=4, Pick=4000, PtrRefs="<-Dang1", **IALL)), s("eval", "Value", over=o(Pick=4000, **VBAD)),
                            s("ecr3", "Cr3", over=o(Mode=SOME, Pick=800, **CMIX)), s("epng", "Png", over=o(Mode=SOME))],
    thorough=[s("eifd", "Ifd", over=o(Mode=SOME, NDirs=4, MaxEnts=5, Pick=25000, PtrRefs="<-Dang1", **IALL)), s("eval", "Value", over=o(Pick=30000, **VBAD)), s("evalmix", "Value", over=o(Pick=30000, **VMIX)),
              s("ecr3", "Cr3", over=o(Mode=ALL, Pick=8000, **CMIX)), s("epng", "Png", over=o(Mode=ALL))])
K19, K25 = "acc,int,float,tou,latlng,dates", "disp,json,dback,jback"
SUITES["C19"] = dict(quick=[s("value", "ValCat", over=o(Pick=2000), keys=K19), s("deg", "Conv"), s("refs", "Conv", over=o(Job='"refs"'))],
    thorough=[s("value", "ValCat", over=o(Pick=60000, MaxLen=40), keys=K19), s("deg", "Conv", over=o(Bases="<-MinuteBases", Pick=50000)), s("refs", "Conv", over=o(Job='"refs"'))])
SUITES["C24"] = dict(quick=[s("tags", "Tags", over=o(TagDirs='{"ifd0"}'), keys="exif,eager"), s("alldirs", "Tags", over=o(TagDirs='{"exif","gps","ifd1"}', Blocks="<-FewBlocks", Endian=BOTHE), keys="exif,eager")],
    thorough=[s("tags", "Tags", over=o(Mode=SOME, Endian=BOTHE), keys="exif,eager", timeout=850)])
SUITES["C25"] = dict(quick=[s("value", "ValCat", over=o(Pick=2000), keys=K25)],
    thorough=[s("value", "ValCat", over=o(Pick=60000, MaxLen=40), keys=K25)])
MOVMIX = dict(Majors='{"qt  ","isom","mp42","3gp5","none"}', Mvhds="<-MvhdAll", Metas="<-MetasAll", Udtas="<-UdtasAll", Pre="<-PreSome", Post="<-PostSome", Wides="{TRUE,FALSE}")
MOVALIGN = dict(Kids="<-KidsStd", Trks="<-Trks0", Pre="<-PreSome", Aligns="{128,8192,8320,24704}", Deltas="{0,1,4,7,8,9,12,15,16,17,20,24}", Wides="{TRUE,FALSE}", Ends="{TRUE,FALSE}")
MOVNONE = dict(Kids="<-KidsNoMoov", Trks="<-Trks0", Pre="<-PreSome", Wides="{TRUE,FALSE}", Post="<-PostNoMoov")
WMIX = dict(Infos="<-InfosAll", Trks="<-TrksAll", Ws="{1,2,3,4,8}", Big="{200,9000,70000}", SegSizes="{0,8}")
WBAD = dict(Kids="<-KidsBad", DocTypes='{"webm"}')
WALIGN = dict(DocTypes='{"webm"}', Big="{200,9000}", Seeks="<-Seeks0", Aligns="{8192,8320,24704}", Ats='{"info","tracks","seek"}', Ws="{1,4}")
SUITES["C20"] = dict(quick=[s("mov", "Mov", over=o(Mode=SOME)), s("movmix", "Mov", over=o(Mode=SOME, Pick=3000, **MOVMIX)), s("movalign", "Mov", over=o(Mode=SOME, **MOVALIGN)), s("movnone", "Mov", over=o(Mode=SOME, **MOVNONE))],
    thorough=[s("mov", "Mov", over=o(Mode=ALL)), s("movmix", "Mov", over=o(Mode=ALL, Pick=20000, **MOVMIX)), s("movalign", "Mov", over=o(Mode=ALL, **MOVALIGN)), s("movnone", "Mov", over=o(Mode=ALL, **MOVNONE))])
SUITES["C21"] = dict(quick=[s("webm", "Webm", over=o(Mode=SOME)), s("webmmix", "Webm", over=o(Mode=SOME, Pick=1500, **WMIX)), s("webmbad", "Webm", over=o(Mode=SOME, **WBAD)), s("webmalign", "Webm", over=o(Mode=SOME, Deltas="{0,1,4,8}", Aligns="{8192,8320}", **{k: v for k, v in WALIGN.items() if k != "Aligns"}))],
    thorough=[s("webm", "Webm", over=o(Mode=ALL)), s("webmmix", "Webm", over=o(Mode=ALL, Pick=15000, **WMIX)), s("webmbad", "Webm", over=o(Mode=ALL, **WBAD)), s("webmalign", "Webm", over=o(Mode=ALL, Deltas="{0,1,2,3,4,5,8,12}", **WALIGN))])
MPALL = dict(Marks="<-MarksAll", Ats="<-AtsAll", Trailers="<-TrailersAll", Pads="{0,200,9000,40000}")
MPALIGN = dict(Orders="<-OrdersPad", Locs='{"mpo","cont"}', Aligns="{8192,8320,24704}", Deltas="{0,1,2,4,8,12,14,15,16,17,20,24,45,60}", Trailers='{"mdatfirst"}')
K22 = "kind,exif,track,imeta,eager"
SUITES["C22"] = dict(quick=[s("motion", "Motion", over=o(Mode=SOME), keys=K22), s("motionmix", "Motion", over=o(Mode=SOME, Pick=3000, **MPALL), keys=K22), s("motionalign", "Motion", over=o(Mode=SOME, **MPALIGN), keys=K22)],
    thorough=[s("motion", "Motion", over=o(Mode=ALL), keys=K22), s("motionmix", "Motion", over=o(Mode=ALL, Pick=20000, **MPALL), keys=K22), s("motionalign", "Motion", over=o(Mode=ALL, **MPALIGN), keys=K22)])
SUITES["C06"] = dict(quick=[s("brands", "Sniff", over=o(Mode=SOME)), s("sigs", "Sniff", over=o(Mode=SOME, Starts="<-StartsSig", Mdats='{"near","far","moov"}')), s("compat", "Sniff", over=o(Mode=SOME, Starts="<-StartUnknown", Comps="<-CompsOne")),
                            s("compodd", "Sniff", over=o(Mode=SOME, Starts="<-StartUnknown", Comps="<-CompsOdd", Mdats='{"near","far","moov"}')),
                            s("complong", "Sniff", over=o(Mode=SOME, Starts="<-StartFew", Comps="<-CompsLong", Mdats='{"near","moov"}', Wides="{TRUE,FALSE}")),
                            s("brandmix", "Sniff", over=o(Mode=SOME, Starts="<-StartBrands", Comps="<-CompsMix", Wides="{TRUE,FALSE}"))],
    thorough=[s("brands", "Sniff", over=o(Mode=ALL)), s("sigs", "Sniff", over=o(Mode=ALL, Starts="<-StartsSig", Mdats='{"near","far","second","none","moov"}')), s("compat", "Sniff", over=o(Mode=ALL, Starts="<-StartUnknown", Comps="<-CompsOne", Wides="{TRUE,FALSE}")),
              s("complong", "Sniff", over=o(Mode=ALL, Starts="<-StartFew", Comps="<-CompsLong", Mdats='{"near","far","second","none","moov"}', Wides="{TRUE,FALSE}")),
              s("compodd", "Sniff", over=o(Mode=ALL, Starts="<-StartUnknown", Comps="<-CompsOdd", Wides="{TRUE,FALSE}", Mdats='{"near","far","second","none","moov"}')),
              s("brandall", "Sniff", over=o(Mode=SOME, Starts="<-StartBrands", Comps="<-CompsOne", Pick=12000)), s("brandmix", "Sniff", over=o(Mode=ALL, Starts="<-StartBrands", Comps="<-CompsMix", Wides="{TRUE,FALSE}"))])
# histories of one parser
SPARSE = dict(Ops='{"parse","keep","broken","take","drop"}', MaxLen="40")
SPAIR = dict(Ops='{"parse","keep"}', MaxLen="2", Modes='{"Seek","AUnseek"}', Calls='{"exif","imeta"}', Scheds='{"full"}')
SHOLD = dict(Ops='{"parse","keep","take","drop","drain","thread","clone"}', Files='{"jpeg","jpegtwin","cr3"}', Modes='{"Seek"}', Calls='{"exif"}', Scheds='{"full"}')
SITER = dict(Ops='{"keep","next","take","clone","rewound","rewind","gps","drain"}', Files='{"jpegbad","cr3"}', Modes='{"Seek"}', Calls='{"exif"}', Scheds='{"full"}')
SROUND = dict(Ops='{"keep","take","rounds","copies","gps","drain","rewind"}', Files="<-Longs", Modes='{"Seek"}', Calls='{"exif"}', Scheds='{"full"}', MaxH="1")
SITERX = dict(Ops='{"keep","next","take","drain","thread","clone","rewound","rewind","gps","emb","debug","intoclone","toexif","drop"}', MaxLen="60", MaxH="5")
SUITES["C03"] = dict(quick=[s("parses", "Session", sim=3000, depth=60, over=o(**SPARSE)), s("pairs", "Session", "SessionX", over=o(**SPAIR)), s("mixed", "Session", sim=500, depth=60)],
    thorough=[s("parses", "Session", sim=20000, depth=120, over=o(**{**SPARSE, "MaxLen": "80"})), s("pairs", "Session", "SessionX", over=o(**{**SPAIR, "Modes": '{"Seek","Unseek","AUnseek","Mem"}'})), s("mixed", "Session", sim=10000, depth=90, over=o(MaxLen=60))])
SUITES["C04"] = dict(quick=[s("hold", "Session", "SessionX", over=o(**SHOLD)), s("mixed", "Session", sim=4000, depth=60, over=o(MaxLen=40))],
    thorough=[s("hold", "Session", "SessionX", over=o(**{**SHOLD, "MaxLen": "5"})), s("mixed", "Session", sim=20000, depth=120, over=o(MaxLen=80, MaxH=6))])
SUITES["C15"] = dict(quick=[s("iter", "Session", "SessionX", over=o(**{**SITER, "MaxLen": "5"})), s("rounds", "Session", "SessionX", over=o(**{**SROUND, "MaxLen": "4"})), s("itermix", "Session", sim=2500, depth=80, over=o(Files="<-ImagesTwins", **SITERX))],
    thorough=[s("iter", "Session", "SessionX", over=o(**{**SITER, "MaxLen": "6"})), s("rounds", "Session", "SessionX", over=o(**{**SROUND, "MaxLen": "5"})), s("itermix", "Session", sim=15000, depth=120, over=o(Files="<-ImagesTwins", **{**SITERX, "MaxLen": "100"}))])
def c01(n):
    return [s("catalog", "CatTest", over=o(Mode='"files"'), keys="kind,exif,track,imeta,eager,meta"),
        s("jpeg", "Jpeg", over=o(Mode=ALL)), s("png", "Png", over=o(Mode=ALL)), s("raf", "Raf", over=o(Mode=ALL)), s("tiffnext", "TiffNext"),
        s("heifmix", "Heif", over=o(Mode=ALL, Pick=n, **HMIX)), s("heifalign", "Heif", over=o(Mode=ALL, **HALIGN)),
        s("cr3mix", "Cr3", over=o(Mode=ALL, Pick=n, **CMIX)), s("cr3align", "Cr3", over=o(Mode=ALL, **CALIGN)),
        s("movmix", "Mov", over=o(Mode=ALL, Pick=n, **MOVMIX)), s("movalign", "Mov", over=o(Mode=ALL, **MOVALIGN)),
        s("webmmix", "Webm", over=o(Mode=ALL, Pick=n, **WMIX)), s("motionmix", "Motion", over=o(Mode=ALL, Pick=n, **MPALL), keys=K22),
        s("stream", "Ifd", over=o(Mode=ALL, Pick=n, **IGAP)), s("sniff", "Sniff", over=o(Mode=ALL, Starts="<-StartBrands", Comps="<-CompsMix", Wides="{TRUE,FALSE}"))]
SUITES["C01"] = dict(quick=c01(2000), thorough=c01(8000) + [s("pngsim", "Png", sim=6000, depth=30, over=o(Mode=ALL, MaxChunks=8)), s("jpegsim", "Jpeg", sim=6000, depth=30, over=o(Mode=ALL, MaxSegs=7)),
    s("motionalign", "Motion", over=o(Mode=ALL, **MPALIGN), keys=K22), s("webmalign", "Webm", over=o(Mode=ALL, Deltas="{0,1,2,3,4,5,8,12}", **WALIGN)), s("heifdalign", "Heif", over=o(Mode=ALL, **HDALIGN))])
IOT = dict(module="IoTrace", cfg="IoTrace")
FARK = '{"fast","late","heicpost","heicbase","heicpre","heicmany","motion","motionexif","cr3","webm","jpeg","jpegno","tiff","raf","png"}'
def far(kinds, holes=(), pays="{1000}", near=""):
    """large distances: megabytes in front of the metadata, or gigabytes that the file only claims"""
    names = lambda x: "{" + ",".join('"%s"' % n for n in x.split()) + "}"
    k = names(kinds)
    return [s("far", "Io", over=o(Kinds=names(kinds + " " + near), Pads="{70000,1100000,17000000}", Pays=pays))] + [s(f"gib{h}", "Io", over=o(Kinds=k, Pads="{20,8200}", Pays=pays, Hole=h)) for h in holes]
HOLEK = '{"fast","late","twice","nomoov","heicpost","heicpre","cr3"}'
SUITES["C02"] = dict(quick=[s("io", "Io", trace=IOT), s("small", "Io", over=o(Pays="{50000}", Pads="{20,16300}", Slack=33000), trace=IOT), s("huge", "Io", over=o(Hole=4, Kinds=HOLEK, Pays="{100000}"), trace=IOT), s("gib", "Io", over=o(Hole=2, Kinds=HOLEK, Pads="{20}", Pays="{100000}"), trace=IOT)],
    thorough=[s("io", "Io", over=o(Pays="{150000,700000,3000000}", Pads="{20,21,100,101,8000,8199,8200,8201,16200,16300,16383,16384,16400,24600,24700,33000}"), trace=IOT), s("small", "Io", over=o(Pays="{35000,50000,66000}", Slack=33000), trace=IOT), s("far", "Io", over=o(Kinds=FARK, Pays="{200000}", Pads="{70000,1100000,17000000}"), trace=IOT),
              s("huge", "Io", over=o(Hole=4, Kinds=HOLEK, Pays="{70000,100000,200000}", Pads="{20,21,100,8200,16300,16400,24600,33000}"), trace=IOT)]
             + [s(f"gib{k}", "Io", over=o(Hole=k, Kinds=HOLEK, Pays="{100000}"), trace=IOT) for k in (1, 2, 3, 5, 7, 15, 4000)])
FKINDS = '{"ConnectionReset","PermissionDenied","TimedOut","Other","BrokenPipe","InvalidData","InvalidInput","WouldBlock","NotFound","OutOfMemory","WriteZero","Unsupported","ConnectionAborted","AlreadyExists"}'
SUITES["C23"] = dict(quick=[s("faults", "Faults", over=o(Kinds='{"ConnectionReset","InvalidData"}', Scheds='{"full"}')), s("kinds", "Faults", over=o(Kinds=FKINDS, Names='{"heic","mov","png","mkv","motion","tiffgap"}', Scheds='{"rand"}', Stickies="{TRUE}", Modes='{"Seek","AUnseek"}')), s("cuts", "Cuts", over=o(Fine=12))],
    thorough=[s("faults", "Faults", over=o(Kinds='{"ConnectionReset","InvalidData"}', Calls='{"kind","exif","track","imeta","eager"}')), s("bytes", "Faults", over=o(Kinds='{"TimedOut"}', Scheds='{"bytes"}')), s("kinds", "Faults", over=o(Kinds=FKINDS, Calls='{"exif","track"}')),
              s("cuts", "Cuts", over=o(Fine=600)), s("cutsr", "Cuts", over=o(Fine=60, Scheds='{"rand"}', Names="<-AllFiles"))])
ALLM = '{"Mem","Seek","Unseek","AMem","ASeek","AUnseek"}'
SUITES["C05"] = dict(quick=[s("sweep", "Damage", over=o(Stride=3)), s("walk", "Damage", "DamageW", sim=300, depth=400), s("bulk", "Bulk", per=120)],
    thorough=[s("sweep", "Damage", over=o(Modes=ALLM), timeout=1500), s("walk", "Damage", "DamageW", sim=6000, depth=400, over=o(Modes=ALLM), timeout=1500),
              s("long", "Damage", "DamageW", sim=1500, depth=400, over=o(MaxEdits=25), timeout=1500), s("bulk", "Bulk", over=o(Counts="{10,300,5000,65535,200000}", Modes=ALLM), per=240)])
SUITES["C01"]["quick"] += [s("dsweep", "Damage", over=o(Agree="TRUE", Stride=17)), s("dwalk", "Damage", "DamageW", sim=60, depth=400, over=o(Agree="TRUE"))]
SUITES["C01"]["thorough"] += [s("dsweep", "Damage", over=o(Agree="TRUE", Stride=2, Modes=ALLM), timeout=1500), s("dwalk", "Damage", "DamageW", sim=1500, depth=400, over=o(Agree="TRUE", Modes=ALLM), timeout=1500)]
SUITES["C26"] = dict(quick=[s("files", "Cli", over=o(Opts="<-FewOpts"), tool=True), s("dirs", "Cli", "CliMany", over=o(Pick=6), tool=True)],
    thorough=[s("files", "Cli", tool=True), s("pairs", "Cli", over=o(DirMax=2, Opts="<-FewOpts", Singles="{}"), tool=True), s("dirs", "Cli", "CliMany", over=o(Pick=60, DirMax=12), tool=True)])
for p, a in {"C07": far("jpeg jpegno"), "C08": far("png", pays="{60000,1100000,17000000}"), "C09": far("heicpost heicbase heicpre", (2, 5), near="heicmany"), "C10": far("cr3", (2, 5)), "C11": far("raf"), "C12": far("tiff"),
             "C20": far("fast late twice nomoov", (2, 5)), "C21": far("webm"), "C22": far("motion motionexif", pays="{5000,5000000,12000000}")}.items():
    SUITES[p]["quick"] += a
    SUITES[p]["thorough"] += a
SUITES["C01"]["quick"] += [s("far", "Io", over=o(Kinds=FARK, Pays="{1000}", Pads="{70000,1100000,17000000}"))]
SUITES["C01"]["thorough"] += [s("far", "Io", over=o(Kinds=FARK, Pays="{1000,9000,1100000}", Pads="{60000,65533,65534,70000,131072,262144,1048576,1100000,4194304,17000000}"))]
def harmed(tag, n, how):
    """the files of every format's specification, edited: how = "1" (every call returns) or "agree" (with one answer on every path)"""
    e = {"NX_DAMAGE": how}
    def h(name, module, **kw):
        return s(tag + name, module, over=o(**kw), tlcenv=e, per=240, timeout=1500)
    return [h("mov", "Mov", Mode=SOME, **{**MOVMIX, "Pick": n}), h("heif", "Heif", Mode=SOME, **{**HMIX, "Pick": n}), h("cr3", "Cr3", Mode=SOME, **{**CMIX, "Pick": n}),
            h("webm", "Webm", Mode=SOME, **{**WMIX, "Pick": n}), h("motion", "Motion", Mode=SOME, **{**MPALL, "Pick": n}),
            h("ifd", "Ifd", Mode=MEM, NDirs=4, MaxEnts=4, Pick=n, Alpha='{"a","b","bad","trunc","exif","gps"}', PtrRefs="<-Dang1", Endian=BOTHE),
            h("gps", "Gps", **{**GMIX, "Pick": n}), h("time", "Time", **{**TMIX, "Pick": n}), h("value", "Value", **{**VMIX, "Pick": n})]
def harmed_all(tag, how):
    e = {"NX_DAMAGE": how}
    return [s(tag + m.lower(), m, over=o(Mode=SOME), tlcenv=e, per=240, timeout=1500) for m in ("Jpeg", "Png", "Raf")] + [s(tag + "sniff", "Sniff", over=o(Starts="<-StartsSig", Mdats='{"near","far","none"}'), tlcenv=e, per=240)]
SUITES["C21"]["quick"] += [s("webmlive", "Webm", over=o(Mode=SOME, Kids="<-KidsLive", Seeks="<-SeeksLive", SegSizes="{0,8}", Big="{200,9000,70000}"))]
SUITES["C21"]["thorough"] += [s("webmlive", "Webm", over=o(Mode=ALL, Kids="<-KidsLive", Seeks="<-SeeksLive", SegSizes="{0,8}", Big="{200,9000,70000}", Ws="{1,2,4,8}"))]
SUITES["C08"]["quick"] += [s("textcap", "Png", over=o(Mode=SOME, Given="<-GivenFew"))]
SUITES["C08"]["thorough"] += [s("textcap", "Png", over=o(Mode=SOME, Given="<-GivenCap"), timeout=1500)]
SUITES["C05"]["quick"] += [s("sizes", "Damage", "DamageS")] + harmed("x", 600, "1")
SUITES["C05"]["thorough"] += [s("sizes", "Damage", "DamageS", over=o(Fine=200, Modes=ALLM), timeout=1500)] + harmed("x", 8000, "1") + harmed_all("x", "1")
SUITES["C01"]["quick"] += [s("dsizes", "Damage", "DamageS", over=o(Agree="TRUE", Fine=12))] + harmed("d", 400, "agree")
SUITES["C01"]["thorough"] += [s("dsizes", "Damage", "DamageS", over=o(Agree="TRUE", Modes=ALLM, Fine=80), timeout=1500)] + harmed("d", 5000, "agree") + harmed_all("d", "agree")
SBIG = dict(Ops='{"parse","keep"}', Files='{"tiffhuge","jpeghuge","jpeg","mp4"}', Modes='{"Seek","AUnseek"}', Calls='{"exif","track"}', Scheds='{"full"}', MaxLen="2")
SUITES["C03"]["quick"] += [s("big", "Session", "SessionX", over=o(**SBIG))]
SUITES["C03"]["thorough"] += [s("big", "Session", "SessionX", over=o(**{**SBIG, "Modes": '{"Seek","AUnseek","Mem"}', "MaxLen": "3", "Files": '{"tiffhuge","jpeghuge","jpeg"}'}))]
SUITES["C09"]["quick"] += [s("heifcm", "Heif", over=o(Mode=SOME, Pick=400, **{**HMIX, "Cms": "{1,2,3}"}))]
SUITES["C09"]["thorough"] += [s("heifcm", "Heif", over=o(Mode=ALL, Pick=4000, **{**HMIX, "Cms": "{1,2,3}"}))]
TMANY = {**TMIX, "DatePos": '{"last","many"}', "PtrPos": '{"last","many"}', "OffO": "<-OffFew"}
for _n, _t in ((120, "quick"), (3000, "thorough")):
    SUITES["C17"][_t].append(s("timemany", "Time", over=o(Pick=_n, **TMANY)))
    SUITES["C15"][_t].append(s("loops", "Ifd", over=o(Mode=MEM, Chain=6 if _t == "quick" else 12, Endian=BOTHE, Orders=BOTHO)))
    SUITES["C15"][_t].append(s("graphs", "Ifd", over=o(Mode=MEM, NDirs=2, MaxEnts=3, Pick=3000 if _t == "quick" else 20000, Alpha='{"a","b","bad","exif","gps"}', Endian=BOTHE)))

for _t in ("quick", "thorough"):   # the block ends behind, or within, the last directory
    SUITES["C12"][_t] += [s("ends", "Ifd", over=o(Mode=MEM if _t == "quick" else ALL, NDirs=1, MaxEnts=2, Tails="<-NegTails", Wraps=BOTHW, Endian=BOTHE)),
                          s("ends3", "Ifd", over=o(Mode=SOME, NDirs=3, MaxEnts=3, Pick=1500 if _t == "quick" else 10000, Tails="<-NegTails", Wraps=BOTHW, Orders=BOTHO, Endian=BOTHE))]
for _t, _n in (("quick", 9), ("thorough", 12)):
    for _c in ("C01", "C12"):
        SUITES[_c][_t].append(s("deep", "Ifd", over=o(Chain=_n, Gaps="{1500,3000,9000,20000}" if _t == "quick" else "{1500,3000,7000,9000,20000}", Wraps='{"tiff"}', Orders=BOTHO, Endian=BOTHE if _t == "thorough" else '{"MM"}', Mode=ALL)))
# large in number: chains of hundreds of directories, thousands of entries, shared data
WIDEN = "{1,2,3,7,8,9,20,63,64,65,100,127,128,129,255,256,257,300"
WIDEQ = dict(quick=dict(Mode=SOME), thorough=dict(Mode=ALL, Counts=WIDEN + "}"))
# (a chain that reaches beyond what a stream loads is the recorded TiffNext finding: longer ones from memory)
WIDEX = [s("widelong", "Wide", over=o(Kinds='{"chain","back"}', Mode=MEM, Counts="{500,682,1000,1500}")), s("widebig", "Wide", over=o(Kinds='{"many","shared","overlap"}', Mode=SOME, Counts="{500,682,683,1000}"))]
for _t in ("quick", "thorough"):
    SUITES["C12"][_t] += [s("wide", "Wide", over=o(**WIDEQ[_t]))]
    SUITES["C16"][_t] += [s("wide", "Wide", over=o(Kinds='{"chain","back","many"}', **WIDEQ[_t]))]
    SUITES["C13"][_t] += [s("wide", "Wide", over=o(Kinds='{"shared","overlap","many"}', **WIDEQ[_t]))]
for _p in ("C01", "C03", "C05"):
    SUITES[_p]["thorough"] += [s("wide", "Wide", over=o(**WIDEQ["thorough"]))]
for _p in ("C12", "C16"):
    SUITES[_p]["thorough"] += WIDEX
LEVEL = {}
NOTE = {}
NA = {}
ASSUME = {"*": ["the byte layouts written by the specification are the only inputs explored",
                "TLC, the harness renderer and the comparison are trusted"]}
