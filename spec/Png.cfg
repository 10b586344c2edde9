SPECIFICATION Spec
CONSTANTS
  MaxChunks = 2
  Mode = "all"
  Given <- NoneGiven
  Kinds = {"exif","exifbig","exifmagic","exifshort","exifnone","app1","app1nh","app1sp","lexif","badhex","oddhex","badtiff","short","lexifhdr","text","textdup","textlat","textempty","textnul","textnokey","textmed","textover","textbad","ihdr","unk0","unk","trap","idat8k","idat30k","idat0","iend"}
INVARIANT WalkerCorrect
CHECK_DEADLOCK FALSE
