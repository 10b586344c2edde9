SPECIFICATION Spec
CONSTANTS
  Brands = {"heic"}
  Pre <- PreNone
  MetaAligns = {}
  MetaDeltas = {}
  Items <- ItemsStd
  IinfV = {0}
  InfeV = {2}
  IlocV = {0,1,2}
  OffW = {0,4,8}
  LenW = {4,8}
  BaseW = {0,4,8}
  IdxW = {0,4}
  MetaOrd = {"std"}
  Where = {"post"}
  Gaps = {0,100}
  DataAligns = {}
  DataDeltas = {}
  Prefix = {"exif6"}
  Lens = {5}
  Wide = {FALSE}
  KWide = {FALSE}
  Exts = {1}
  Cms = {0}
  Post <- PreNone
  Pick = 0
  Mode = "all"
INVARIANT WalkerCorrect
CHECK_DEADLOCK FALSE
