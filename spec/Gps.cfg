SPECIFICATION Spec
CONSTANTS
  Lats <- CoordFew
  Lons = {"hund"}
  LatRefs <- RefLat
  LonRefs = {"E", "W"}
  AltRefs = {"0", "1"}
  Alts = {"frac", "absent"}
  SpRefs = {"K", "absent"}
  Sps = {"int"}
  Ptrs = {"ifd0", "exif"}
  Extras = {"none"}
  Ords = {"asc"}
  Endian = {"II"}
  Pick = 0
  Mode = "mem"
INVARIANT Faithful OrderFree RoundTrip
CHECK_DEADLOCK FALSE
