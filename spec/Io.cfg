SPECIFICATION Spec
CONSTANTS
  Kinds = {"fast", "late", "twice", "nomoov", "heicpost", "heicpre", "cr3", "webm", "jpeg", "jpegno", "jpegsegs", "tiff", "raf", "png", "imgtrack", "trkexif", "trkimeta"}
  Pads = {20, 100, 8200, 16300, 16400, 24600, 33000}
  Pays = {200000, 1500000}
  Hole = 0
  Slack = 65536
CHECK_DEADLOCK FALSE
