#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so the list stays consistent)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=observe,hook_needed=None)))

p("C01","Every access path gives the same answer",
  "For a well-formed media file of at least 128 bytes (any length for PNG), the answer of parse_exif, parse_track and parse_image_metadata does not depend on how the bytes reach the parser: in-memory bytes, a seekable reader, an unseekable reader, an async reader, a path, or the deprecated *_from_bytes aliases, with any split of the data into short reads, interrupted reads or pending polls. The answer is the media kind, the ordered entries (IFD, tag, value or error), the embedded-track flag, the text chunks, the track fields, or the error class. The one documented exception is that parse_track on a still image only looks for an embedded track on the synchronous paths.",
  ["inputs","schedules"],"all well-formed container layouts (header sizes, metadata positions relative to any internal read-ahead), and all read/seek/poll schedules",
  "tests run each fixture through one or two access paths with full reads; where a metadata block meets an internal read boundary is never varied",
  ["src/parser.rs","src/parser_async.rs","src/lib.rs"],
  [("parse loop Need/Skip/Done","src/parser.rs load_and_parse_with_offset"),("async mirror","src/parser_async.rs"),("in-memory mode","src/parser.rs set_memory/fill_buf")],
  ["MediaParser::parse_exif/parse_track/parse_image_metadata and async twins","read_* helpers"],
  [("buffer/position","window of the stream being parsed","src/parser.rs BufferedParserState"),("parsing state","what survives a refill or skip","src/parser.rs ParsingState")])

p("C02","Reading is forward-only, skips payloads, and stops after the metadata",
  "On a seekable reader the parser never seeks backwards or to an absolute position, and passes over large payloads that the container declares (media data boxes, unrelated large boxes, clusters, image data before the metadata) by relative seeks instead of reading them; on any reader it stops soon after the metadata it needs and never reads the rest of the file. The exceptions are the documented ones: an explicit parse_track on a JPEG motion photo, and a bounded look-ahead for the motion-photo marker.",
  ["inputs","schedules"],"all container layouts with payloads of any size before, between and after the metadata, and all read schedules",
  "no test counts bytes read or seeks; an implementation that reads gigabytes through would pass",
  ["src/parser.rs","src/parser_async.rs","src/heif.rs","src/mov.rs","src/cr3.rs","src/ebml/webm.rs","src/png.rs"],
  [("clear_and_skip","src/parser.rs"),("SkipPlan","src/parser.rs clear_and_skip_decide"),("MIN_GROW_SIZE","src/parser.rs")],
  ["calls made on the caller's Read/Seek object"])

p("C03","A reused parser behaves like a fresh one",
  "Whatever a MediaParser was used for before - any sequence of successful parses, malformed or truncated inputs, I/O errors, sync, async or in-memory sources, exif, track or image-metadata calls, with results kept or dropped - the next call returns exactly what a new MediaParser would return for that source.",
  ["histories"],"all histories of calls on one parser, with earlier results held or dropped",
  "tests reuse a parser for two or three fixed successful calls; residue left by failures or by skipped payloads is not sampled",
  ["src/parser.rs","src/parser_async.rs"],[("reset/acquire_buf/share_buf","src/parser.rs BufferedParserState")],
  ["results of consecutive parse_* calls"],[("cached","buffer recycled between parses","src/parser.rs BufferedParserState.cached")])

p("C04","Results stay valid and unchanged after later parses",
  "An ExifIter (or clone, or Exif, or ImageMetadata) obtained from a parse keeps yielding the same entries and GPS data no matter what the same parser is used for afterwards, how far it was advanced before, whether it is moved to another thread, or whether the parser is dropped.",
  ["histories","schedules"],"all interleavings of later parses on the same parser with iteration, cloning, moving and dropping of earlier results",
  "tests hold at most one iterator across one later parse; buffer recycling bugs need a specific hold/drop/parse order",
  ["src/parser.rs","src/exif/exif_iter.rs"],[("Bytes::try_into_mut gate","src/parser.rs acquire_buf"),("shared Bytes","src/parser.rs share_buf")],
  ["ExifIter::next / parse_gps / From<ExifIter> for Exif"])

p("C05","Arbitrary bytes never panic, hang or exhaust memory",
  "For any byte string, on every access path and feature of the API (parsing, iterating, GPS, conversion to Exif, formatting), calls return a value or an Error in bounded time: no panic, no abort, no endless loop, and no memory use far beyond the size of the input.",
  ["inputs"],"all byte strings; explored as spec-generated well-formed files of every supported format subjected to truncation at every offset and extreme values in every field",
  "tests cover a few known fuzz reproducers; corner values of each length, offset and count field in each format are not covered",
  ["src/parser.rs","src/heif.rs","src/cr3.rs","src/raf.rs","src/jpeg.rs","src/png.rs","src/mov.rs","src/bbox.rs","src/bbox/iloc.rs","src/ebml/webm.rs","src/exif/exif_iter.rs","src/values.rs"],
  [("checked slicing","src/slice.rs"),("MAX_PARSE_BUF_SIZE","src/parser.rs"),("MAX_IFD_DEPTH / visited offsets","src/exif/exif_iter.rs")],
  ["every public entry point"])

p("C06","Format detection follows the file signature",
  "A source is classified from its leading bytes alone: JPEG, PNG, TIFF, RAF, HEIF/AVIF and CR3 brands are Image; QuickTime/MP4/3GP brands, classic QuickTime without a file-type box, Matroska and WebM are Track; anything else fails with UnsupportedFormat at construction. Asking an Image for track info gives TrackNotFound (unless it embeds one) and asking a Track for Exif or image metadata gives ExifNotFound.",
  ["inputs"],"all leading byte strings assembled from known and unknown signatures, brand lists, box sizes and orders",
  "tests try one file per format; brand order, compatible-brand-only files and near-miss signatures are not sampled",
  ["src/file.rs","src/parser.rs","src/ebml/webm.rs"],[("MediaMime::try_from","src/file.rs")],["MediaSource::kind","error of MediaSource constructors"])

p("C07","JPEG: the first Exif segment is found wherever it is",
  "For a JPEG made of any sequence of marker segments, parse_exif returns the TIFF block of the first APP1 segment carrying the Exif identifier that occurs before the start-of-scan; other segments, other APP1 payloads and fill content are passed over, and if there is none the result is ExifNotFound.",
  ["inputs"],"all sequences of segments: kinds, sizes up to 65533 bytes, order, number, and content that resembles other markers",
  "fixtures have the Exif segment first or second",
  ["src/jpeg.rs"],[("segment walk","src/jpeg.rs extract_exif_data"),("Exif identifier check","src/jpeg.rs check_exif_header")],["parse_exif on JPEG"])

p("C08","PNG: Exif source precedence and complete text chunks",
  "For any sequence of PNG chunks, the Exif data returned is the last valid eXIf chunk, else the first ImageMagick 'Raw profile type APP1' text, else the first 'Raw profile type exif' text; chunks after IEND are ignored. Text chunks (Latin-1) are all reported in file order with duplicates kept, except malformed ones, ones above 1 MiB, and ones that would exceed 16 MiB in total; neither large nor unknown chunks in between change the answer.",
  ["inputs"],"all chunk sequences: kinds, order, sizes across internal buffer boundaries, valid and invalid payloads",
  "in-file tests use small single-buffer PNGs; interplay of precedence, skipping and buffering is not sampled",
  ["src/png.rs","src/exif/png_text.rs","src/image_metadata.rs","src/parser.rs"],[("chunk walk","src/png.rs"),("legacy hex profile","src/png.rs"),("ImageMetadata assembly","src/parser.rs parse_image_metadata")],["parse_image_metadata, parse_exif on PNG"])

p("C09","HEIF/AVIF: the Exif item is located through iinf and iloc",
  "For any HEIF/AVIF box layout, parse_exif returns the TIFF block of the item whose type is Exif, located by its iloc entry (every iloc version and field width), wherever the meta box and the data are; files without meta box or without an Exif item give ExifNotFound.",
  ["inputs"],"all box orders and sizes, item counts and ids, iloc versions and field widths, item positions before/after internal read boundaries",
  "fixtures share one producer's layout (iloc v0/1, small meta)",
  ["src/heif.rs","src/bbox/meta.rs","src/bbox/iinf.rs","src/bbox/iloc.rs","src/bbox.rs"],[("meta search","src/heif.rs"),("iloc decode","src/bbox/iloc.rs")],["parse_exif on HEIF"])

p("C10","CR3: CMT blocks in order from the Canon uuid box",
  "For any CR3 layout, the entries are those of the CMT1 block followed by those of CMT2, located through the Canon uuid box inside moov, wherever moov is and whatever boxes surround it; without moov, uuid or CMT blocks the result is ExifNotFound.",
  ["inputs"],"all box orders, sizes and subsets of CMT boxes, at any distance from the start of the file",
  "one fixture",
  ["src/cr3.rs","src/bbox/cr3_moov.rs","src/bbox/uuid.rs"],[("CMT ranges","src/cr3.rs"),("uuid parse","src/bbox/uuid.rs")],["parse_exif on CR3"])

p("C11","RAF: Exif comes from the embedded JPEG at the header's offset",
  "For any Fujifilm RAF header, parse_exif returns the Exif of the JPEG stored at the offset given in the header, at any offset at or after the header and for any JPEG segment layout; if that JPEG has no Exif the result is ExifNotFound.",
  ["inputs"],"all preview offsets and embedded JPEG layouts","one fixture",
  ["src/raf.rs","src/jpeg.rs"],[("RAF header","src/raf.rs RafInfo")],["parse_exif on RAF"])

p("C12","IFD traversal visits every directory and entry once, in order",
  "Iteration yields, for any TIFF block in either byte order, every entry of every directory reachable through the next-directory chain and the Exif/GPS pointers: in file order, a pointer's sub-directory right after the pointer, numbered by the main directory they belong to, each (directory number, tag) once. Cycles, shared or dangling offsets and over-deep nesting neither loop nor lose the entries of other directories.",
  ["inputs"],"all directory graphs (chains, nesting, sharing, cycles, dangling pointers), entry orders and positions in the block, both byte orders",
  "fixtures are trees laid out in one order; loops, sharing, duplicates and end-of-block placement are not sampled",
  ["src/exif/exif_iter.rs","src/exif/travel.rs","src/exif/exif_exif.rs"],[("explicit IFD stack","src/exif/exif_iter.rs Iterator for ExifIter"),("visited set and depth limit","src/exif/exif_iter.rs")],["ExifIter::next"],
  [("ifds / visited","traversal stack and guards","src/exif/exif_iter.rs ExifIter")])

p("C13","Entry values decode per TIFF type, count and byte order",
  "Each entry's value equals what its TIFF type, count, byte order and inline or offset data define: integers and floats of each width, arrays, rationals, undefined bytes, and text cut at the first NUL; a type/count combination that is not representable is reported as an error for that entry, never as a different value.",
  ["inputs"],"all types, counts, byte orders, data positions and bit patterns",
  "tests check about two dozen values from cameras; widths, signs, arrays, byte orders and out-of-line placement are sparsely sampled",
  ["src/values.rs","src/exif/exif_iter.rs","src/slice.rs"],[("EntryValue::parse","src/values.rs"),("inline/offset data","src/exif/exif_iter.rs IfdIter::parse_tag_entry")],["ExifIterEntry::value","Exif::get"])

p("C14","A bad entry is reported and does not affect the others",
  "An entry that cannot be decoded (data out of range, unknown type, impossible count, malformed date) is reported at its own IFD and tag - as an error result of the lazy iterator and in Exif::errors() - while every other entry of the file is still delivered unchanged and the parse succeeds. The error tells what is wrong with that entry: its type and count, or how many bytes it needs and how many there are from its offset on.",
  ["inputs"],"all positions and kinds of defects over all directory layouts",
  "tests check one hand-made defective entry at unit level",
  ["src/exif/exif_iter.rs","src/exif/exif_exif.rs","src/values.rs"],[("per-entry Result","src/exif/exif_iter.rs ExifIterEntry"),("Exif::errors","src/exif/exif_exif.rs")],["ExifIterEntry::result","Exif::errors"])

p("C15","Iterators can be rewound, cloned and queried without side effects",
  "For any sequence of next, clone, clone_rewound, rewind and parse_gps calls, a rewound iterator yields the complete entry sequence again, a clone continues exactly where its original was, clones and originals do not influence each other, and parse_gps always returns the file's GPS data without moving the iterator.",
  ["histories"],"all interleavings of iterator operations on all files, including multi-block (CR3) ones",
  "tests rewind once at the end or call parse_gps once at the start",
  ["src/exif/exif_iter.rs"],[("rewind/clone_rewound","src/exif/exif_iter.rs"),("parse_gps on a rewound clone","src/exif/exif_iter.rs")],["ExifIter operations"])

p("C16","Eager Exif holds exactly what the lazy iterator yields",
  "Converting an ExifIter to Exif (or ImageMetadata<ExifIter> to ImageMetadata<Exif>), from a fresh iterator, loses and invents nothing: every (IFD, tag) value the lazy iterator yields is returned by get, get_in, get_by_code and iter, every entry error is in errors(), GPS info equals parse_gps, and the embedded-track flag and text chunks are kept.",
  ["inputs","histories"],"all TIFF contents and all lookups","tests look up a few tags in fixtures",
  ["src/exif/exif_exif.rs","src/exif/ifd.rs","src/exif.rs","src/image_metadata.rs"],[("From<ExifIter> for Exif","src/exif/exif_exif.rs")],["Exif getters vs. ExifIter"])

p("C17","Date-times combine with the offset tags, or stay naive",
  "DateTimeOriginal, CreateDate and ModifyDate are returned as the recorded wall-clock time, combined with the file's recorded UTC offset when a well-formed one exists and without a zone otherwise; malformed date-times are an error for that entry. Wall-clock fields are never shifted, and conversions (aware, or_offset, into_naive) agree with the recorded values.",
  ["inputs"],"all date strings and presence/placement/format combinations of the offset tags","tests use three offset strings and a few dates",
  ["src/values.rs","src/exif/exif_iter.rs"],[("find_tz_offset","src/exif/exif_iter.rs"),("parse_time_with_local / repair_tz_str","src/values.rs")],["EntryValue::as_datetime, ExifDateTime"])

p("C18","GPS data is decoded faithfully and formats to valid ISO 6709",
  "GPS info contains exactly the recorded coordinates, references, altitude and speed; decimal degrees and metres carry the sign given by the references; and to_iso6709 renders the same position so that parsing the string back (GPSInfo::from_str) gives the same position. Absent or unusable fields are reported as absent or default, never as another value.",
  ["inputs"],"all combinations of GPS entries, references, rational values and ISO 6709 strings","tests use a few coordinates, all with degree/minute/second denominators of producers",
  ["src/exif/gps.rs","src/exif/exif_iter.rs"],[("parse_gps_info","src/exif/exif_iter.rs"),("to_iso6709 / FromStr","src/exif/gps.rs")],["ExifIter::parse_gps","Exif::gps_info","GPSInfo methods"])

p("C19","Value accessors and numeric conversions never change a value",
  "Typed accessors return the value only for the matching type; integer widening conversion, float conversion, rational conversion and IRational to URational conversion return either a numerically equal result or none/an error; decimal-degree conversion returns normalized degrees, minutes and seconds equal to the input within rounding, and rejects out-of-range or non-finite input.",
  ["inputs"],"all EntryValue variants with boundary values, all rationals, all degrees","tests sample typical values",
  ["src/values.rs","src/exif/gps.rs"],[("try_as_integer / try_as_float","src/values.rs"),("TryFrom<IRational> for URational","src/values.rs"),("try_from_decimal_degrees","src/exif/gps.rs")],["EntryValue::as_*, try_as_*; Rational; LatLng"])

p("C20","MOV/MP4: track fields come from the right boxes in any layout",
  "For any QuickTime/MP4/3GP box layout, parse_track reports duration and creation date from the movie header, width and height from the video track's header, and make, model, software, author and location from the user-data or metadata keys present, regardless of box order, moov before or after media data, extra boxes and 32/64-bit box sizes; a file without a movie box is an error, not empty data.",
  ["inputs"],"all box layouts, track combinations, metadata key/item tables and field values","three fixtures of one producer each",
  ["src/mov.rs","src/bbox/mvhd.rs","src/bbox/tkhd.rs","src/bbox/ilst.rs","src/bbox/keys.rs","src/video.rs"],[("moov extraction","src/mov.rs"),("keys/ilst mapping","src/mov.rs"),("tkhd of video track","src/bbox/tkhd.rs")],["parse_track on MOV/MP4"])

p("C21","Matroska/WebM: info and first video track found in any layout",
  "For any Matroska/WebM element layout, with known or unknown Segment size and with or without a SeekHead, parse_track reports the duration (scaled by TimestampScale), the creation date, and the video track's pixel width and height; absent fields keep their documented defaults.",
  ["inputs"],"all element orders, VINT widths, float/integer widths, positions relative to read boundaries","two fixtures",
  ["src/ebml/webm.rs","src/ebml/element.rs","src/ebml/vint.rs"],[("segment / seek head walk","src/ebml/webm.rs"),("VINT decode","src/ebml/vint.rs")],["parse_track on MKV/WebM"])

p("C22","Motion photos: the embedded track is flagged and extracted",
  "A JPEG whose XMP declares a motion photo (MotionPhoto or MicroVideo marker with an offset or container directory) has the embedded-track flag set, and parse_track returns the track info of the appended video at exactly the declared distance from the end of file; without the marker the flag is clear and parse_track gives TrackNotFound.",
  ["inputs"],"all XMP marker combinations, directory item lists, paddings and file sizes","one fixture and regex unit tests",
  ["src/jpeg.rs","src/parser.rs"],[("find_motion_photo_offset","src/jpeg.rs"),("parse_track on JPEG","src/parser.rs")],["ExifIter::has_embedded_track","parse_track on JPEG"])

p("C23","I/O failures surface as Io errors, never as wrong metadata",
  "If the caller's reader or seeker fails at any call, the parse returns that I/O error (same kind) unless the answer was already complete without that call, and never different metadata, a not-found verdict or a panic; if the stream ends before metadata it promised, the result is an end-of-input or malformed error or not-found, never data from elsewhere.",
  ["fault_sequences","inputs"],"an error of any kind at any read or seek of any parse, and truncation at any offset","no test injects I/O errors",
  ["src/parser.rs","src/parser_async.rs","src/error.rs"],[("fill_buf error propagation","src/parser.rs"),("ParsedError -> Error","src/error.rs")],["Result of parse_* with a failing reader"])

p("C24","Tag codes, names and identifiers round-trip",
  "Every recognised Exif tag maps to its standard code and name and back (code to tag to code, name to tag), every unrecognised code is kept verbatim as an unknown tag and its entry remains retrievable by code, and the track tag names round-trip likewise.",
  ["inputs"],"all 65536 codes and all names","tests sample a few tags",
  ["src/exif/tags.rs","src/video.rs"],[("ExifTag::from_code/code/name/FromStr","src/exif/tags.rs"),("TrackInfoTag::name/FromStr","src/video.rs")],["ExifTag, TagOrCode, TrackInfoTag conversions"])

p("C25","Text and JSON renderings keep every element of a value",
  "Display and (with the serde feature) serialization of any entry value render all its content: every array element and every byte, exact integers, text unchanged, dates in RFC 3339, and distinct values of one type never share a rendering.",
  ["inputs"],"all EntryValue variants, array lengths and values","tests check short values of five variants",
  ["src/values.rs"],[("Display for EntryValue","src/values.rs"),("Serialize for EntryValue","src/values.rs")],["to_string, serde_json::to_string"])

p("C26","rexiftool reports exactly the library's metadata",
  "For each input file, rexiftool prints every Exif entry or track field the library reports, as text or as valid JSON with the same values, honouring --no-track and directory input; an unreadable or unsupported file among several does not stop the others and never crashes the tool.",
  ["inputs","configurations"],"all files, file sets and flag combinations","no CLI test beyond argument parsing",
  ["crates/rexiftool/src/main.rs"],[("parse_file / run","crates/rexiftool/src/main.rs")],["stdout and exit status of rexiftool"])

# the final wording of the statements (what the specifications decide)
ST = {
"C01": "For any file longer than 128 bytes (any length for PNG), the answer of parse_exif, parse_track and parse_image_metadata does not depend on how the bytes reach the parser: in-memory bytes, a seekable reader, an unseekable reader, an async reader, a path, or the deprecated *_from_bytes aliases, with any split of the data into short reads, interrupted reads or pending polls. The answer is the media kind, the ordered entries (IFD, tag, value or error), GPS info, the embedded-track flag, the text chunks, the track fields, or the error class (for files that announce more data than there is, end of input and I/O errors count as one class).",
"C02": "On a seekable reader the parser never seeks backwards or to an absolute position, and large payloads that the container declares in front of the metadata (top-level MOV/MP4 boxes, PNG chunks, the stretch between the meta box and the Exif item of HEIF) are passed over by relative seeks instead of being read; on any reader it stops soon after the metadata it needs and does not read the rest of the file. Exceptions: an explicit parse_track on a JPEG motion photo, and a bounded look-ahead for the motion-photo marker.",
"C05": "For any byte string, on every access path and feature of the API (parsing, iterating, GPS, conversion to Exif, formatting), calls return a value or an Error: no panic, no abort, no endless loop, and time and memory stay proportional to the size of the input, however often a structure is repeated and however structures overlap.",
"C06": "A source is classified from its first 128 bytes alone: JPEG, PNG, TIFF (II and MM), RAF, HEIF/AVIF and CR3 brands are Image; QuickTime/MP4/3GP brands, files with an unknown major brand whose box headers lead to an mdat box there, classic QuickTime without a file-type box starting with wide and mdat boxes, Matroska and WebM are Track; a compatible brand counts like a major one; anything else fails with UnsupportedFormat at construction. Asking an Image for track info gives TrackNotFound (unless it embeds one) and asking a Track for Exif or image metadata gives ExifNotFound.",
"C07": "For a JPEG made of any sequence of marker segments, parse_exif returns the TIFF block of the first APP1 segment carrying the Exif identifier that occurs before the start-of-scan; other segments and other APP1 payloads are passed over, whatever they contain, and if there is none the result is ExifNotFound.",
"C08": "For any sequence of PNG chunks up to IEND, the Exif data returned is the last valid eXIf chunk, else the first ImageMagick 'Raw profile type APP1' text, else the first 'Raw profile type exif' text; chunks after IEND are ignored. Text chunks (Latin-1) are all reported in file order with duplicates kept, except malformed ones, ones above 1 MiB, and ones that would exceed 16 MiB in total; neither large nor unknown chunks in between change the answer.",
"C09": "For any HEIF/AVIF box layout, parse_exif returns the TIFF block of the item whose type is Exif, located by its iloc entry (single extent at a file offset, every iloc version and field width, 16- and 32-bit item ids), wherever the meta box and the data are and however the TIFF block is prefixed (offset field, Exif identifier); files without meta box or without an Exif item give ExifNotFound.",
"C10": "For any CR3 layout, the entries are those of the CMT1 block followed by those of CMT2 (each (IFD, tag) delivered once, GPS data from either), located through the Canon uuid box inside moov, wherever moov is, whatever boxes surround it and in whichever order the CMT boxes are stored; absent or unusable CMT blocks do not hide the other; without moov, uuid or CMT blocks the result is ExifNotFound.",
"C12": "Iteration yields, for any TIFF block in either byte order, the entries of every directory reachable through the next-directory chain and the Exif/GPS pointers: in file order, a pointer's sub-directory right after the pointer, sub-directories under the number of the directory that points to them and the next directory one higher, each (directory number, tag) once. Every directory is walked once: cycles, shared or dangling offsets and nesting deeper than 8 neither loop nor lose the entries of other directories. Tag 0 outside the GPS directory ends a directory, and a first directory whose entry count overruns the block is malformed.",
"C13": "Each entry's value equals what its TIFF type, count, byte order and inline or offset data define: integers and floats of each width, arrays, rationals, undefined bytes, and text (leading NULs skipped, cut at the next NUL, UTF-8 or else Latin-1); a type/count combination that is not representable is reported as an error for that entry, never as a different value.",
"C15": "For any sequence of next, clone, clone_rewound, rewind and parse_gps calls, a rewound iterator yields the complete entry sequence again, clone and clone_rewound give an iterator that starts at the first entry, clones and originals do not influence each other, and parse_gps always returns the file's GPS data without moving the iterator.",
"C16": "Converting an ExifIter to Exif (or ImageMetadata<ExifIter> to ImageMetadata<Exif>), from a fresh iterator, loses and invents nothing: every (IFD, tag) value the lazy iterator yields is returned by get, get_in, get_by_code and iter, every entry error is in errors(), GPS info equals parse_gps (an unusable GPS directory is additionally listed as an error at (MAIN, GPSInfo)), and the embedded-track flag and text chunks are kept.",
"C17": "DateTimeOriginal, CreateDate and ModifyDate are returned as the recorded wall-clock time, combined with the recorded UTC offset when there is one and without a zone otherwise; the offset is the first well-formed OffsetTimeOriginal or OffsetTimeDigitized of the Exif directory, else its OffsetTime (one whose last digit was cut off counts as ending in 0); malformed date-times are an error for that entry. Wall-clock fields are never shifted, and conversions (aware, or_offset, into_naive) agree with the recorded values.",
"C18": "GPS info contains exactly the recorded coordinates, references, altitude and speed; decimal degrees and metres carry the sign given by the references; and to_iso6709 renders the same position so that parsing the string back (GPSInfo::from_str) gives the same position (an altitude of exactly 0 may be left out). Absent or unusable fields are reported as absent or default (a coordinate of 0/0, no altitude without its reference), never as another value.",
"C19": "Typed accessors return the value only for the matching type; integer widening conversion and IRational to URational conversion return a numerically equal result or none/an error (negative parts are refused); float and rational conversion return the nearest double; decimal-degree conversion returns normalized degrees, minutes and seconds of the magnitude of the input within rounding, and rejects out-of-range or non-finite input.",
"C20": "For any QuickTime/MP4/3GP box layout, parse_track reports the duration (exact milliseconds, rounded down) and creation date from the movie header, width and height from the first video track's header, and make, model, software, author, location and creation date from the user-data or metadata keys present (items belong to the key they index; user data overrides keys, a valid creationdate key overrides the movie header), regardless of box order, moov before or after media data, extra boxes and 32/64-bit box sizes; a file without a movie box is an error, not empty data.",
"C21": "For any Matroska/WebM element layout, with known or unknown Segment size and with or without a SeekHead, parse_track reports the duration (scaled by TimestampScale), the creation date, and the first video track's pixel width and height; absent duration, width and height are 0.",
"C22": "A JPEG whose XMP declares a motion photo (MotionPhoto or MicroVideo marker with an offset or container directory) has the embedded-track flag set, and parse_track returns, on every access path, the track info of the appended video at exactly the declared distance from the end of file; without the marker the flag is clear and parse_track gives TrackNotFound.",
"C23": "If the caller's reader or seeker fails at any call, the parse returns that I/O error (same kind; an UnexpectedEof counts as the end of the stream) unless the answer was already complete without that call, and never different metadata, a not-found verdict or a panic (only the embedded-track flag may stay clear when the look-ahead for it fails); if the stream ends before metadata it promised, the result is an end-of-input or malformed error, not-found, or the entries that were readable in full plus truncation errors for the others - never data from elsewhere.",
"C25": "Display and (with the serde feature) serialization of any entry value render all its content: every array element and every byte, exact integers, text unchanged, aware dates in RFC 3339 and naive dates as YYYY-MM-DD HH:MM:SS (to the second), and distinct values of one type never share a rendering (non-finite floats have no JSON form).",
"C26": "For each input file, rexiftool prints every Exif entry, text chunk and track field the library reports, each once and under its own name, as text (long lines and values shortened with a count of what is left out, unless --full) or as valid JSON with the same values (entries of other directories nested, repeated text keys as lists), honouring --no-track, --no-format and --with-thumbnail and directory input; an unreadable or unsupported file among several is reported on stderr and does not stop the others, a path that does not exist is an error, and the tool never crashes.",
}
for q in P:
    q['statement'] = ST.get(q['id'], q['statement'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
