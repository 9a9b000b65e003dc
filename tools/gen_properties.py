#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
SUB="src/vobsub/sub.rs"; IMG="src/vobsub/img.rs"; PS="src/vobsub/mpeg2/ps.rs"; PES="src/vobsub/mpeg2/pes.rs"; CLK="src/vobsub/mpeg2/clock.rs"
DEC="src/vobsub/decoder.rs"; IDX="src/vobsub/idx.rs"; PAL="src/vobsub/palette.rs"; PROBE="src/vobsub/probe.rs"
PDEC="src/pgs/decoder.rs"; ODS="src/pgs/ods.rs"; PDS="src/pgs/pds.rs"; PIMG="src/pgs/pgs_image.rs"; SEG="src/pgs/segment.rs"; SUP="src/pgs/sup.rs"; PMOD="src/pgs/mod.rs"
TP="src/time/time_point.rs"; TS="src/time/time_span.rs"; SRT="src/srt.rs"; VTT="src/webvtt.rs"; AREA="src/content/area.rs"; PIX="src/image/pixels.rs"; DUMP="src/image/utils.rs"

p("V01","Any .sub content decodes to a finite list of results without crashing",
 "For every byte content of a VobSub .sub file, opening it and iterating over its subtitles never panics, aborts or hangs: the iteration ends after at most one item per pack start code (00 00 01 BA) in the file, every item being a subtitle or an error, and once ended it stays ended. Every subtitle returned is consistent: its raw picture holds exactly width x height values, all in 0..=3, and its four palette indices and four alpha values are all in 0..=15, so it renders with any 16-colour palette without a crash.",
 ["inputs"],"Every byte string as a .sub file: random, structured and mutated, including every length and offset field set to hostile values.",
 "The tests open four well-formed fixtures; the fuzzing of the original project is not part of this tree, and a panic needs a specific malformed field or run-length code.",
 [SUB,IMG,PS,PES,CLK,DEC,AREA],
 [("control sequence loop rejects backward and out-of-packet offsets",SUB),("scan-line bound checks",IMG),("resynchronisation on the next pack start code",PS)],
 ["subtile::vobsub::Sub::open(..).subtitles()","VobSubIndexedImage::{raw_image,palette,alpha}","VobSubToImage / VobSubOcrImage"])
p("V02","A well-formed VobSub subtitle decodes to exactly the picture encoded in it",
 "For every well-formed subtitle - any picture size the 12-bit coordinates allow, any legal choice of run-length codes, separately stored or overlapping even and odd scan lines, control commands in any order and spread over any number of control sequences - the decoded raw picture, display area, four palette indices and four alpha values are the ones that were encoded, the palette and alpha entry of pixel value v being at index v. When a later control sequence sets the palette, alpha or area again, the values that were set first are kept, of repeated scan-line offsets the last ones count, and force-display and unknown commands change nothing.",
 ["inputs"],"All pictures, all run-length encodings of them and all command arrangements, sampled by an independent encoder with every code length and boundary forced in.",
 "The tests decode three fixtures and compare only area, palette and alpha of one of them; no pixel is ever compared.",
 [SUB,IMG],
 [("nibble run-length decoder (1 to 4 nibble codes, fill to end of line, byte alignment)",IMG),("control command parser",SUB),("reversal of palette and alpha order",SUB)],
 ["VobSubIndexedImage::{area,palette,alpha,raw_image}"],
 [("rle offsets","start of even and odd scan-line data in the subtitle packet",SUB)])
p("V03","VobSub display times follow the presentation time stamp and command dates",
 "The start time of a decoded VobSub subtitle is its 33-bit presentation time stamp (90 kHz) plus the date (hundredths of a second) of the control sequence holding the first start command, and its end time the same stamp plus the date of the one holding the first stop command, each to within one millisecond, whether or not the packet also carries a decode time stamp laid out as MPEG-2 prescribes. When there is no stop command, the end time is five seconds after the start time, to within two milliseconds.",
 ["inputs"],"All 33-bit time stamps, 16-bit dates, PTS-only and PTS+DTS headers, with and without a stop command.",
 "The tests compare `a - b < 0.1` for one fixture, which holds for any time that is too early; no test covers a missing stop command or a DTS.",
 [SUB,PES,CLK,DEC,TP],
 [("time stamp parser (3+15+15 bits with markers)",CLK),("base time + date/100",SUB),("default length when no stop date",DEC)],
 ["TimeSpan start/end of the items of Sub::subtitles()"])
p("V04","How a VobSub subtitle is cut into packets does not change what is decoded",
 "A subtitle cut at any points after its two size bytes into any number of non-empty private-stream packets, each behind its own pack header, decodes to exactly the same subtitle as when it is sent in one packet. This holds for any clock reference, bit rate and 0 to 7 stuffing bytes in the pack headers, any flags and extra bytes in the packet headers, time stamps on the continuation packets or not, padding packets, packets of other streams and arbitrary bytes without a pack start code between the pieces, and surplus bytes after the declared size of the subtitle in its last packet.",
 ["inputs","histories"],"All fragmentations and all header variations of a stream, sampled; every cut position of small subtitles enumerated.",
 "One fixture pair (tiny / tiny-split) covers a single cut with identical headers, and compares equality of two results that could both be wrong.",
 [SUB,PS,PES],
 [("reassembly loop collecting packets of the same substream until the declared size",SUB),("pack header parser with stuffing",PS),("packet header parser skipping header data by length",PES)],
 ["items of Sub::subtitles()"],
 [("wanted","declared size of the subtitle being reassembled",SUB)])
p("V05","A defective VobSub subtitle costs exactly one error and nothing else",
 "In a stream whose packets are intact, a subtitle whose content is defective (a required command missing, an empty or inverted area, scan-line offsets out of order or out of the packet, run-length data that overruns its line or its data, a control sequence chain that goes backwards or leaves the packet; or, in a subtitle of one packet, the time stamp missing or too few bytes to hold a size) yields exactly one error at its position. All other subtitles of the stream, before and after it, are decoded exactly as if it were not defective.",
 ["inputs","histories"],"All streams mixing intact and defective subtitles, every kind of defect at every position, sampled.",
 "No test feeds a defective VobSub subtitle.",
 [SUB,IMG,DEC],
 [("one reassembled packet is fully consumed before it is interpreted",SUB),("typed errors for each missing piece",SUB)],
 ["items of Sub::subtitles()"])
p("V06","A truncated .sub file yields its complete subtitles and nothing invented",
 "When a well-formed .sub file (whose packets contain no pack start code) is cut after any number of bytes, iteration yields, unchanged and in order, exactly the subtitles whose packets lie completely before the cut, possibly followed by one error. It never yields an altered or additional subtitle.",
 ["inputs","crash_points"],"Every cut position of generated streams (all positions enumerated per stream), as left by an interrupted copy or recording.",
 "No test truncates a file.",
 [SUB,PS,PES],
 [("complete-input parsers refuse partial packets",PS),("reassembly loop ends with the stream",SUB)],
 ["items of Sub::subtitles()"])
p("V07","Reading an .idx file gives its palette and language, or an error, never a mix",
 "For every .idx text, with its lines in any order, LF or CRLF ends, comments and unknown keys, the palette is exactly the 16 hexadecimal colours of the palette line (upper or lower case), or the default palette when there is no such line, and the language is the code of the id line, or none when there is none or it holds no code. Only lines that begin with exactly that key (lower case, nothing before it) count, and of several the last one. A palette line with another non-zero number of colours, non-hexadecimal digits or trailing text is an error, never a partly filled palette; a read failure is returned as the caller's error; and no content at all makes reading panic.",
 ["inputs","fault_sequences"],"All .idx texts and arbitrary bytes, generated and mutated; a read failure at every read call.",
 "One fixture is read and two of its sixteen colours compared; default palette, language, malformed lines and read failures are never exercised.",
 [IDX,PAL],
 [("key/value line parser",IDX),("palette parser requiring 16 entries and no rest",PAL),("DEFAULT_PALETTE",PAL)],
 ["Index::read_index / Index::open","Index::{palette,lang}","vobsub::palette"])
p("V08","VobSub pictures render pixel by pixel through palette, alpha and border",
 "Every pixel of the colour rendering is the conversion function applied to the palette colour and alpha selected by that pixel's value, in row order, in an image of exactly the picture's width and height. In the OCR rendering a pixel is the text colour exactly when its alpha and its palette luminance are both non-zero and the background colour otherwise, shifted by and surrounded with a background border of exactly the requested width; the luminance palette is the standard luma of each colour and the RGBA conversion keeps colour and alpha unchanged.",
 ["inputs","configurations"],"All pictures, palettes, border widths and text/background colours, sampled including 1-pixel-high-contrast layouts and border 0.",
 "The doc-test renders one picture and looks at no pixel; the OCR rendering is never called.",
 [IMG,PAL,"src/image/mod.rs"],
 [("palette lookup and pixel mapping",IMG),("OCR border arithmetic",IMG)],
 ["VobSubToImage::to_image","VobSubOcrImage::image","palette_rgb_to_luminance","conv_to_rgba"])

p("G01","Any .sup content decodes to a finite list of results without crashing",
 "For every byte content of a PGS (.sup) stream, iterating over its subtitles never panics, aborts or hangs, with the times-only decoder and with the image decoder: it ends after no more items than the stream has bytes, each a subtitle or an error, and once ended it stays ended. Every picture returned can be iterated and rendered without a crash.",
 ["inputs"],"Every byte string as a .sup stream: random, structured and mutated, including every segment size, object length, sequence flag and run-length code set to hostile values.",
 "The tests read two fixtures from a real encoder.",
 [PDEC,ODS,PDS,SEG,PIMG,SUP],
 [("segment header parser",SEG),("palette and object segment readers",PDS+", "+ODS),("run-length pixel iterator",PIMG)],
 ["SupParser<_, DecodeTimeOnly>","SupParser<_, DecodeTimeImage>","RleEncodedImage","RleToImage"])
p("G02","A well-formed PGS object decodes to exactly the picture encoded in it",
 "For every well-formed PGS subtitle - any width and height, any palette entries in any order with any ids, any legal choice of run-length codes - the decoded picture has the encoded width and height and its pixels, in row order, are the luminance and transparency of the palette entry whose id is that pixel's colour (the last one, when an id is set again). A colour without palette entry gives a white, fully transparent pixel.",
 ["inputs"],"All pictures, palettes (sparse, unsorted, partial, full) and run-length encodings, sampled by an independent encoder with every code form and count boundary forced in.",
 "The tests on .sup files compare times only; no pixel of a PGS picture is ever looked at.",
 [PIMG,PDS,ODS,PDEC],
 [("run-length decoder",PIMG),("palette lookup by entry id",PDS)],
 ["RleEncodedImage::{iter,pixels,width,height}"])
p("G03","PGS display times are the END time stamps, whatever decoder is used",
 "In a stream that alternates display sets showing and clearing a picture, the n-th subtitle starts at the time stamp of the END segment of the n-th showing set and ends at that of the following clearing set, in whole milliseconds (time stamp / 90, rounded down), for all 32-bit time stamps. The content and size of presentation and window segments never matter, and the times-only decoder and the image decoder report the same times.",
 ["inputs","histories"],"All sequences of display sets and all time stamps, sampled; skipped segments of every size up to 65535 with hostile content.",
 "The tests compare the times of nine subtitles of two fixtures whose time stamps are all small.",
 [PDEC,SEG,SUP],
 [("pairing of END segments",PDEC),("skipping of unused segments",SEG)],
 ["TimeSpan of the items of both decoders"])
p("G04","Splitting a PGS object over two segments does not change what is decoded",
 "A PGS object whose data is sent in two consecutive object segments (first in sequence, last in sequence), cut at any point, decodes to exactly the same subtitle as when it is sent in one segment. An object too large for one segment (up to the 128 KiB that two segments hold) decodes to exactly the picture it encodes, wherever it is cut.",
 ["inputs","histories"],"Every cut position of small objects (enumerated), sampled cuts of objects up to 128 KiB.",
 "No fixture holds a split object; the code path has no test at all.",
 [ODS,PDEC],
 [("partial object carried to the next segment",ODS)],
 ["items of SupParser<_, DecodeTimeImage>"],
 [("prev_ods","object data read so far and its fill level",PDEC)])
p("G05","A malformed PGS segment costs only the subtitle it belongs to",
 "In a stream whose segment framing is intact and that alternates showing and clearing display sets, a showing set with a malformed, missing or unknown segment (palette of impossible size, object with impossible length, bad or out-of-order sequence flag, unknown segment type, missing palette or object) yields at least one error and no picture that it does not encode. All other subtitles, before and after it, are decoded exactly as if it were not malformed.",
 ["inputs","histories"],"All streams mixing intact and malformed display sets, every kind of malformation at every position, sampled.",
 "One fixture has one display set without object at a position where the reader happens to be in step; no other malformation is tested.",
 [PDEC,ODS,PDS,SEG],
 [("segment payload consumed whole before it is interpreted",PDEC),("errors leave the reader at a segment boundary",PDEC)],
 ["items of SupParser<_, DecodeTimeImage>"])
p("G06","PGS decoding does not depend on how the reader delivers the bytes",
 "For every .sup stream, both decoders give the same items whatever the reader: an in-memory cursor, a buffered reader of any capacity, a reader that returns any short reads, or one that is transiently interrupted. The skipping and exact-read helpers offered on readers advance by exactly the requested number of bytes on all of them.",
 ["inputs","schedules","fault_sequences"],"All read schedules: every buffer capacity from 1 byte up, random short reads and interruptions at every call.",
 "The tests use a buffered file reader with the default 8 KiB capacity only; what is skipped inside and across the buffer boundary is luck.",
 [PMOD,SEG,ODS,SUP],
 [("skip_data: consume within the buffer, relative seek beyond it",PMOD),("read_exact based readers",ODS)],
 ["items of SupParser over different readers","ReadExt::{skip_data,read_buffer}"])
p("G07","A failing .sup reader is reported, never taken for the end of the stream",
 "When the underlying reader fails (any error other than interruption or end of file) at any read, buffer fill or seek, the subtitles returned before that moment are those of the fault-free stream and the call during which the failure happened returns an error. A failure is never reported as the end of the stream and never produces a subtitle that the fault-free stream does not contain before it has been reported.",
 ["fault_sequences"],"A failure injected at every single reader operation of generated streams, with several error kinds.",
 "No test injects a read failure.",
 [SEG,PMOD,ODS,PDS,PDEC],
 [("error mapping of each read",SEG+", "+ODS+", "+PDS)],
 ["items of SupParser over a fault-injecting reader"])
p("G08","A truncated .sup stream yields its complete subtitles and nothing invented",
 "When a well-formed .sup stream is cut after any number of bytes, both decoders yield, unchanged and in order, exactly the subtitles whose closing END segment lies completely before the cut, then errors or the end, and they do not panic. They never yield an altered or additional subtitle.",
 ["inputs","crash_points"],"Every cut position of generated streams (all positions enumerated per stream).",
 "No test truncates a stream.",
 [PDEC,SEG,ODS,PDS],
 [("end of input inside a header ends the iteration",SEG),("end of input inside a payload is an error",ODS+", "+PDS)],
 ["items of SupParser, both decoders"])
p("G09","Iterating a PGS picture gives exactly width x height pixels and an exact length",
 "For every decoded PGS picture, whatever its run-length data, iterating its pixels never panics, yields exactly width x height pixels and then ends for good, and the announced remaining length is exact before every step. Pixels that the data does not provide are white and fully transparent, and data beyond the last pixel is ignored.",
 ["inputs"],"All run-length byte strings up to a small length (enumerated) and longer random ones, for many widths and heights.",
 "The tests never iterate the pixels of a picture.",
 [PIMG],
 [("remaining pixel count of the iterator",PIMG)],
 ["RleEncodedImage::{iter,pixels}","ExactSizeIterator::len"],
 [("remaining pixels","pixels not yet returned",PIMG)])
p("G10","PGS pictures render pixel by pixel through the conversion and border",
 "Rendering a PGS picture gives an image of exactly its width and height in which every pixel is the caller's conversion applied to the picture's pixel at that place. The OCR rendering is the same picture shifted by and surrounded with a background border of exactly the requested width on all four sides.",
 ["inputs","configurations"],"All pictures, conversions (thresholds, one to four channel outputs), borders and colours, sampled.",
 "Neither rendering of PGS pictures is called by any test.",
 [PIMG,PIX,"src/image/mod.rs"],
 [("buffer filled in row order",PIMG),("OCR border arithmetic",PIMG)],
 ["RleToImage::{to_image,image}"])

p("T01","Displayed time stamps parse back to the same time in all three formats",
 "For every time point, from the smallest to the largest, its SubRip, WebVTT and idx display is an optional minus sign, hours of at least two digits, two-digit minutes and seconds below 60 and three-digit milliseconds, separated by colons with ',', '.' and ':' respectively before the milliseconds. The time it denotes is exactly the time point.",
 ["inputs"],"All 64-bit millisecond values: every boundary and power neighbourhood, dense ranges and random samples.",
 "No test formats a time; multiplying by 1001 instead of 1000 fails no test.",
 [TP,SRT,VTT,IDX],
 [("component extraction and zero padding",TP)],
 ["Display of TimePointSrt, TimePointVtt, TimePointIdx"])
p("T02","Seconds and milliseconds agree, keep order, and out-of-range times are refused",
 "A time point made from milliseconds holds exactly that number, one made from seconds is less than one millisecond (up to floating-point rounding) from the given time and never farther from zero than it, and converting back gives the same value to the same accuracy. Later times never compare as earlier, negation mirrors a time point around zero, and a number of seconds that milliseconds cannot hold is refused (the documented panic) rather than wrapped or clamped.",
 ["inputs"],"All 64-bit millisecond values and all floating-point seconds, boundaries and random samples.",
 "Six literal values are tested.",
 [TP,TS],
 [("checked cast from floating point",TP)],
 ["TimePoint::{from_msecs,from_secs,to_secs,msecs}","ordering and negation"])
p("T03","SubRip and WebVTT output carries every subtitle, numbered, timed and complete",
 "Written SubRip text is, for every list of subtitles, the concatenation of one block per subtitle in order: its number counting from 1, a line `start --> end` with the formatted times, the text unchanged, and an empty line. A single SubRip line uses the given number and a WebVTT line is the same block without number and with WebVTT times, so an independent parser reads back the same times and texts.",
 ["inputs"],"All lists of subtitles (0 to thousands), all times, all texts including multi-line, empty and non-ASCII.",
 "No test writes subtitles.",
 [SRT,VTT,TP],
 [("write_line / write_srt",SRT),("write_line",VTT)],
 ["bytes given to the writer"])
p("T04","A failing text writer is reported and what was written is a clean prefix",
 "When the writer given to the SubRip or WebVTT functions fails after any number of bytes, the function returns that very error and the bytes already written are exactly a prefix of the fault-free output. Short writes and interruptions change nothing in the output, and success is returned only if every byte was accepted.",
 ["fault_sequences","inputs"],"A failure after every single byte of generated documents, all short-write schedules sampled.",
 "No test writes subtitles, let alone to a failing writer.",
 [SRT,VTT],
 [("errors of write propagated with ?",SRT)],
 ["return value and bytes accepted by a fault-injecting writer"])
p("I01","Dumped images are numbered in order and read back pixel for pixel",
 "Dumping any sequence of images into a folder that exists or not (including missing parents) succeeds and leaves one PNG file per image, named with its six-digit position starting at 000000, that decodes to an image of the same size, pixel type and pixels. Files of an earlier dump with the same names are replaced and other files in the folder are untouched.",
 ["inputs","configurations"],"All image sequences, sizes and pixel types (gray, gray+alpha, RGB, RGBA), folder states.",
 "No test dumps images.",
 [DUMP],
 [("enumerate + six-digit names",DUMP),("create_dir_all",DUMP)],
 ["files in the folder after dump_images"])
p("I02","A failed image dump is reported with its file and loses nothing before it",
 "When a folder cannot be created or a file cannot be created or completely written (a full device included, at any byte), dumping returns an error naming that folder or file. The images before it are complete on disk, the ones after it are not attempted, and success is returned only if every file is complete.",
 ["fault_sequences"],"A write failure after every sampled byte count of every file, an uncreatable file or folder at every position.",
 "No test dumps images.",
 [DUMP],
 [("error mapping with file name, stop at first failure",DUMP)],
 ["return value of dump_images and the files left"])
p("I03","Luma/alpha thresholding is black exactly when both thresholds are reached",
 "Converting a luminance+alpha pixel gives the minimum value (black) exactly when its alpha is greater than or equal to the alpha threshold and its luminance is greater than or equal to the luminance threshold, and the maximum value (white) otherwise. The constant-threshold function and the closure agree for every pixel and threshold, for owned and borrowed pixels and other sample types.",
 ["inputs"],"All 65536 8-bit pixels against all relevant thresholds (enumerated); samples for 16-bit and float.",
 "Neither function is called by a test.",
 [PIX],
 [("threshold comparison",PIX)],
 ["luma_a_to_luma, luma_a_to_luma_convertor"])
p("I04","Area geometry is consistent and impossible rectangles are refused",
 "A rectangle is accepted exactly when its second corner is strictly right of and below the first and its width and height fit the type that reports them; an accepted area reports left and top as given and width and height as the inclusive distances, and its size and the image sizes derived from it agree. No coordinates make construction or any of these accessors panic or wrap.",
 ["inputs"],"All 16-bit coordinates: boundary grid enumerated, random samples.",
 "Areas are only built from two valid rectangles in tests.",
 [AREA,"src/content/size.rs","src/image/mod.rs"],
 [("TryFrom check",AREA),("inclusive width and height",AREA)],
 ["Area::{try_from,left,top,width,height,size}","ImageSize::{width,height}"])

p("X01","File probes answer yes exactly for files that start with the magic bytes",
 "Probing a readable file at least as long as the magic answers yes exactly when the file starts with `# VobSub index file` (idx) or 00 00 01 BA (sub), whatever follows and whatever its name. A shorter file is never answered yes, and an unreadable path is an error carrying that path.",
 ["inputs"],"All file contents: every prefix length, every single-byte deviation (enumerated), random tails.",
 "Two fixtures are probed with each function.",
 [PROBE],
 [("exact read of the magic length",PROBE)],
 ["is_idx_file, is_sub_file"])
p("X02","Decoding is a pure function of the bytes, unaffected by other decoders",
 "Decoding the same bytes gives the same items every time: in any number of iterators over one opened file, advanced in any interleaving, alongside decoders of other data, on any number of threads at once, and after any number of earlier calls. No decoder state leaks from one iterator, file or thread into another.",
 ["schedules","histories"],"All interleavings of iterators and threads, sampled with many short histories, and one small work repeated past 65 536 times; threads additionally under ThreadSanitizer in the thorough tier.",
 "Every test decodes one file with one iterator on one thread.",
 [SUB,IDX,SUP,PDEC,PIMG],
 [("iterators own their position; no global mutable state except lazily built patterns",SUB+", "+IDX)],
 ["items of interleaved and concurrent iterators"])
p("X03","Decoding memory is bounded by one subtitle and released with the results",
 "While a stream is iterated with each item dropped before the next, peak live heap memory does not grow with the number of subtitles in the stream, and after the last result is dropped no memory allocated during decoding remains. For arbitrary hostile content it stays below 64 MiB plus a small multiple of the input size.",
 ["inputs","histories"],"Streams of growing length and hostile size fields, sampled; every allocation counted by an instrumented allocator.",
 "No test observes memory.",
 [SUB,IMG,ODS,PDEC,PDS],
 [("one subtitle packet or object held at a time",SUB+", "+PDEC),("24-bit object length, 12-bit coordinates",ODS+", "+SUB)],
 ["counting global allocator around the iteration"])
p("X04","Processing any input is free of undefined behaviour, dependencies included",
 "Decoding, rendering, reading and writing any input performs no out-of-bounds, use-after-free, uninitialised or misaligned access and no other undefined behaviour, in the crate and in the dependencies it drives. In a build with arithmetic-overflow and debug assertions enabled it behaves the same as in a release build.",
 ["inputs"],"Hostile and well-formed inputs executed under AddressSanitizer and, for small inputs, under the Miri interpreter; results of checked and release builds compared.",
 "The tests run without any sanitizer and only in the debug profile.",
 [SUB,IMG,PIMG,PDS,ODS,SEG,PS,PES,IDX,DUMP],
 [("safe Rust with checked indexing",IMG+", "+PIMG)],
 ["sanitizer and interpreter reports","digests of results in both builds"])
p("X05","The library writes nothing to standard output or standard error by itself",
 "No library call prints to standard output or standard error, whether it succeeds or fails (documented panics aside): a program that streams its own output there gets only its own bytes. This includes calls on defective content, failing readers and failing writers.",
 ["inputs","fault_sequences"],"All entry points on well-formed, hostile and fault-injected inputs with both descriptors captured.",
 "The test harness captures output and never looks at it.",
 [SEG,SUP,SUB,IDX,DUMP],
 [("diagnostics go through the log facade only","src/")],
 ["bytes captured on file descriptors 1 and 2"])
p("X06","File entry points decode the file at the path, and name the path when they fail",
 "Opening a .sub, .idx or .sup file by path gives the same result as decoding that file's bytes, for any path type and file name, also when the path leads to an open file that has no name, when the file loses its name after the opening, and, for .sub and .idx, when it leads to a pipe. A path that does not exist or cannot be read gives an error, at opening or at the first item, and the opening error carries exactly that path; nothing panics.",
 ["inputs","configurations"],"File names (non-ASCII, non-UTF-8, long, relative), file kinds (missing, directory, empty, pipe, unnamed), contents sampled.",
 "Tests open fixtures that exist.",
 [SUB,IDX,SUP,PROBE,"src/vobsub/mod.rs","src/pgs/mod.rs"],
 [("Io error variants with path","src/vobsub/mod.rs, src/pgs/mod.rs")],
 ["Sub::open, Index::open, SupParser::from_file"])
p("X07","Decoding work grows linearly with the length of the stream",
 "Decoding a stream that is k times as long (more subtitles, more packets, more padding or more junk of the same kind) executes at most about k times as many instructions, for well-formed and for malformed streams alike. A .sup stream is read once: both decoders request each byte of it from the reader at most once, up to a constant, and a standard buffered reader between them and the source fetches each byte of the source at most once.",
 ["inputs"],"Families of streams (well-formed, fragmented, junk, false start codes, errors) at doubling sizes, measured in executed instructions and reader operations.",
 "Tests use small files and measure nothing.",
 [PS,SUB,SUP,PMOD],
 [("search continues from the last position",PS),("forward-only reading","src/pgs/")],
 ["instruction counts (valgrind), reader operation counts"])
p("X08","Every way of consuming an iterator gives the same items; size hints never lie",
 "However the items of a .sub iterator, a .sup iterator (both decoders) or a PGS picture's pixel iterator are taken - one by one, by nth, skip, take, step_by, peek, count, last, fold, for_each or collect, in any mixture - they are, in the same order, the items that taking them one by one with next gives. At every moment the lower bound of size_hint is at most, and its upper bound (when there is one) at least, the number of items still to come, and once ended an iterator stays ended.",
 ["inputs","histories"],"Well-formed and hostile contents, random mixtures of iterator methods over them.",
 "The tests only use for loops and next.",
 [SUP,SUB,PIMG],
 [("Iterator implementations and their overridden methods",SUP+", "+SUB+", "+PIMG),("FusedIterator and ExactSizeIterator marks",SUP+", "+SUB+", "+PIMG)],
 ["items, counts and size hints of SupParser, VobsubParser (Sub::subtitles) and RleEncodedImage::iter"])
p("X09","Turning logging on changes no result and never crashes",
 "With a logger installed through the log facade that formats every record at any level, every call - decoding any content or from any reader, opening, probing, text output, image dumping - returns exactly what it returns without a logger, and formatting the records does not panic.",
 ["inputs","configurations"],"Well-formed, defective and hostile contents and failing readers and writers, with the log level at trace, debug, warn and error against off.",
 "The tests that install a logger leave its level at the default, so that no record of a level below error is ever formatted.",
 [SUB,IMG,PS,PES,SEG,IDX,"src/util.rs"],
 [("log records with formatted arguments (headers, packets, control sequences, scan lines)",SUB+", "+IMG+", "+PS+", "+SEG),("Debug and Display implementations used only in log records",PES+", "+CLK+", "+IMG+", src/util.rs")],
 ["items and results with and without a formatting logger"])
p("X10","Errors name their actual defect and keep the cause that they report",
 "Every error returned can be shown (Display and Debug) without panic with a non-empty text, has an ending chain of sources and can be sent to another thread; wrapping it in SubtileError keeps that chain. A subtitle with a single defect is reported as that defect: the missing part (start time, area, palette, alpha, run-length offsets, PGS palette or image), a bad area, bad offsets, control offset, segment type, sequence flag or palette size with the very values found, an object segment cut off by the end of the stream with its size, data that does not fit the picture, a missing time stamp. A failing file, .idx reader or image dump, and a .sup reader failing outside a segment header, is found unchanged (same kind and message) in the chain.",
 ["inputs","fault_sequences"],"Single defects of every listed kind in otherwise random subtitles, hostile contents, readers failing at any operation with any kind of error, unusable paths.",
 "Two tests match one error variant each; no message, cause or value is ever looked at.",
 ["src/errors.rs","src/vobsub/mod.rs","src/pgs/mod.rs",SUB,IMG,ODS,PDS,DUMP,"src/content/mod.rs"],
 [("error enums with sources","src/vobsub/mod.rs, src/pgs/mod.rs, src/errors.rs"),("choice of the error at each check",SUB+", "+PDEC+", "+ODS)],
 ["VobSubError, PgsError, SubtileError, DumpError, ContentError: variant, fields, Display, Debug, source"])
p("X11","Results are the same on 32-bit and big-endian machines",
 "Decoding, rendering, reading and writing give the same results on every machine: on one with 32-bit pointers (i686) and on a big-endian one (s390x) every subtitle, picture, time, error, rendered image and text is the one that a 64-bit little-endian machine (x86-64) gives, and no undefined behaviour or overflow occurs there.",
 ["inputs","configurations"],"Small well-formed, extreme and hostile contents interpreted for the other machines and compared with native execution.",
 "The tests run on the machine they are built on.",
 [SUB,IMG,PIMG,ODS,PDS,SEG,CLK,PES,TP,"src/pgs/u24.rs",AREA],
 [("explicit big-endian reads",SEG+", "+ODS+", "+SUB+", src/pgs/u24.rs"),("arithmetic in fixed-width types, checked casts",PIMG+", "+TP+", "+PMOD)],
 ["digests of all results per case, native and interpreted"])
p("X12","A film converts into one image and one text entry per subtitle",
 "Converting a whole file with the public calls - decode, render every picture, dump the images, write SubRip and WebVTT - gives for each well-formed subtitle, in file order, exactly one numbered image with the encoded pixels under the chosen conversion (colours of the .idx palette, decoded grey and alpha, black and white, OCR) and exactly one entry with its number, its times and its text. Defective subtitles give one error each and leave no trace in the outputs, and decoding piped straight into the dump gives the same as decoding everything first.",
 ["inputs"],"Films of one to six subtitles with or without defective ones among them, any palette, any thresholds and OCR options.",
 "No test goes further than decoding a fixture and dumping it unread; no test combines index, decoder, renderer, dump and text writers.",
 [SUB,IMG,IDX,PDEC,PIMG,DUMP,"src/srt.rs","src/webvtt.rs"],
 [("iteration over decoded subtitles",SUB+", "+PMOD),("numbering of images and of entries",DUMP+", src/srt.rs")],
 ["files of a conversion: images, SubRip, WebVTT"])
p("X13","Parsing a .sup stream can stop and go on anywhere, with any decoder",
 "A SupParser adds nothing to its decoder: making one does not touch the reader, and up to the end of the stream each item is one call of parse_next on the caller's reader, whose result comes out unchanged, for the decoders of the crate and for one supplied by the caller, with any output type. A subtitle is handed out before anything behind its closing END segment is asked of the reader, which then stands exactly behind it, so a new parser of either kind on the same (borrowed) reader goes on with the next subtitle, and a new parser per item gives what one parser gives, whatever the content and however the reader hands out bytes.",
 ["inputs","operation_sequences"],"Streams of one to eight subtitles and hostile contents, a new parser with a random decoder for each item, readers with any windows, interruptions and failures; caller-supplied decoders with errors and seeks.",
 "The tests make one parser per file, with the crate's decoders only.",
 [SUP,PDEC,SEG,PMOD],
 [("iterator that calls the decoder",SUP),("reader left behind the END segment",PDEC)],
 ["SupParser::new, next; PgsDecoder::parse_next; operations and position of the reader"])
p("X14","Values compare, copy, sort and hash by their content",
 "Two VobSub pictures are equal exactly when position, shape, palette, alpha and pixels are; areas exactly when their coordinates are; times and time spans exactly when their milliseconds are. Copies and clones (pictures of both formats, used or not, areas, times, spans, the language of an index) show the same as their origin and stay unchanged without it. TimePoints sort and hash as their milliseconds do. Default values are the documented ones, and accessors give back what constructors were given.",
 ["inputs"],"Pairs that differ in exactly one aspect or in none, decoded or constructed; clones used after the original is gone; random sets of times.",
 "The tests compare two fixed pictures and never clone, hash or sort anything.",
 [IMG,AREA,TP,"src/time/time_span.rs",IDX,SUB,"src/image/mod.rs"],
 [("derived and hand-written comparison, clone, default",IMG+", "+AREA+", "+TP)],
 ["PartialEq, Eq, Ord, Hash, Clone, Default of the public types"])
p("X15","Calls touch only the files that they are given",
 "Reading a file (the probes, Index::open, Sub::open, SupParser::from_file and decoding from it) opens that file and nothing else, for reading only. A dump creates the missing folders of its target and writes there exactly the files NNNNNN.png of its own images, no temporary ones, and leaves everything else as it was. Calls given no file open none. No call starts processes or uses the network, renames, removes or changes other files, or changes the state of the process (current folder, environment, signal settings, file mask); when its values are dropped, no descriptor or thread stays behind.",
 ["inputs","configurations"],"All entry points on valid, hostile, missing, linked and unusual files with neighbours of similar names; dumps into existing, missing, used and blocked folders.",
 "The tests look at returned values only.",
 [IDX,SUB,SUP,PROBE,DUMP],
 [("opening of files by path",IDX+", "+SUB+", "+SUP+", "+PROBE),("creation of folders and images",DUMP)],
 ["system calls, files, descriptors, threads, working directory, environment, signal settings"])
p("X16","The stack that a call needs does not grow with its input",
 "Decoding, rendering, index reading, text writing and dumping need a bounded stack: it does not grow with the number of subtitles, packets, control sequences, errors, skipped bytes, lines, rows, run-length codes or images, and stays small enough for threads with small stacks (below 200 kB), for well-formed and malformed input, optimised or not.",
 ["inputs"],"Families of streams and single large objects at lengths n and 32 n, hostile contents; optimised and unoptimised builds.",
 "Tests use small files on large stacks.",
 [PS,SUB,IMG,PDEC,PIMG,IDX,DUMP],
 [("loops over packets, control sequences, scan lines, segments",PS+", "+SUB+", "+IMG+", "+PDEC)],
 ["bytes of stack used by a call"])
p("X17","What the caller hands in may panic or use the crate itself",
 "When something that the caller handed in - reader, writer, decoder, pixel conversion, colour, image, path, iterator of images, error constructor - panics at any point, that very panic comes out of the call, everything delivered before (items, text, images given to a dump before the one in work) is complete and as usual, no memory stays allocated, and all later calls work as if nothing had happened. When it uses the crate itself in the middle of the call, both calls give what they give alone.",
 ["fault_sequences","operation_sequences"],"Eleven kinds of calls, a panic or a nested call of any kind at any call out of the crate, contents well-formed and hostile, failing readers.",
 "No test hands in anything that panics or calls back.",
 [SUP,PDEC,IDX,IMG,PIMG,DUMP,"src/srt.rs","src/webvtt.rs"],
 [("generic parameters supplied by the caller",SUP+", "+IDX+", "+IMG+", "+PIMG+", "+DUMP)],
 ["panic payloads, results, written output, live memory, later results"])
p("X18","Neither the length of a film nor the place in it matters",
 "A subtitle comes out as encoded whatever its number in the film (beyond 2^16 too), its offset in the file or source (beyond 2^32 for a .sup, wherever in its source the reader stands at the beginning), the bytes between it and its neighbours, and the number of packets that carry it (down to one byte each). Texts of any number of entries and lines are numbered and written exactly, an .idx of any length is read to the right palette and language, and a dump of thousands of images holds each under its number.",
 ["inputs"],"Films of 300 to more than 65 536 subtitles, gaps of kilobytes to more than 4 GiB, sources that begin at up to 2^62, indexes of megabytes, texts of more than 65 536 entries, dumps of thousands of images.",
 "The tests decode files of at most some dozens of kilobytes.",
 [SUB,PS,PES,SUP,PDEC,PMOD,SEG,IDX,DUMP,"src/srt.rs"],
 [("offsets and counters",SUB+", "+PS+", "+PMOD+", "+DUMP+", src/srt.rs"),("relative seeks",PMOD)],
 ["every item of long films, texts, images"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
