"""Per property: how its cases are made, how much of them a quick run takes, what the evidence says."""

VOB = ("Files are made by an independent encoder and multiplexer (harness/core/src/vob.rs), seeded per case; ")
PGS = ("Streams are made by an independent encoder (harness/core/src/pgs.rs), seeded per case; ")

# id: (scale of the quick counts, level, technique, rule)
PROPS = {
 "V01": (6, "exploration", "monitored execution of hostile inputs (checked build) with hang watchdog and result-invariant monitor",
   "Random, structured, mutated and valid .sub contents, every value of every byte of small files, and fixtures cut and altered; each is decoded to the end and past it, and every result rendered. Non-trivial: the content holds at least one pack start code or yields at least one item; distinct by content hash."),
 "V02": (4, "exploration", "independent encoder as reference model, decoded picture compared value by value",
   VOB + "every run length with every code length, all small layouts, command orders and splits. Non-trivial: a subtitle was decoded and its picture, area, palette and alpha compared; distinct by content hash."),
 "V03": (30, "exploration", "reference-model monitor on reported times",
   VOB + "every bit of the 33-bit stamp walked, boundary and random dates, PTS and PTS+DTS headers. Non-trivial: a subtitle's two times were compared with the model; distinct by (stamp, dates, header kind)."),
 "V04": (12, "exploration", "metamorphic monitor: fragmented delivery against one-packet delivery and against the encoder's model",
   VOB + "every single cut of small subtitles, random multi-cuts, header variations and traffic in between. Non-trivial: a fragmented subtitle decoded and compared; distinct by content hash."),
 "V05": (12, "exploration", "defect injection with a monitor for exactly one error and unchanged neighbours",
   VOB + "one to several subtitles get a defect of one of the listed kinds. Non-trivial: at least one defect and one intact neighbour; distinct by content hash."),
 "V06": (20, "fault_enumeration", "cut-point enumeration with prefix monitor",
   VOB + "each file is cut at every byte and the results compared with the expected prefix. Evaluations count cuts; distinct by file content."),
 "V07": (16, "exploration", "independent .idx model, hostile texts, read faults at every call",
   "Valid files with lines in any order, ends, comments and unknown keys; files with one defect; arbitrary bytes; readers failing at each call. Distinct by text hash."),
 "V08": (160, "exploration", "pixel-by-pixel reference rendering",
   "Random pictures, palettes, borders, colours; rendered by the crate and by a naive reference; every pixel compared. Distinct by input hash."),
 "G01": (2, "exploration", "monitored execution of hostile inputs (checked build) with hang watchdog and result-invariant monitor",
   "Random, structured, mutated and valid .sup contents, every value of every byte of small streams, fixtures cut and altered; both decoders run to the end and past it, and every picture is iterated and rendered. Distinct by content hash."),
 "G02": (3, "exploration", "independent encoder as reference model, every pixel compared",
   PGS + "every run form and length, all palette layouts. Non-trivial: a picture was decoded and each pixel compared; distinct by content hash."),
 "G03": (32, "exploration", "reference-model monitor on reported times, both decoders compared",
   PGS + "every bit of the 32-bit stamps walked, random alternations, segments of any size. Distinct by content hash."),
 "G04": (9, "exploration", "metamorphic monitor: object in two segments against one segment",
   PGS + "every cut of small objects, random cuts of large ones. Distinct by content hash."),
 "G05": (24, "exploration", "defect injection with a monitor for errors in place and unchanged neighbours",
   PGS + "one to several display sets get a malformation of one of the listed kinds. Distinct by content hash."),
 "G06": (9, "exploration", "schedule exploration of the reader (windows, short reads, interruptions) with an equality monitor",
   PGS + "valid and hostile streams, read through buffers of every size, short reads, interruptions at any call. Distinct by (content, schedule)."),
 "G07": (20, "fault_enumeration", "fault injection at every reader operation with a trace monitor",
   PGS + "each stream is decoded once per reader operation with a failure at that operation. Evaluations count injected failures; distinct by (content, operation)."),
 "G08": (25, "fault_enumeration", "cut-point enumeration with prefix monitor",
   PGS + "each stream is cut at every byte and both decoders' results compared with the expected prefix. Evaluations count cuts; distinct by content."),
 "G09": (36, "exploration", "iterator monitor (count, remaining length at every step, fusedness) over all short code strings and random ones",
   "Run-length data: all strings over an alphabet of codes to a depth, random codes and bytes, very wide runs. Distinct by data and size."),
 "G10": (12, "exploration", "pixel-by-pixel reference rendering",
   "Decoded pictures of any size rendered with random conversions and borders; each pixel compared. Distinct by input hash."),
 "T01": (16, "exploration", "independent formatter and parser, round trip",
   "Edges of every field, dense ranges around rollovers, random over the whole 64-bit range. Distinct by time point."),
 "T02": (32, "exploration", "reference arithmetic in wider integers, ordering monitor, refused range",
   "Milliseconds and seconds over the whole range and around the limits, adjacent floating-point values. Distinct by value."),
 "T03": (100, "exploration", "independent parser and writer as reference, output compared byte by byte",
   "Random subtitle lists and texts (empty, multi-line, Unicode, CRLF). Distinct by output hash."),
 "T04": (32, "fault_enumeration", "fault injection at every output byte with prefix monitor",
   "Each list is written once per failing byte position, with short and interrupted writes and several error kinds. Evaluations count injected failures."),
 "I01": (2, "exploration", "read-back monitor with an independent PNG reading and folder listing",
   "Random sequences of images of eight pixel types into new, nested and used folders. Distinct by image contents."),
 "I02": (8, "fault_enumeration", "file-size limit at every byte, full device and uncreatable paths, with a read-back monitor",
   "Each dump is repeated with the file-size limit at chosen or all byte positions, on /dev/full, and with folders and files that cannot be created. Evaluations count injected failures."),
 "I03": (16, "exploration", "exhaustive comparison with the stated rule",
   "All thresholds with all nearby pixel values, all pairs of the full grid sampled, other sample types and borrowed pixels. Distinct by (pixel, thresholds)."),
 "I04": (18, "exploration", "reference arithmetic in wider integers over a boundary grid and random rectangles",
   "All combinations of boundary coordinates, and random ones. Distinct by rectangle."),
 "X01": (200, "exploration", "probe compared with a byte-prefix reference",
   "Every prefix of each magic with every next byte, every single altered byte, random contents, unreadable paths of nine kinds. Distinct by content or path."),
 "X02": (1, "exploration", "metamorphic monitor over interleaved iterators and threads, plus ThreadSanitizer build of the threaded workloads",
   "Valid and hostile files decoded by several iterators in random interleavings and by up to eight threads released by a barrier; all results are compared with those of a decoder alone. Distinct by (content, interleaving)."),
 "X03": (15, "exploration", "allocation monitor (counting global allocator: live and peak bytes)",
   "Streams of growing length of every family, valid and hostile contents; live and peak heap bytes are measured around each iteration. Distinct by content."),
 "X04": (1, "exploration", "AddressSanitizer, MemorySanitizer, Miri and checked builds of the same workload, results compared with the release build",
   "Hostile and valid inputs for every entry point run in five builds of crate and dependencies; result digests of all cases are compared. Distinct by content."),
 "X05": (6, "exploration", "descriptor capture of standard output and error around every call",
   "All entry points on valid, hostile and fault-injected inputs with descriptors 1 and 2 redirected to files; any byte is a violation. Distinct by content."),
 "X06": (12, "exploration", "differential monitor: by path against by content; unreadable paths",
   "Valid and hostile contents under random names, relative, absolute, linked and non-UTF-8 paths, and nine kinds of unreadable paths. Distinct by (content, path)."),
 "X07": (1, "exploration", "work counters: instructions under valgrind (callgrind), allocations, processor time and reader bytes against stream length",
   "26 families of valid and malformed streams at two lengths; work per unit of length is compared. Distinct by content."),
 "X08": (8, "exploration", "model monitor on iterator methods, counts and size hints",
   "Random mixtures of iterator methods over valid and hostile contents and pictures; items, counts and size hints compared with plain iteration. Non-trivial: more than one item and at least one step; distinct by (content, plan)."),
 "X09": (4, "exploration", "differential monitor: formatting logger on against off",
   "Valid, defective and hostile contents, readers, writers and dumps run with a logger that formats all records, and without. Non-trivial: at least one record was formatted (documents) or the branch with a defect was taken; distinct by (content, level)."),
 "X10": (30, "exploration", "defect and fault injection with a monitor on error variants, values, texts and causes",
   "Single defects, hostile contents, failing readers and unusable paths; each error is shown, converted and traced to its root. Distinct by content and operation."),
 "X11": (12, "exploration", "Miri interpreting 32-bit and big-endian machines, results compared with native execution",
   "Small valid, extreme and hostile contents for every entry point; result digests of all cases compared between machines. Distinct by content."),
 "X12": (40, "exploration", "reference-model monitor on whole conversions: images read back, texts parsed by an independent reader",
   "Films of one to six subtitles, some defective, converted to images of several kinds, SubRip and WebVTT, decoding piped into the dump or collected first. Non-trivial: at least two subtitles; distinct by (stream, index or thresholds)."),
 "X13": (15, "exploration", "trace monitor on the reader and on the calls of a decoder supplied by the caller; model monitor on resumed parsing",
   "Borrowed instrumented readers taken over by a parser per subtitle, decoders of the caller on contents with errors and failing readers, mixtures of iterator methods. Distinct by content and reader behaviour."),
 "X14": (64, "exploration", "metamorphic monitor on equality, copies, order and hashes",
   "Pairs of values that differ in one named aspect or in nothing, decoded and constructed pictures, copies that outlive their origin, sets of times sorted and hashed. Distinct by content."),
 "X15": (1.5, "exploration", "system-call trace monitor (seccomp user notification) with a per-call specification, file-system and process-state comparison",
   "Every entry point on files with tempting neighbours, missing, linked and replaced files, dumps into folders of every kind, and calls without files; each intercepted system call is judged. Non-trivial: at least one system call was judged or the call had an input of its own; distinct by content and calls."),
 "X16": (6, "exploration", "stack-depth monitor (painted stacks) at two lengths, optimised and unoptimised builds",
   "Contents of 26 families and 12 kinds of large single objects at lengths n and 32 n, and hostile contents, each on a painted stack of 512 KiB; the deepest byte used is compared. Distinct by content."),
 "X17": (4, "fault_enumeration", "injected panics and nested calls in everything of the caller that the crate calls, with monitors on results, leaks and later calls",
   "Eleven kinds of calls whose readers, writers, conversions, colours, images, paths, decoders or error makers panic, or use the crate themselves, at a chosen call. Evaluations count comparisons; distinct by content, call and place."),
 "X18": (1, "exploration", "independent encoders as reference model on very long films, far places and many pieces",
   "Films of 300 to 70 000 subtitles, subtitles of up to 65 000 packets, subtitles gigabytes apart and sources that begin anywhere in 64 bits, texts of 160 000 entries, indexes of megabytes, dumps of thousands of images, each compared with the model item by item. Distinct by content."),
}
