#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "A scan reports exactly the file's box tree, whatever the callback does",
  "Scanning a well-formed file reports every box exactly once, in file order, each parent before the children it expands to, with its true offset, header size, total size, type, to-end-of-file mark, path from the root and the decoding context implied by its ancestors and preceding siblings. "
  "This holds for 32-bit, 64-bit and to-end-of-file sizes, for boxes of unknown type or unsupported version, for empty boxes and QuickTime terminators, and for scans started at an inner box. "
  "It holds whatever the callback does with a box: skip it, read its decoded payload or raw bytes any number of times, expand it once or repeatedly, or leave the shared stream at any position.",
  ["inputs","schedules","histories"], "every well-formed file, every per-box sequence of callback actions (payload/data/expand/move the shared cursor), every segmentation of the reads",
  "The tests scan three sample files with one fixed callback that always reads and expands in the same order; they never move the shared cursor, repeat an operation or mix header styles.",
  ["read.go","box_info.go"], [("handles re-seek to the payload or to the children before each operation","read.go:readBoxStructureFromInternal"),("end-of-box seek after each callback","read.go:readBoxStructureFromInternal"),("context propagation to siblings and descendants","read.go:readBoxStructure")],
  ["ReadBoxStructure","ReadBoxStructureFromInternal","ReadHandle"], [("stream cursor","position of the shared ReadSeeker between operations","caller's reader"),("context","QuickTime, keys count, under-wave/ilst/meta/udta","box_info.go:Context")])
p("C02", "Callback errors, parameters and results pass through a scan unchanged",
  "When a scan callback returns an error, the scan stops at once, visits no further box and returns that same error. "
  "Parameters given to a scan or to an expansion reach exactly the callbacks of that level, and each expansion returns the values of its own children in order. "
  "If a callback swallows an error from one expansion or read, every later sibling is still visited correctly.",
  ["histories","fault_sequences","inputs"], "every position in the tree at which a callback may fail, cancel, panic-free swallow an error, and every assignment of parameters and return values",
  "No test cancels a scan, and parameters/values are asserted for a single fixed tree.",
  ["read.go"], [("error returned before the seek to the box end","read.go:readBoxStructureFromInternal"),("values appended per level","read.go:readBoxStructure")], ["ReadBoxStructure","ReadHandle.Expand"])
p("C03", "Results do not depend on how the stream delivers its bytes",
  "Every reading operation (reading a box header, scanning, extracting, decoding a payload, copying raw data, probing, finding IDR frames) gives the same result, or fails alike, however the underlying stream splits its deliveries. "
  "Deliveries include one byte at a time, arbitrary short reads, and the last bytes arriving together with the end-of-file mark. "
  "This holds for well-formed and for corrupted or truncated input.",
  ["schedules","inputs"], "every segmentation of every read over every input, including final data delivered with io.EOF",
  "All tests read from bytes.Reader or os.File, which always deliver the full request and never data together with EOF.",
  ["internal/bitio/read.go","internal/util/io.go","marshaller.go","box_info.go","probe.go","read.go"],
  [("io.CopyN / io.ReadFull around every multi-byte read","box_info.go:ReadBoxInfo, marshaller.go, probe.go"),("byte-wise bit reader","internal/bitio/read.go:ReadBit")], ["all read APIs"])
p("C04", "A failing read or seek never turns into a wrong answer",
  "If a read or seek of the underlying stream fails while a reading operation is using it, the operation reports an error. "
  "It never reports success with missing, altered or invented data, and never treats an I/O failure as a normal end of file. A stream that ends inside the data being read makes the operation fail; only a scan from the start may simply end there, after every box whose header is complete. "
  "A stream that stalls by delivering nothing without an error makes the operation fail or give the correct result, never a different one.",
  ["fault_sequences","inputs"], "every operation index at which a read or seek may fail (hard error, unexpected EOF, partial data plus error, stalled read), for every read API and input",
  "The tests inject no read or seek errors.",
  ["box_info.go","read.go","marshaller.go","extract.go","probe.go","internal/bitio/read.go","internal/util/io.go"],
  [("error checks after each Seek/Read/CopyN","all read paths"),("io.EOF is an end only at the root and from the header read","read.go:readBoxStructure")], ["all read APIs"])
p("C05", "Transient read failures can be retried to the right result",
  "After a reading operation failed because of a transient stream fault, repeating it on the same handle or the same stream gives exactly the result it would have given without the fault. "
  "Repeating an operation that succeeded gives the same result again. "
  "A fault met in one box, when the callback tolerates it, does not disturb what is reported for the other boxes.",
  ["fault_sequences","histories"], "every fault point within every handle operation, followed by retries in any order on the same handle, and whole-call retries on the same stream",
  "The tests inject no faults and never repeat an operation on a handle.",
  ["read.go","extract.go","probe.go"], [("absolute re-seek at the start of every operation","read.go, extract.go, probe.go"),("children offset cached only after a successful decode","read.go:readBoxStructureFromInternal")], ["ReadHandle","ExtractBoxes*","Probe"],
  [("childrenOffset","where the children of a handle's box start, cached by the first successful payload decode","read.go")])
p("C06", "Decoding a stream yields exactly the values the bytes encode",
  "Decoding the payload of any supported box type, version, flag combination and context yields exactly the field values that the format assigns to the bytes, reports the number of bytes consumed and leaves the stream right after them. "
  "A payload of an unsupported version is refused with the dedicated error and the stream is left where decoding started, so the caller can fall back to the raw bytes. "
  "This holds at any position of the stream, for any delivery of its bytes and however often a stream is reused for further boxes.",
  ["inputs","schedules","histories"], "all box types x versions x flags x contexts x field values, decoded in sequences over streams with arbitrary segmentation",
  "The tests decode one or two hand-written payloads per type from a contiguous in-memory buffer.",
  ["marshaller.go","field.go","box.go","mp4.go","box_types_3gpp.go","box_types_av1.go","box_types_etsi_ts_102_366.go","box_types_iso14496_12.go","box_types_iso14496_14.go","box_types_iso14496_30.go","box_types_iso23001_5.go","box_types_iso23001_7.go","box_types_metadata.go","box_types_opus.go","box_types_vp.go"],
  [("tag-driven decoder","marshaller.go:Unmarshal"),("per-type layouts","box_types_*.go")], ["Unmarshal","UnmarshalAny","ReadHandle.ReadPayload"])
p("C07", "Encoding a box writes exactly its bytes and loses nothing on reload",
  "Encoding any supported box writes exactly the bytes the format assigns to its fields, reports their number and leaves the box unchanged. "
  "Decoding what was written gives back the same field values, and re-encoding a decoded canonical payload reproduces it byte for byte. "
  "This holds for every version, flag combination and context, and for boxes encoded one after another to the same stream.",
  ["inputs","histories"], "all box types x versions x flags x contexts x field values, written in sequences to one stream and read back from it",
  "The tests encode one or two hand-written values per type to a buffer.",
  ["marshaller.go","field.go","box_types_3gpp.go","box_types_av1.go","box_types_etsi_ts_102_366.go","box_types_iso14496_12.go","box_types_iso14496_14.go","box_types_iso14496_30.go","box_types_iso23001_5.go","box_types_iso23001_7.go","box_types_metadata.go","box_types_opus.go","box_types_vp.go","internal/bitio/write.go"],
  [("tag-driven encoder","marshaller.go:Marshal"),("bit writer","internal/bitio/write.go")], ["Marshal"])
p("C08", "A failing write is always reported",
  "If any write or seek of the output stream fails while a box is encoded, a header is written, a box is opened, closed or copied, or raw data is copied out, that operation returns an error. "
  "A full disk, a short write or a failing source during a copy is reported in the same way, and no operation reports a byte count it has not delivered. "
  "Whatever was written before the fault is a prefix of what the fault-free run writes.",
  ["fault_sequences","inputs"], "every write/seek index of every writing operation x {error, short write with error, disk full, seek error}, for every box type",
  "The only write-error tests cover a single failing operation on a mock; no box is encoded to a failing writer.",
  ["write.go","box_info.go","marshaller.go","internal/bitio/write.go","read.go","box_types_iso14496_12.go","box_types_iso14496_14.go"],
  [("error returns propagated through the recursive encoder","marshaller.go"),("error checks in Writer","write.go")], ["Marshal","WriteBoxInfo","Writer","ReadHandle.ReadData"])
p("C09", "Nested boxes written through the writer always come out with exact sizes",
  "For every sequence of opening boxes, writing payload, copying boxes and closing boxes, the finished output parses back to exactly the nesting and payload bytes that were written, every size field covers its box, and the stream ends right behind the last byte. "
  "Header style is kept (64-bit headers stay 64-bit, to-end-of-file marks stay), existing bytes outside the written range are untouched, and a box that outgrows a 32-bit header is refused with an error rather than written with a wrong size. "
  "The box descriptions returned for opened and closed boxes agree with what is on disk.",
  ["histories","inputs"], "all open/write/seek/copy/close histories, at any start offset of a pre-filled disk, with sizes on both sides of the 32-bit limit (sparse disk)",
  "The tests write one fixed tree of a few boxes; nothing near 4 GiB and no pre-existing content.",
  ["write.go","box_info.go"], [("stack of open boxes","write.go:Writer"),("size patched at close, position restored","write.go:EndBox")], ["Writer","ReadBoxStructure over the result"], [("biStack","open boxes","write.go:Writer")])
p("C10", "A crash or a concurrent reader never sees a finished top-level box damaged",
  "While a file is being written box by box, at every instant — after any write, with any write torn — every top-level box that was already finished is intact and is scanned with its final content, and stays so. "
  "A reader that scans the growing file at such an instant terminates, reports every finished box correctly, and either stops at or fails inside the unfinished tail. "
  "Writing continues to a correct file whatever readers do in between.",
  ["crash_points","schedules","histories"], "every crash/tail point in the write log of every writing history, including torn final writes; every interleaving of a tailing reader with the writer",
  "The tests only read finished files.",
  ["write.go","box_info.go","read.go"], [("only the open box's own header is patched","write.go:EndBox"),("sequential writes","write.go")], ["device images at each crash point"])
p("C11", "Corrupt, truncated or changing files never crash, hang or exhaust the reader",
  "For arbitrary file contents — random bytes, valid files with any bytes or sizes corrupted, files cut at any point, files changing while being read — scanning, extracting, decoding, probing, rendering, IDR search and bitrate computation return normally with a result or an error. "
  "They never panic, never loop without progress, use a number of I/O operations bounded by the size of the file, and never allocate memory because of a size field the file cannot back.",
  ["inputs","fault_sequences"], "all byte strings; all single and multiple corruptions of valid files, truncation points and mid-read mutations",
  "The tests contain a handful of hand-picked malformed inputs.",
  ["box_info.go","read.go","marshaller.go","extract.go","probe.go","string.go","internal/util/io.go"],
  [("size checks of children against parents","read.go:readBoxStructure"),("available-size check before bulk reads","marshaller.go:readerHasSize"),("overrun checks","marshaller.go:Unmarshal")], ["all read APIs"])
p("C12", "What is read of a box depends only on that box's bytes",
  "The decoded payload, its consumed size, the raw data and the children reported for a box depend only on the bytes inside that box and its context: changing anything before or after the box, or moving it to another offset, changes nothing. "
  "No operation on a box reports success having consumed or attributed bytes beyond the box's end, and children are always reported as lying within their parent's bounds.",
  ["inputs","fault_sequences"], "all boxes (well-formed, truncated or corrupted) x all neighbouring contents and positions",
  "The tests decode isolated payloads, so nothing lies behind them to leak in.",
  ["marshaller.go","read.go","box_types_metadata.go"], [("consumed bits checked against the declared size","marshaller.go:Unmarshal"),("remaining-size accounting","read.go:readBoxStructure")], ["Unmarshal","ReadHandle"])
p("C13", "Independent tasks may use the library concurrently without interference",
  "When several tasks scan, extract, probe, encode and write at the same time, each on its own streams or on its own handle over shared immutable data, every task gets exactly the result it gets when it runs alone, in every interleaving. "
  "One box value that nobody modifies may be encoded and rendered by several tasks at once. "
  "The library performs no unsynchronised access to shared mutable memory while doing so.",
  ["schedules","inputs"], "all interleavings of the tasks at I/O operations and callbacks, and all happens-before races within them",
  "The tests are sequential and not run under the race detector with concurrent use.",
  ["mp4.go","marshaller.go","field.go","read.go","string.go"], [("box definitions are built once and read-only afterwards","mp4.go:boxMap"),("per-call decoder/encoder state","marshaller.go"),("field definitions copied per use","field.go:resolveFieldInstance")], ["all APIs"], [("boxMap","registry of box definitions","mp4.go")])
p("C14", "Extraction equals the filtered scan",
  "Extracting boxes by one or several paths returns, in file order and each once, exactly the boxes a full scan would report at those paths (with the wildcard matching any type), from the root or from an inner parent. "
  "Each returned description carries the right offset, size, type and context, and extraction with payload gives for each box exactly what decoding it during a scan gives. "
  "Invalid requests (an empty path) are refused.",
  ["inputs","schedules"], "all files x path sets (duplicates, prefixes, wildcards, absent) x parents x segmentations of the reads",
  "The tests extract a few fixed paths from one sample file.",
  ["extract.go","read.go"], [("path prefix matching","read.go:compareWith, extract.go:matchPath"),("scan-based collection","extract.go:ExtractBoxes")], ["ExtractBox*","ExtractBoxes*"])
p("C15", "Probing summarises exactly what the file declares",
  "Probing a progressive or fragmented file reports exactly its brands, timescale, duration, fast-start layout, and per track the id, timescale, duration, codec, encryption, codec configuration, edit list, sample sizes, deltas, composition offsets and chunks, and per fragment the track, offset, decode time, sample count, duration, size and composition offset that the fragment's own track header, decode time and run boxes declare (one of each per fragment). "
  "IDR search finds exactly the samples whose stored NAL units include an IDR unit, and bitrates follow from the reported samples and fragments. "
  "A track lacking a mandatory box makes probing fail rather than return an incomplete summary.",
  ["inputs","schedules"], "all layouts of progressive and fragmented files (box order, versions, tables, header styles, QuickTime) x segmentations of the reads",
  "The tests probe three sample files.",
  ["probe.go","extract.go"], [("collection of tables per track","probe.go:probeTrak"),("fragment summary","probe.go:probeMoof"),("NAL walk","probe.go:FindIDRFrames")], ["Probe","FindIDRFrames","Samples/Segments bitrates"])
p("C16", "The edit command rewrites what was asked and nothing else, or fails",
  "On success the edit command's output holds the input's boxes in order with the requested box types dropped and the requested values replaced, all other bytes copied unchanged and all enclosing sizes adjusted. "
  "If reading the input or writing the output fails at any point, the command reports failure; it never exits successfully with an incomplete or wrong output file. "
  "The input file is never modified.",
  ["fault_sequences","inputs"], "all input files x option sets x every fault point on the input and output files",
  "The edit command has no tests at all.",
  ["cmd/mp4tool/internal/edit/edit.go","write.go","read.go"], [("StartBox/Marshal/Expand/EndBox per box","cmd/mp4tool/internal/edit/edit.go")], ["exit status","output file"])
p("C17", "The divide command distributes every track's data completely, or fails",
  "On success the divide command has written, for each track of a supported kind (avc1, mp4a or their encrypted forms, at most one video and one audio track), an initialisation file with the shared boxes and only that track's own track box, one file per fragment holding that fragment's boxes byte for byte, and playlists naming exactly those files with the durations that the fragments' runs and defaults declare, the video's picture size and a peak bandwidth which lies between that of its media data alone and that of its whole fragments. "
  "If any read, directory, file creation, write or seek operation fails, the command reports failure instead of leaving incomplete output behind an exit status of success. "
  "Tracks whose output would overwrite each other are refused. "
  "The input file is never modified and malformed input never leads to a crash.",
  ["fault_sequences","inputs"], "all fragmented inputs x every fault point on every file it touches",
  "The divide command has no tests at all.",
  ["cmd/mp4tool/internal/divide/divide.go"], [("per-track init and segment files, sizes patched afterwards","cmd/mp4tool/internal/divide/divide.go")], ["exit status","output files"])
p("C18", "The inspection commands show what the file holds, or fail",
  "The extract command writes exactly the bytes of every box of the requested type, headers included, in file order, and the dump, probe and psshdump commands report exactly the boxes, offsets, sizes, tracks, fragments and protection-system data in the file. "
  "If reading the input (or, for extract, writing the output) fails at any point, the command exits with a failure status. "
  "Malformed input makes a command fail cleanly rather than crash, and no command modifies its input.",
  ["fault_sequences","inputs"], "all inputs x options x every fault point on input and output",
  "The tests run each command on a few sample files on the real file system without faults.",
  ["cmd/mp4tool/internal/extract/extract.go","cmd/mp4tool/internal/dump/dump.go","cmd/mp4tool/internal/probe/probe.go","cmd/mp4tool/internal/psshdump/psshdump.go"],
  [("scan callbacks over a block-buffered file","cmd/mp4tool/internal/*")], ["exit status","standard output"])
p("C19", "Box headers round-trip at any size and position",
  "A header written to a stream at any position and read back describes the same type, total size, header size, offset and to-end-of-file mark, for every size that a 32-bit, 64-bit or to-end-of-file header can express, with the recomputed size covering the header actually written. "
  "Reading a header leaves the stream right behind it, and seeking to a box's start, payload or end goes exactly there, including positions beyond 4 GiB. "
  "A header declaring a size smaller than itself, or an extent beyond any addressable position, is refused.",
  ["inputs","fault_sequences"], "all sizes, positions (sparse disk up to 2^62), header styles and truncation points",
  "The tests use small fixed sizes and one 64-bit example in memory.",
  ["box_info.go"], [("header style selection","box_info.go:WriteBoxInfo"),("size 0 and 1 handling","box_info.go:ReadBoxInfo")], ["ReadBoxInfo","WriteBoxInfo","BoxInfo.SeekTo*"])
p("C20", "User-defined boxes and their hooks get the same guarantees",
  "A box type defined by the user — with fields of any bit width, signed or not, variable-length integers, strings, fixed, counted or unlimited arrays, nested structures, pointers, optional and version-dependent fields, and custom read/write hooks — is encoded and decoded exactly as its declaration says, over any delivery of the stream. "
  "An error returned by a user hook aborts the operation and is returned unchanged, and hook-reported bit counts are accounted for. "
  "The latest registration that applies to a context wins, and a version outside the registered ones is refused. "
  "A value or payload whose fields do not add up to whole bytes, or do not fill a structure of declared size, is refused.",
  ["inputs","schedules","fault_sequences"], "a family of user-defined boxes x values x stream segmentations x hook failure points",
  "The tests define two mock boxes with fixed values and no failing hooks.",
  ["marshaller.go","field.go","mp4.go","box.go","anytype.go","internal/bitio/read.go","internal/bitio/write.go"],
  [("tag interpreter","field.go:buildField"),("bit-level reader and writer","internal/bitio"),("hook dispatch","marshaller.go")], ["Marshal","Unmarshal","AddBoxDef*"])
p("C21", "Only what is asked for is read",
  "A scan, extraction or probe performs a number of stream operations bounded by the boxes it visits and the payloads it decodes, and reads no byte inside the payload of a box that nobody asked to decode, copy or expand. "
  "In particular media data of any size, up to terabytes, is skipped without being read. "
  "Writing a box patches only its own header.",
  ["inputs","histories"], "all files with arbitrarily large unread boxes (sparse disk) x callback choices",
  "The tests never observe which bytes of the stream are touched.",
  ["read.go","extract.go","probe.go","write.go"], [("seek to the end of each box instead of reading","read.go:readBoxStructureFromInternal")], ["device access log"])
p("C22", "Rendering a box as text shows its values", 
  "Rendering a decoded box as text lists each of its visible fields in declaration order with its value in the declared notation.",
  ["inputs"], "all box values", "The tests render one or two values per type.",
  ["string.go"], [("tag-driven stringifier","string.go:Stringify")], ["Stringify"])
p("C23", "Type, flag, version and fixed-point helpers compute the documented values",
  "Helpers for box types, flags, languages, fixed-point numbers and version-dependent fields return the values the format documents for the fields they read.",
  ["inputs"], "all values", "The tests check a few examples each.",
  ["mp4.go","box.go","box_types_iso14496_12.go","internal/util/string.go"], [("accessors","box.go, box_types_iso14496_12.go")], ["accessors"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
