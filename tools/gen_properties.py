#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as one readable source)."""
import json, os
W="src/base/write/mod.rs"; WH="src/base/write/entry_whole.rs"; ST="src/base/write/entry_stream.rs"
OF="src/base/write/io/offset.rs"; CW="src/base/write/compressed_writer.rs"
RD="src/base/read/mod.rs"; LO="src/base/read/io/locator.rs"; EN="src/base/read/io/entry.rs"; HA="src/base/read/io/hashed.rs"
CR="src/base/read/io/compressed.rs"; OW="src/base/read/io/owned.rs"; CO="src/base/read/io/combined_record.rs"; IO="src/base/read/io/mod.rs"
SE="src/base/read/seek.rs"; ME="src/base/read/mem.rs"; SR="src/base/read/stream.rs"; FS="src/tokio/read/fs.rs"
EX="src/spec/extra_field.rs"; PA="src/spec/parse.rs"; ET="src/entry/mod.rs"; HD="src/spec/header.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p("C01","Round trip: what is written is what every reader gives back",
 "For any sequence of entries (whole, streamed, precompressed or streamed-precompressed; any supported method and level; any names, comments, dates, attributes and contents) written and closed without error, reopening the archive yields exactly those entries in order, each with identical content, name bytes and encoding (including the alternative native-encoding form), comment, modification date, attributes, sizes and CRC, and the same archive comment. A date is kept however it was made (field by field, by changing fields of another date, or from a calendar date) and however it is looked at. This holds however the sink splits, delays or interleaves its writes, however the source splits or delays its reads, and for both the futures and the tokio constructors.",
 ["inputs","schedules","configurations"],
 "all archive specifications x all legal sink/source chunkings and Pending/wake schedules x whole/stream/precompressed x zip64 modes x futures/tokio adapters",
 "Tests write a few fixed entries through sources and sinks that always complete in full and never return Pending; nothing samples partial progress, unusual names/encodings or size boundaries.",
 [W,WH,ST,CW,OF,RD,SE,EN,CR,PA,EX,"src/string.rs"],
 [("whole entry emission","%s write()"%WH),("streamed entry emission and close","%s write_lfh()/close()"%ST),("central directory emission","%s close()"%W),("directory parsing","%s file()/cd_record()"%RD),("name/comment decoding","%s detect_filename()/detect_comment()"%RD)],
 [("directory entries","records collected for the central directory","%s ZipFileWriter"%W)],
 ["ZipFileWriter::*","ZipFile::entries()","ZipEntryReader reads"])
p("C02","Written archives are structurally valid and schedule-independent",
 "Every archive the writer closes successfully is accepted by an independent strict ZIP parser: end records, directory offset/size/count, local headers, data descriptors, extra fields and compressed data ranges all agree, and they tile the file with no gaps or overlaps. The bytes produced depend only on the calls made and never on how the sink scheduled its writes (only the number of empty Deflate blocks that mark a mid-stream flush may vary).",
 ["inputs","schedules","configurations"],
 "all archive specifications x sink schedules; for the same calls under two different schedules the output is byte-identical",
 "Tests read archives back with this crate or the zip crate, which tolerate inconsistent headers, and never repeat a write under another schedule.",
 [W,WH,ST,OF,EX,PA,HD],
 [("offset tracking of accepted bytes","%s poll_write"%OF),("header construction","%s write()"%WH),("data descriptor and directory record","%s close()"%ST),("end records","%s close()"%W),("extra field serialisation",EX)],
 [("byte offset","bytes accepted by the sink so far","%s AsyncOffsetWriter"%OF)],["sink bytes"])
p("C03","Failed, cancelled or abandoned entries never damage the archive",
 "If writing an entry fails (sink error, rejected input), is cancelled at any await point, or its stream is dropped before close, and the writer is then used further and closed successfully, the archive lists exactly the entries whose writing was reported successful, in order, each fully intact. An entry never reported successful never appears, and an entry reported successful never disappears or is altered.",
 ["fault_sequences","histories","schedules"],
 "all histories of entry writes with a sink error, zero-length write, rejection, cancellation point or drop at any I/O step of any subset of them, followed by further writes and close",
 "No test injects a sink failure, cancels a future or drops a stream.",
 [WH,ST,W,OF],
 [("directory record pushed only after the entry's bytes were accepted","%s write(), %s close()"%(WH,ST)),("offset counts exactly the bytes the sink accepted",OF)],
 [("cd_entries","entries that the directory will list","%s ZipFileWriter"%W),("offset","accepted bytes",OF)],["closed archive bytes"])
p("C04","No silent loss: a sink failure is always reported to the caller",
 "If the sink refuses or fails to take any byte (error, zero-length write, full disk) the operation that needed it returns an error; when every operation including close succeeds, the sink has accepted exactly the complete archive, no byte lost, duplicated or reordered. The library never closes or shuts down the caller's sink, and close hands the same sink back with every byte already given to it.",
 ["fault_sequences","schedules","inputs"],
 "all placements of one or more sink faults of every kind in any write history, including sinks with finite capacity",
 "Tests use infallible in-memory vectors.",
 [W,WH,ST,CW,OF],
 [("errors propagated from each write",W),("shutdown withheld from the sink by the entry compressor","%s ShutdownIgnoredWriter"%CW)],[],["results of write/close","sink bytes"])
p("C05","A flushed entry stream is recoverable after a crash",
 "When flush on an entry stream returns success for Stored, Deflate, Zstd or Xz data, every byte accepted before the flush has been handed to the sink and the sink itself has been flushed. After a crash that keeps only what the sink had made durable, decoding the surviving compressed bytes yields at least all data written before that flush, and never anything that was not written.",
 ["crash_points","schedules","inputs"],
 "all interleavings of writes and flushes on a stream, all crash points after a successful flush, sinks that buffer until flushed",
 "No test flushes a stream or looks at the sink before close.",
 [ST,CW,OF],[("poll_flush forwarded through compressor, offset tracker and shutdown guard","%s, %s, %s"%(ST,CW,OF))],[],["sink durable bytes"])
p("C06","A torn archive is never mistaken for a complete one",
 "If the process crashes at any byte of writing, so that only a strict prefix of the archive survives, opening it through any seekable, in-memory or file reader fails with an error. The streaming reader over that prefix delivers only a prefix of the real entries with correct metadata and only correct data, reports end of archive only if all entries were present, and otherwise reports an error.",
 ["crash_points","inputs","schedules"],
 "every truncation point of every archive (whose contents do not themselves contain an end-of-directory signature) x read schedules x readers",
 "Tests only open complete archives.",
 [RD,LO,IO,SR,EN],[("end record search",LO),("exact-length header reads","%s, %s, %s"%(RD,PA,IO)),("end detection in streaming","%s lfh()"%RD)],[],["open result","entry data"])
p("C07","Read faults never yield wrong data and never poison the reader",
 "Under any combination of source errors, short reads, delays and cancelled operations, every read either returns an error or returns exactly the archive's data, and a checked read that succeeds returned the complete content. After an error or a cancellation, abandoning that entry reader and reading any entry again through the same archive reader (with the source healthy) gives the correct complete content, whatever happened before.",
 ["fault_sequences","histories","schedules"],
 "all histories of opens, partial reads, aborts, cancellations and retries over all fault placements in reads and seeks",
 "Tests read each entry once from a perfect source.",
 [SE,ME,FS,ET,EN,HA,CR,OW],[("absolute seek to the entry on every open","%s seek_to_data_offset()"%ET),("running CRC over delivered bytes",HA),("limit to the entry's compressed bytes",EN)],
 [("hasher","CRC of bytes delivered so far",HA)],["read results"])
p("C08","Checked reads detect every corruption of stored content",
 "Whenever the stored bytes of an entry (or the recorded checksum) are altered, by bit flips, overwritten, zeroed or lost sectors, a checked read of that entry through any reader returns an error or the original content, and never succeeds with different content. Other entries stay readable and correct, and an undamaged entry always passes its check.",
 ["fault_sequences","inputs","schedules"],
 "all single and multi-byte damage to any entry's data or checksum x methods x read schedules x bytes/string checked reads",
 "Tests contain no corrupted archive.",
 [EN,HA,CR],[("CRC comparison at end of data","%s read_to_end_checked()/read_to_string_checked()"%EN),("hashing of each delivered chunk",HA)],[],["checked read result"])
p("C09","The streaming reader agrees with the directory and stays in sync",
 "Reading a well-formed archive front to back from a non-seekable source visits exactly the stored entries in order with the same names, methods and content as the directory view, whether each entry is read fully, skipped untouched or skipped part-way, ends with end-of-archive at the directory, and leaves the source positioned right after the consumed record. Converting back before an entry's data is exhausted is refused, and so is opening an entry that cannot be streamed (encrypted, stored with a data descriptor, of an unknown method). This holds for archives of this and other writers (data descriptors with or without signature, differing local extra fields, unknown extra fields) under any chunking and delay.",
 ["inputs","schedules","histories"],
 "all archives within the documented streaming limits x per-entry read/skip/partial choices x chunkings",
 "Tests stream one or two fixed files that are always fully available.",
 [SR,RD,EN,CR,OW],[("data descriptor consumption","%s consume_data_descriptor()"%SR),("signature dispatch","%s lfh()"%RD),("decoders leave unread bytes in the source",CR)],[],["next_*/done/skip results","source position"])
p("C10","Concurrent readers of one archive do not interfere",
 "Any number of tasks reading the same or different entries at once through clones of an in-memory or file-system reader each observe exactly the entry's content, whatever the interleaving, and whatever errors or cancellations the other tasks meet.",
 ["schedules","fault_sequences"],
 "all interleavings at every poll boundary of up to several tasks x entries x reader kinds x cancellations and file-system faults hitting a subset",
 "Tests and examples read sequentially; no test runs two entry readers of one archive at once.",
 [ME,FS,ET,EN],[("independent cursor per entry reader",ME),("independent file handle per entry reader",FS)],[("shared archive","immutable bytes/path and directory shared by clones","%s Inner, %s Inner"%(ME,FS))],["per-task data"])
p("C11","Malformed or hostile bytes cause errors, not panics, hangs or blow-ups",
 "For any byte sequence at all, opening it and reading every entry through every reader terminates in success or an error: no panic, abort, endless loop or lost wake-up. Memory allocated by the library stays within a modest bound unrelated to the counts, lengths and offsets the bytes claim, and text handed out as UTF-8 is valid UTF-8.",
 ["inputs","fault_sequences","schedules"],
 "all byte strings, sampled as structured and blind mutations of valid archives (torn, spliced, overwritten, field-targeted), x readers x I/O schedules",
 "Tests contain no malformed archives beyond one missing record.",
 [RD,LO,IO,PA,EX,SR,ET,CO],[("length-checked field parsing","%s parse_extra_fields(), %s"%(PA,EX)),("bounded record search",LO)],[],["termination","allocations"])
p("C12","ZIP64 limits: large sizes, offsets and counts are exact or refused",
 "When an entry's sizes, its position, the directory position or the number of entries is at, just below or above the classic format's limits, the closed archive still records the true values and reads back correctly through this crate and an independent parser. With the 32-bit-only mode the same request is either representable or refused with the dedicated error, and a refused entry never appears in the archive.",
 ["inputs","configurations","schedules"],
 "sizes, offsets and counts around 2^32-1 and 65535 x whole/stream/precompressed x zip64 modes x sink chunkings",
 "Tests cover one oversized value per case, never the exact boundaries nor combinations of large size and large offset, and never read the results back at the boundary.",
 [WH,ST,W,EX,RD,CO,HD],[("promotion to 64-bit fields","%s enforce_zip64_*, %s close()"%(WH,ST)),("end record promotion","%s close()"%W),("64-bit field resolution","%s, %s, %s"%(EX,RD,CO))],[],["headers","read-back"])
p("C13","Copying entries between archives preserves them over any generations",
 "Taking an entry's description and data (raw compressed or decoded) from one archive and writing it to another, by any write mode and repeatedly over any number of generations, preserves name, comment, date, attributes, content and unknown extra fields byte for byte. The result stays structurally valid and its metadata does not grow with each generation.",
 ["histories","inputs","configurations"],
 "all chains of copies with any mix of write modes, starting from archives of this and other writers (64-bit fields incl. disk number, unicode name fields, unknown and empty extra fields)",
 "No test feeds an entry that was read back into a writer.",
 [WH,ST,EX,PA,RD,HD,"src/entry/builder.rs"],[("extra field parse/serialise symmetry","%s, %s"%(EX,PA)),("64-bit field regenerated for the new archive","%s, %s"%(WH,ST))],[],["entries of each generation"])
p("C14","Progress: no lost wake-ups, no busy loops, no over-reading",
 "Every operation completes once the I/O it waits for completes: a pending operation always leaves the task's current waker registered with the I/O it waits on and never returns pending without having an I/O operation outstanding. It makes progress whenever polled with I/O ready, finishes within a number of I/O steps proportional to the data, never polls a stream past a pending result in a loop, and an entry reader never consumes source bytes beyond its entry.",
 ["schedules","fault_sequences"],
 "all wake/poll schedules incl. spurious polls, a new waker on each poll, delayed wake-ups and one-byte I/O",
 "Tests use I/O that is always ready, so no future of this crate is ever pending.",
 [EN,HA,CR,OW,OF,CW,ST,SR,LO],[("poll forwarding in every wrapper","%s, %s, %s, %s, %s"%(HA,CR,OW,OF,CW))],[],["executor quiescence","poll counts","source position"])
p("C15","The directory is found for every comment, size and read chunking",
 "For any archive comment from 0 to 65535 bytes, any amount of entry data before it, 64-bit end records or not, and any way the source splits its reads, opening finds the true end record and directory and reports the exact comment. When no end record lies within the format's reach, or the end record says the archive is spread over disks or leads to something that is not the directory it describes, opening fails rather than misreads.",
 ["inputs","schedules"],
 "all comment lengths and contents x total sizes (all alignments to internal search windows) x read chunkings x presence of 64-bit records",
 "Three fixed files at chosen alignments, read from a slice that never returns short.",
 [LO,RD,CO],[("backward windowed search with overlap",LO),("64-bit locator probe","%s file()"%RD)],[],["open result","comment"])
p("C16","All access paths agree on every archive",
 "For any bytes, well-formed or damaged, the in-memory, seekable (futures and tokio, buffered or not), file-system, reconstructed-from-parts and consuming access paths all agree: all refuse to open, or all list identical directory information and give, entry by entry, the same data or all fail. Results do not depend on the I/O schedule, on the order of access or on earlier accesses.",
 ["inputs","configurations","schedules"],
 "all archives (valid, foreign, mutated) x access paths x schedules x access orders",
 "Each test uses one access path on one good archive.",
 [ME,SE,FS,SR,ET,EN,"src/file/builder.rs"],[("shared directory parser","%s file()"%RD),("shared entry positioning","%s seek_to_data_offset()"%ET)],[],["directory view","entry data"])
p("C17","Dates, strings and helper conversions are faithful",
 "Converting a date to and from its packed form, choosing a string's encoding, and the one-shot compression and checksum helpers give results determined only by their arguments and consistent with each other.",
 ["inputs"],"all argument values","A handful of fixed dates and strings are tested.",
 ["src/date/mod.rs","src/date/builder.rs","src/string.rs",WH],[("packed date builder","src/date/builder.rs"),("encoding fallback","src/string.rs")],[],[])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
