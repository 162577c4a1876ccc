#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

W = "src/base/write/"
R = "src/base/read/"

p("C01", "Every archive written reads back with the same entries, order and bytes",
  "Whatever sequence of entries is written and closed successfully (whole, streamed in any chunking with or without flushes, precompressed, any writable compression method and level, any content including empty), opening the finished archive yields exactly those entries in the order they were written, and reading each one yields exactly the bytes that were written with its CRC check passing. This holds in every ZIP64 mode of the writer (default, forced on, forced off).",
  ["inputs", "histories", "configurations"],
  "all finite sequences of entry writes x write modes x methods x levels x chunkings x ZIP64 modes x payloads",
  "Existing tests round-trip four fixed text files with three methods and one write mode each; they never mix modes, methods, chunk sizes, empty or incompressible data, levels, or force_no_zip64 with compression.",
  [W+"mod.rs", W+"entry_whole.rs", W+"entry_stream.rs", W+"compressed_writer.rs", W+"io/offset.rs", R+"mod.rs", R+"io/compressed.rs", R+"io/entry.rs"],
  [("EntryWholeWriter::write", W+"entry_whole.rs"), ("EntryStreamWriter::close", W+"entry_stream.rs"), ("ZipFileWriter::close", W+"mod.rs"), ("AsyncOffsetWriter byte accounting", W+"io/offset.rs")],
  ["ZipFileWriter output bytes", "mem/seek ZipFileReader entries and contents"],
  [("offset", "bytes emitted so far, source of every recorded offset and size", W+"io/offset.rs"), ("cd_entries", "central directory accumulated until close", W+"mod.rs")])

p("C02", "Entry and archive metadata survive a write/read round trip",
  "For every entry written, the reader reports the same filename and comment text (including the native-encoding alternative when one was given, and the exact raw bytes for non-UTF-8 strings), compression method, modification date and time, internal and external attributes, Unix permissions and extra fields, together with the true CRC-32, compressed size and uncompressed size of its data. The archive comment is reported exactly, and each entry's reported header offset is where its local header starts.",
  ["inputs"],
  "all metadata values: Unicode, alternative and raw names/comments of any length up to the format limit, all 32-bit date/time patterns, all attribute values, arbitrary unknown extra fields, all archive comments",
  "Tests assert one filename with an alternative and one header size; attributes, permissions, dates, comments, extra fields and sizes are never compared after a round trip.",
  [W+"entry_whole.rs", W+"entry_stream.rs", W+"mod.rs", R+"mod.rs", "src/spec/parse.rs", "src/spec/extra_field.rs", "src/string.rs"],
  [("header serialisation", "src/spec/parse.rs"), ("Info-ZIP Unicode path/comment extra fields", W+"mod.rs"), ("cd_record", R+"mod.rs")],
  ["ZipFile::entries()", "ZipFile::comment()", "StoredZipEntry accessors"])

p("C03", "Written archives conform to the ZIP format for an independent reader",
  "Every archive the writer closes successfully is a structurally valid ZIP file: signatures, lengths, counts and offsets are mutually consistent, local headers, data descriptors and central records agree on each entry, records tile the file without gaps or overlap, and ZIP64 structures appear exactly where the values they carry require or where forced. An independent ZIP implementation therefore lists the same entries and extracts the same data.",
  ["inputs", "histories", "configurations"],
  "all write histories x methods x modes x ZIP64 settings, judged by a strict parser written from the specification and by the unrelated `zip` crate",
  "Only two fixed archives are checked with an independent reader, and only for content; the fields inside local headers, descriptors, the central directory and end records are never validated.",
  [W+"mod.rs", W+"entry_whole.rs", W+"entry_stream.rs", "src/spec/parse.rs", "src/spec/extra_field.rs", "src/spec/version.rs"],
  [("write_lfh / close", W+"entry_stream.rs"), ("ZipFileWriter::close", W+"mod.rs"), ("ExtraFieldAsBytes", "src/spec/extra_field.rs")],
  ["raw output bytes"])

p("C04", "All readers report the same archive",
  "For any archive that more than one reader supports, the in-memory, seekable, filesystem and streaming readers agree: the three directory-based readers report identical metadata and contents, with and without entry information attached, and the streaming reader visits the same entries in file order with the same name, method, date and contents. The streaming reader may differ only in what it documents as unavailable without the central directory.",
  ["inputs", "configurations"],
  "all archives produced by this crate's writer or by an independent encoder x all reader front ends",
  "Each existing test drives a single reader over a fixed file; no test compares readers with each other, and the streaming reader is only tested on one entry of one archive.",
  [R+"mem.rs", R+"seek.rs", R+"stream.rs", "src/tokio/read/fs.rs", R+"mod.rs"],
  [("cd_record / lfh", R+"mod.rs"), ("reader_with(out)_entry, into_entry", R+"seek.rs"), ("next_with(out)_entry", R+"stream.rs")],
  ["entries and contents from mem, seek, fs, stream readers"])

p("C05", "Archives made by other writers are read faithfully",
  "For any well-formed archive within the supported feature set, however another tool laid it out (local and central extra fields that differ, directory order unlike file order, gaps or unrelated bytes between entries, data descriptors with or without signature, any legal placement of values in ZIP64 fields and records, optional trailing ZIP64 data), the directory-based readers report exactly the recorded metadata and yield exactly the stored contents. Values given only in ZIP64 fields are used when and only when the 32/16-bit field holds its sentinel.",
  ["inputs"],
  "all archives an independent encoder can lay out under the specification for the supported methods (Stored, Deflate, Deflate64, bzip2, zstd, xz and LZMA-alone)",
  "Tests read six committed sample files made by two tools; the sentinel combinations of ZIP64 fields, descriptor variants, reordered directories and foreign extra fields are not sampled.",
  [R+"mod.rs", R+"io/combined_record.rs", R+"io/compressed.rs", "src/spec/extra_field.rs", "src/spec/parse.rs", "src/entry/mod.rs"],
  [("CombinedCentralDirectoryRecord::combine", R+"io/combined_record.rs"), ("zip64_extended_information_field_from_bytes", "src/spec/extra_field.rs"), ("seek_to_data_offset", "src/entry/mod.rs")],
  ["ZipFile::entries()", "entry contents"])

p("C06", "Streaming traversal lands exactly on every entry boundary",
  "Traversing an archive with the streaming reader, for any mixture of fully reading, partially reading then skipping, and skipping entries, each step arrives at the next entry's header and the traversal ends with no entry exactly when the central directory (or the end of an archive without entries) is reached. Declaring an entry done succeeds if and only if all its data has been read, and otherwise reports that the end was not reached.",
  ["inputs", "histories"],
  "all archives the streaming reader supports x all per-entry action sequences x read sizes",
  "The only streaming test reads the first entry of one archive; skip, done, data descriptors and multi-entry traversal are untested.",
  [R+"stream.rs", R+"mod.rs", R+"io/entry.rs", R+"io/compressed.rs"],
  [("done / skip", R+"stream.rs"), ("consume_data_descriptor", R+"stream.rs"), ("lfh", R+"mod.rs")],
  ["next_with(out)_entry / skip / done results"],
  [("Ready/Reading typestate", "position of the underlying source relative to entry boundaries", R+"stream.rs")])

p("C07", "Checked reads never accept data that fails its CRC",
  "A checked read (to bytes or to a string) returns success only if the CRC-32 of the complete decompressed data equals the CRC recorded for the entry, however the data was split across earlier partial reads, and otherwise returns an error; on intact entries whose CRC the reader knows it succeeds, appends the data to the caller's byte buffer (or places it in the caller's empty string) and returns the number of bytes delivered. The running hash exposed by an entry reader is the CRC-32 of exactly the bytes it has delivered.",
  ["inputs", "histories", "fault_sequences"],
  "all archives x all corruptions of payload bytes or recorded CRC x all partial-read prefixes x all methods",
  "Tests only use checked reads on intact archives, so a check that never fails, or that covers part of the data, passes.",
  [R+"io/hashed.rs", R+"io/entry.rs"],
  [("HashedReader::poll_read", R+"io/hashed.rs"), ("read_to_end_checked / read_to_string_checked", R+"io/entry.rs")],
  ["read_to_end_checked", "read_to_string_checked", "compute_hash"])

p("C08", "No input makes a reader panic, hang or over-allocate",
  "For any byte sequence whatsoever, opening it with any reader and reading whatever entries it yields terminates with a value or an error: no panic, no abort, no arithmetic overflow, no endless loop. Memory allocated while parsing metadata stays proportional to the size of the input (up to a fixed constant), regardless of the counts and sizes the input claims.",
  ["inputs"],
  "all byte strings: random, mutated archives, archives with hostile structural fields",
  "No test feeds malformed input to any reader.",
  [R+"mod.rs", R+"io/locator.rs", R+"stream.rs", "src/spec/parse.rs", "src/spec/extra_field.rs", "src/entry/mod.rs"],
  [("parse_extra_fields", "src/spec/parse.rs"), ("file / cd / lfh", R+"mod.rs"), ("eocdr", R+"io/locator.rs")],
  ["results of every reader entry point"])

p("C09", "A truncated archive is never taken for a complete one",
  "If an archive is cut short at any byte, the directory-based readers refuse to open it, and a streaming traversal of a cut that removes any entry's header, data or the whole directory ends in an error rather than in the normal end of the archive. No read to the end, checked or not, of an entry whose data was cut ends normally with less than the entry's contents (also when the data is lost after the directory was read), and no entry is reported with a shortened filename.",
  ["crash_points", "inputs"],
  "all archives x every strict prefix",
  "No test truncates an archive.",
  [R+"mod.rs", R+"io/mod.rs", R+"io/locator.rs", R+"stream.rs"],
  [("read_exact based header parsing", "src/spec/parse.rs"), ("read_bytes / read_string", R+"io/mod.rs"), ("eocdr", R+"io/locator.rs")],
  ["ZipFileReader::new result", "stream traversal result"])

p("C10", "I/O chunking and readiness never change the result",
  "Splitting reads and writes into arbitrary short transfers and interposing arbitrary not-ready polls never changes what is written or read: archives of stored or whole entries come out byte-identical, every archive decodes to the same entries and contents, and every reader returns the same results as with ideal I/O. A wait on the underlying source or sink is always passed on to the caller's task rather than lost or spun on, and finishing an entry never closes the underlying sink.",
  ["schedules", "inputs"],
  "all schedules of short reads/writes and Pending results x all archives x all readers/writers",
  "All tests use in-memory buffers or files that always complete in full on the first poll.",
  [R+"io/locator.rs", R+"io/entry.rs", R+"io/hashed.rs", R+"io/owned.rs", W+"io/offset.rs", W+"entry_stream.rs", W+"compressed_writer.rs"],
  [("poll_* forwarding", R+"io/owned.rs"), ("AsyncOffsetWriter::poll_write", W+"io/offset.rs"), ("refill loop", R+"io/locator.rs"), ("ShutdownIgnoredWriter", W+"compressed_writer.rs")],
  ["output bytes", "read results", "poll sequence seen by source/sink"])

p("C11", "An I/O failure is always reported, never turned into success",
  "If the underlying source or sink fails at any operation, the call in progress returns an error carrying that failure; no write, close, open or read that depended on the failed operation reports success, and no entry data is silently shortened. A sink that stops accepting bytes is reported likewise.",
  ["fault_sequences", "inputs"],
  "all write and read histories x every operation index at which the source or sink can fail x error kinds",
  "No test injects an I/O error.",
  [W+"mod.rs", W+"entry_whole.rs", W+"entry_stream.rs", R+"mod.rs", R+"io/locator.rs", R+"io/mod.rs", R+"stream.rs"],
  [("? propagation of std::io::Error into ZipError", "src/error.rs"), ("poll_result_ok", R+"io/mod.rs")],
  ["return values of every writer/reader call"])

p("C12", "ZIP64 takes over exactly at the classic limits, or is refused",
  "Entry sizes, header offsets, directory offsets and entry counts beyond the classic 32-bit and 16-bit limits, as well as those exactly at the limits, are written so that they read back exactly. With ZIP64 forbidden, anything that needs it is refused with the matching error and nothing that does not need it is refused or contains ZIP64 structures; with ZIP64 forced, the end-of-archive structures are present and correct.",
  ["inputs", "configurations", "histories"],
  "all sizes, offsets and counts around 2^32 and 2^16 x write modes x ZIP64 settings",
  "Tests cover one streamed file above 4 GiB, and counts just above 65536; offsets above 4 GiB, exact-limit values, whole-entry sizes and mixtures are not reached.",
  [W+"entry_whole.rs", W+"entry_stream.rs", W+"mod.rs", R+"mod.rs", "src/spec/extra_field.rs"],
  [("enforce_zip64_sizes / enforce_zip64_offset", W+"entry_whole.rs"), ("EntryStreamWriter::close", W+"entry_stream.rs"), ("ZipFileWriter::close", W+"mod.rs")],
  ["write results", "parsed output", "read-back metadata and data"])

p("C13", "Entry readers are independent of each other and of history",
  "Opening an entry by index always starts at the beginning of that entry's data, in any order, any number of times, after any partially consumed or abandoned readers; readers obtained concurrently from the in-memory or filesystem reader or its clones may be polled in any interleaving, on any thread, and each delivers exactly its own entry. An index outside the directory is reported as out of bounds.",
  ["schedules", "histories"],
  "all sequences and interleavings of open/read/abandon operations over all entries, clones and threads",
  "Tests open each entry once in ascending order and read it to the end before the next.",
  [R+"mem.rs", R+"seek.rs", "src/tokio/read/fs.rs", R+"io/owned.rs", "src/entry/mod.rs"],
  [("per-reader cursor / file handle", R+"mem.rs"), ("seek_to_data_offset", "src/entry/mod.rs")],
  ["bytes delivered by each entry reader"])

p("C14", "Values the format cannot hold are refused and leave the archive sound",
  "A filename, comment, archive comment or set of extra fields too long for its 16-bit length field is refused with the corresponding error instead of being truncated or wrapped. After any refused entry the writer continues to work: closing it yields a valid archive containing exactly the entries whose writes succeeded.",
  ["inputs", "histories"],
  "all lengths around and above 65535 for each variable-length field x all histories mixing refused and accepted entries",
  "No test writes an over-long field.",
  [W+"entry_whole.rs", W+"entry_stream.rs", W+"mod.rs"],
  [("try_into length checks", W+"entry_whole.rs"), ("close", W+"entry_stream.rs")],
  ["error variants", "archive after refused entries"])

p("C15", "Dates pack and unpack without loss at two-second granularity",
  "For every year 1980-2107, month, day, hour, minute and second, the built MS-DOS date-time reports the same components with the second rounded down to even, each setter replaces only its own component and the last value set wins, including on a builder made from an existing date. Conversion from chrono and back is the identity up to the two-second rounding, and any stored 32-bit pattern converts to chrono without panicking, yielding nothing when it is not a real date.",
  ["inputs", "histories"],
  "all component values, all setter sequences, all 2^32 stored patterns, all chrono instants in range",
  "Two fixed dates are tested, each setter called once on a fresh builder.",
  ["src/date/mod.rs", "src/date/builder.rs"],
  [("bit packing", "src/date/builder.rs"), ("bit unpacking and chrono conversion", "src/date/mod.rs")],
  ["ZipDateTime getters", "as_chrono / from_chrono"])

p("C16", "Text is never mislabelled: UTF-8 claims are always valid",
  "A string reported as UTF-8 always is valid UTF-8; bytes that are not are reported raw, unchanged, and refuse conversion to text. When reading, the UTF-8 flag or a matching-checksum Info-ZIP Unicode field determines the text (keeping the original bytes as the alternative in the latter case), a field with a stale checksum or invalid text is ignored, and otherwise only pure ASCII is treated as text.",
  ["inputs"],
  "all byte strings x flag settings x Unicode path/comment field versions, checksums and contents, on filenames and comments, in central and local headers",
  "One sample archive with one matching Unicode path field is tested.",
  ["src/string.rs", R+"mod.rs", "src/spec/extra_field.rs"],
  [("ZipString::new validation", "src/string.rs"), ("detect_filename / detect_comment", R+"mod.rs")],
  ["ZipString accessors"])

p("C17", "Entries can be copied from archive to archive for any number of generations",
  "Taking the entry information a reader reports and writing it to a new archive with any write mode, repeatedly and at any position of the new archive, always yields a valid archive whose entry has the same name, comment, date, attributes and (unless the name or comment require otherwise) unknown extra fields, and the data that was written. Size and offset information left over from the source archive never influences how the copy is read.",
  ["histories", "inputs"],
  "all chains of read-then-rewrite over all write modes, ZIP64 modes and source layouts",
  "No test writes an entry that came from a reader.",
  [W+"entry_whole.rs", W+"entry_stream.rs", "src/entry/builder.rs", "src/spec/extra_field.rs", "src/spec/header.rs"],
  [("extra field re-serialisation", "src/spec/extra_field.rs"), ("zip64 extra field replacement", W+"entry_stream.rs")],
  ["metadata and data after each generation"])

p("C18", "The central directory is found whatever surrounds the end record",
  "An archive opens through its real end-of-central-directory record for every archive comment length from 0 to 65535 and every comment content (short of a comment that itself ends in a complete end record), whatever bytes the entries, their comments or the archive comment contain, including copies of record signatures, and for every archive size. Input with no end record within reach of the longest comment (the last 65557 bytes, give or take one 2 KiB search buffer) is refused. Trailing bytes after the archive are tolerated as long as neither they nor the comment contain the end signature and the record stays within 65557 bytes of the end.",
  ["inputs"],
  "all comment lengths and contents x archive sizes x positions of signature look-alikes",
  "Three fixed empty archives are located; lengths around buffer multiples and look-alike signatures are not sampled.",
  [R+"io/locator.rs", R+"mod.rs"],
  [("eocdr reverse buffered search", R+"io/locator.rs"), ("ZIP64 locator detection", R+"mod.rs")],
  ["ZipFileReader::new result, comment() and entries()"])

p("C19", "Builders change exactly what they are told to change",
  "For any sequence of entry-builder calls, each accessor of the built entry returns the last value set for that attribute and attributes never set keep their defaults; setting Unix permissions changes only the permission half of the external attributes; converting an entry to a builder and back is the identity; and a name denotes a directory exactly when it ends in a slash. The archive builder likewise keeps the last comment.",
  ["histories", "inputs"],
  "all sequences of builder calls with all argument values",
  "Builders are only exercised incidentally, with a single call chain.",
  ["src/entry/builder.rs", "src/entry/mod.rs", "src/file/builder.rs", "src/file/mod.rs"],
  [("ZipEntryBuilder setters", "src/entry/builder.rs"), ("ZipEntry accessors", "src/entry/mod.rs")],
  ["ZipEntry / ZipFile accessors"])

p("C20", "Unsupported features are refused with the right error, never misread",
  "Compression method identifiers map one-to-one to the supported methods and every other identifier is refused by number; archives whose end records put the directory on another disk, or count a different number of entries on this one, are refused; the streaming reader refuses encrypted entries and stored entries with a data descriptor; an unexpected signature where a record is required is reported as such. None of these is ever reported as a readable entry.",
  ["inputs", "configurations"],
  "all 65536 method and host identifiers x readers x positions in the archive, disk-number combinations, flag combinations",
  "No test opens an archive that uses an unsupported feature.",
  ["src/spec/compression.rs", "src/spec/attribute.rs", R+"mod.rs", R+"stream.rs", "src/utils.rs", "src/entry/mod.rs"],
  [("TryFrom<u16>", "src/spec/compression.rs"), ("feature checks", R+"mod.rs"), ("assert_signature", "src/utils.rs")],
  ["error variants from readers and conversions"])

p("C21", "Precompressed writing is equivalent to writing the plain data",
  "For every method and level, the public compression helper produces data that decompresses to its input and the public checksum helper computes the standard CRC-32; an entry written from those two, whole or streamed, reads back exactly like the same entry written from plain data, and the supplied compressed bytes appear in the archive unchanged. The stored method is its own precompressed form.",
  ["inputs"],
  "all data x methods x levels x whole/streamed precompressed writing",
  "No test uses the precompressed API, the helper functions or non-default levels.",
  [W+"entry_whole.rs", W+"entry_stream.rs", W+"compressed_writer.rs"],
  [("compress / crc32", W+"entry_whole.rs"), ("from_raw_precompressed", W+"entry_stream.rs")],
  ["helper outputs", "archive bytes", "read-back contents"])

p("C22", "The tokio front end is interchangeable with the futures front end",
  "Writing the same entries through the tokio constructors produces the same archive as through the futures constructors, and reading an archive through the tokio seek, stream or filesystem readers gives the same results, including errors, as through the corresponding futures readers, under any chunking of the underlying tokio I/O.",
  ["inputs", "schedules", "configurations"],
  "all archives and malformed inputs x tokio readers/writers x transfer schedules",
  "Only the filesystem reader is tested with tokio, on intact files.",
  ["src/tokio/mod.rs", "src/tokio/read/mod.rs", "src/tokio/read/fs.rs", R+"seek.rs", R+"stream.rs", W+"mod.rs"],
  [("with_tokio constructors", R+"seek.rs"), ("fs::ZipFileReader", "src/tokio/read/fs.rs")],
  ["results of tokio and futures front ends"])

p("C23", "Failed, cancelled or abandoned entries never harm the others",
  "Entries whose writing fails, is cancelled (its future dropped at any wait) or is abandoned (its stream writer dropped before it is closed) never harm the rest: the writer goes on, and once it is closed the archive's directory lists exactly the entries whose writes completed, in order, each with its own metadata and data passing its check, and the archive comment, whatever bytes the abandoned entries left in between.",
  ["histories", "schedules", "crash points"],
  "all write histories x the way each entry ends (completed, cancelled after any number of polls, stream writer dropped after any chunk, refused) x write schedules",
  "No test drops a write future or an unclosed entry writer; there is one cancellation point per wait of the sink, so only a search over them covers them.",
  [W+"mod.rs", W+"entry_whole.rs", W+"entry_stream.rs", W+"io/offset.rs"],
  [("EntryStreamWriter::close", W+"entry_stream.rs"), ("EntryWholeWriter::write", W+"entry_whole.rs"), ("AsyncOffsetWriter", W+"io/offset.rs")],
  ["archive bytes", "ZipFileReader entries and contents"],
  [("cd_entries", "entry listed only after its data is complete", W+"mod.rs"), ("offset", "counts the bytes of abandoned entries too", W+"io/offset.rs")])

p("C24", "Work and memory follow from what is asked for, not from the archive size",
  "Streaming an entry in, or reading or skipping one with any reader, takes a bounded amount of memory however large the entry is, and data that cannot be compressed is passed on to the sink while it is being written. Opening an archive with a seekable source fetches only the end records, the comment and the directory; opening an entry only its local header, and reading it only its compressed data, each up to a bounded read-ahead.",
  ["inputs", "configurations"],
  "all entry sizes x methods x chunk sizes x readers x write modes, and archives x positions of the entry read",
  "The tests' entries are a few bytes to a few kilobytes, so buffering a whole entry or reading the whole archive goes unnoticed.",
  [W+"entry_stream.rs", W+"compressed_writer.rs", R+"mod.rs", R+"seek.rs", R+"stream.rs", R+"io/entry.rs", R+"io/compressed.rs", R+"io/locator.rs"],
  [("EntryStreamWriter", W+"entry_stream.rs"), ("skip", R+"stream.rs"), ("eocdr locator", R+"io/locator.rs"), ("ZipEntryReader", R+"io/entry.rs")],
  ["heap use", "bytes taken from the source", "bytes passed to the sink"])

p("C25", "A flush delivers everything written so far",
  "When a flush of a streamed entry (plain or precompressed) completes, the sink has itself been flushed after the last bytes it received, and those bytes contain everything written so far: the data itself without compression, and a decodable prefix with deflate, zstd and xz. Without compression every write is delivered at once. A flush changes nothing else: the entry and the archive still read back.",
  ["histories", "schedules"],
  "all sequences of writes and flushes x methods x plain/precompressed x write schedules",
  "No test flushes an entry writer.",
  [W+"entry_stream.rs", W+"compressed_writer.rs", W+"io/offset.rs"],
  [("poll_flush", W+"entry_stream.rs"), ("CompressedAsyncWriter::poll_flush", W+"compressed_writer.rs"), ("AsyncOffsetWriter::poll_flush", W+"io/offset.rs")],
  ["sink contents and flush calls at the time the flush returns"])

p("C26", "Every subset of the crate's features is a working build",
  "With any subset of the crate's features (compression methods, tokio, tokio-fs, chrono) the crate builds; exactly the enabled methods and stored are supported; archives that only use those read, with every reader, and are written, exactly as with all features enabled; an archive or entry using another method is refused with CompressionNotSupported and the method's number.",
  ["configurations", "inputs"],
  "all subsets of the features x archives x write histories",
  "The tests run with all features enabled; there are hundreds of subsets and the code is full of feature conditions.",
  ["src/spec/compression.rs", "src/spec/version.rs", "src/entry/mod.rs", "src/entry/builder.rs", "src/lib.rs", W+"compressed_writer.rs", W+"entry_whole.rs", R+"io/compressed.rs", R+"mod.rs"],
  [("Compression and its conversions", "src/spec/compression.rs"), ("compress", W+"entry_whole.rs"), ("CompressedAsyncWriter", W+"compressed_writer.rs"), ("CompressedReader", R+"io/compressed.rs")],
  ["whether the subset builds", "reader results and archive bytes of each build"])

p("C27", "Readers can be taken apart and put together again",
  "Joining an archive's directory with its bytes in any reader built from parts (in-memory, seekable with the source standing anywhere, filesystem under any path), whichever kind of reader read the directory, answers exactly like a reader that opened the archive itself; the parts handed back (data, path, directory, inner source) are those put in, and using the inner source in between does no harm. Joined with bytes it does not describe, the directory keeps its listing, nothing panics, and no checked read passes data that fails its CRC.",
  ["inputs", "histories"],
  "all archives x kinds of reader taken apart x kinds put together x source positions, and directories x unrelated or damaged bytes",
  "No test uses from_raw_parts, into_inner or inner_mut.",
  [R+"mem.rs", R+"seek.rs", "src/tokio/read/fs.rs", "src/tokio/read/mod.rs", "src/entry/mod.rs", "src/file/mod.rs"],
  [("from_raw_parts", R+"seek.rs"), ("from_raw_parts", R+"mem.rs"), ("from_raw_parts", "src/tokio/read/fs.rs"), ("seek_to_data_offset", "src/entry/mod.rs")],
  ["listings and contents of the rebuilt readers", "the parts handed back"])

p("C28", "What a writer or reader produces depends on its own calls only",
  "Writing is deterministic: the same calls with the same transfers give the same archive, byte for byte, whenever and wherever they are made, and reading likewise gives the same answers. Any number of writers and readers under way at the same time, interleaved on one task in any order or running on several threads, some of them abandoned half way, never influence each other.",
  ["histories", "schedules"],
  "all sets of write histories and readings x polling orders x points of abandonment",
  "Every test uses one writer or reader at a time and none compares two runs.",
  [W+"mod.rs", W+"entry_whole.rs", W+"entry_stream.rs", W+"compressed_writer.rs", W+"io/offset.rs", R+"mod.rs", R+"seek.rs"],
  [("ZipFileWriter", W+"mod.rs"), ("EntryStreamWriter", W+"entry_stream.rs"), ("compress", W+"entry_whole.rs"), ("ZipFileReader", R+"seek.rs")],
  ["archive bytes and reading results of each job"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
